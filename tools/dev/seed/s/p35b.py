ID="p35-empty-params-dropped"; PROP="P35"
NEEDS="a request built with params that are an empty object or array"
BREAKS="The builder of requests leaves out params that hold nothing."
J="src/jsonrpc/request.rs"
EDITS=[(J,"        self.params = Some(params.into());\n        self\n","""        let params = params.into();
        let empty = match &params {
            Value::Array(a) => a.is_empty(),
            Value::Object(o) => o.is_empty(),
            _ => false,
        };
        self.params = Some(params).filter(|_| !empty);
        self
""")]
DEMO="""
mod common;
use common::*;
fn main() {
    for v in [json!(null), json!({}), json!([]), json!({"a": 1}), json!([0])] {
        let r = Request::build("m").id(1).params(v.clone()).finish();
        assert_eq!(r.params(), Some(&v));
        assert_eq!(r.id(), Some(&Id::Number(1)));
        let text = serde_json::to_string(&r).unwrap();
        assert_eq!(text.parse::<Request>().unwrap(), r);
    }
}
"""
