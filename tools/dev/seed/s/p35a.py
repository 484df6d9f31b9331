ID="p35-null-is-no-result"; PROP="P35"
NEEDS="a successful response whose result is null, read by its accessor"
BREAKS="The accessor of the result of a response returns nothing for a result that is null."
J="src/jsonrpc/response.rs"
EDITS=[(J,"            Kind::Ok { result } => Some(result),\n            _ => None,","            Kind::Ok { result } if !matches!(result, Value::Null) => Some(result),\n            _ => None,")]
DEMO="""
mod common;
use common::*;
fn main() {
    for v in [json!(null), json!(0), json!({}), json!(false)] {
        let r = Response::from_ok(Id::Number(1), v.clone());
        assert!(r.is_ok() && !r.is_error());
        assert_eq!(r.result(), Some(&v));
        assert_eq!(r.error(), None);
        assert_eq!(r.clone().into_parts(), (Id::Number(1), Ok(v)));
    }
}
"""
