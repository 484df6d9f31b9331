ID="p31-null-id-lost"; PROP="P31"
NEEDS="a request whose id is null"
BREAKS="A request with a null id is taken for a notification and never answered."
EDITS=[("src/jsonrpc/request.rs",'''    #[serde(default, deserialize_with = "deserialize_some")]
    #[serde(skip_serializing_if = "Option::is_none")]
    id: Option<Id>,''','''    #[serde(default)]
    #[serde(skip_serializing_if = "Option::is_none")]
    id: Option<Id>,''')]
DEMO=r'''
mod common;
use common::*;
fn main() {
    let r: Request = r#"{"jsonrpc":"2.0","method":"a","id":null}"#.parse().unwrap();
    assert_eq!(r.id(), Some(&Id::Null));
}
'''
