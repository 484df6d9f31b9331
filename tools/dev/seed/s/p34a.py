ID="p34-digits-equal-numbers"; PROP="P34"
NEEDS="a numeric id and a string id of the same digits"
BREAKS="A string id of digits is taken to be equal to the number, as some clients are said to mix them up."
J="src/jsonrpc.rs"
EDITS=[(J,"#[derive(Clone, Debug, Eq, Hash, PartialEq, Deserialize, Serialize)]\n#[serde(untagged)]\npub enum Id {","#[derive(Clone, Debug, Eq, Hash, Deserialize, Serialize)]\n#[serde(untagged)]\npub enum Id {"),
(J,"impl Default for Id {","""impl PartialEq for Id {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Id::Number(a), Id::Number(b)) => a == b,
            (Id::String(a), Id::String(b)) => a == b,
            (Id::Number(n), Id::String(s)) | (Id::String(s), Id::Number(n)) => {
                s.parse() == Ok(*n)
            }
            (Id::Null, Id::Null) => true,
            _ => false,
        }
    }
}

impl Default for Id {""")]
DEMO="""
mod common;
use common::*;
fn main() {
    let ids = [Id::Number(1), Id::from("1"), Id::Number(-7), Id::from("-7"), Id::from("x"), Id::from(""), Id::Null, Id::from("null")];
    for (i, a) in ids.iter().enumerate() {
        for (k, b) in ids.iter().enumerate() {
            assert_eq!(a == b, i == k, "{:?} {:?}", a, b);
        }
    }
}
"""
