ID="p34-negative-ids-of-lsp"; PROP="P34"
NEEDS="an id of LSP that is a negative number"
BREAKS="Ids of LSP are widened as if they were unsigned, so that negative ones become other ids, and requests with negative ids cannot be cancelled."
J="src/jsonrpc.rs"
EDITS=[(J,"Id::Number(num as i64)","Id::Number(i64::from(num as u32))")]
DEMO="""
mod common;
use common::*;
fn main() {
    for n in [0, 1, -1, i32::MIN, i32::MAX] {
        assert_eq!(Id::from(NumberOrString::Number(n)), Id::Number(n as i64));
        assert_eq!(Id::from(NumberOrString::String(n.to_string())), Id::String(n.to_string()));
    }
}
"""
