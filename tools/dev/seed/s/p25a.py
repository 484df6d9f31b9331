ID="p25-content-modified-not-read"; PROP="P25"
NEEDS="an error with the code -32801 that is decoded"
BREAKS="The code of ContentModified is decoded as another one, so that encoding and decoding an error changes it."
EDITS=[("src/jsonrpc/error.rs","            -32801 => ErrorCode::ContentModified,\n            code =>","            code =>")]
DEMO=r'''
mod common;
use common::*;
fn main() {
    for c in [ErrorCode::RequestCancelled, ErrorCode::ContentModified] {
        let s = serde_json::to_string(&c).unwrap();
        assert_eq!(serde_json::from_str::<ErrorCode>(&s).unwrap(), c);
    }
}
'''
