ID="p26-accepts-other-versions"; PROP="P26"
NEEDS="a message of version 2.1"
BREAKS="Messages of other versions are accepted if they start with 2."
EDITS=[("src/jsonrpc.rs",'''            "2.0" => Ok(Version),''','''            v if v.starts_with("2.") => Ok(Version),''')]
DEMO=r'''
mod common;
use common::*;
fn main() {
    assert!(r#"{"jsonrpc":"2.1","method":"a"}"#.parse::<Request>().is_err());
    assert!(r#"{"jsonrpc":"2.0","method":"a"}"#.parse::<Request>().is_ok());
}
'''
