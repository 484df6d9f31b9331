ID="p04-length-kept-after-bad-body"; PROP="P04"
NEEDS="a message whose body cannot be decoded, and another message behind it"
BREAKS="After a body that cannot be decoded the decoder still waits for a body, so that the next message is taken for one."
EDITS=[("src/codec.rs","            self.content_len = None; // Reset state in preparation for parsing next message.\n","            if result.is_ok() {\n                self.content_len = None; // Reset state in preparation for parsing next message.\n            }\n")]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut input = frame("{\"jsonrpc\":\"2.0\",\"method\":7}");
    input.extend(frame(r#"{"jsonrpc":"2.0","method":"initialize","params":{"capabilities":{}},"id":1}"#));
    let mut out = Vec::new();
    let (s, c) = LspService::new(|_| S);
    within(Server::new(&input[..], &mut out, c).serve(s)).await;
    let out = unframe(&out);
    assert_eq!(out.len(), 2, "{out:?}");
    assert!(out.iter().any(|m| m["id"] == 1 && m.get("result").is_some()), "{out:?}");
    assert!(out.iter().any(|m| m["id"].is_null() && m["error"]["code"] == -32600), "{out:?}");
}
'''
