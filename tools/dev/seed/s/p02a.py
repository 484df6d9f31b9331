ID="p02-trims-body"; PROP="P02"
NEEDS="a message whose body ends with white space, and another message behind it"
BREAKS="Only the text up to the trailing white space is removed from the input, so that the next header starts with what is left of the body."
EDITS=[("src/codec.rs","            let bytes = &src[..content_len];","            let trailing = src[..content_len].iter().rev().take_while(|b| b.is_ascii_whitespace()).count();\n            let content_len = content_len - trailing;\n            let bytes = &src[..content_len];")]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut input = frame("{\"jsonrpc\":\"2.0\",\"method\":\"initialize\",\"params\":{\"capabilities\":{}},\"id\":1}\n\n");
    input.extend(frame(r#"{"jsonrpc":"2.0","method":"shutdown","id":2}"#));
    let mut out = Vec::new();
    let (s, c) = LspService::new(|_| S);
    within(Server::new(&input[..], &mut out, c).serve(s)).await;
    let out = unframe(&out);
    assert_eq!(out.len(), 2, "{out:?}");
    let mut ids: Vec<_> = out.iter().map(|m| m["id"].as_i64()).collect();
    ids.sort();
    assert_eq!(ids, [Some(1), Some(2)], "{out:?}");
}
'''
