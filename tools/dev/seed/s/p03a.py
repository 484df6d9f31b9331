ID="p03-keeps-bad-utf8-header"; PROP="P03"
NEEDS="a Content-Length value that is no UTF-8 text"
BREAKS="An unreadable header value is taken as a missing length of 0 xor kept, so that the same header is rejected again and again."
EDITS=[("src/codec.rs",'''                let string = std::str::from_utf8(header.value)?;
                let parsed_len = string.parse()?;
''','''                let string = std::str::from_utf8(header.value)?;
                let parsed_len = match string.parse() {
                    Ok(len) => len,
                    Err(_) if string.starts_with('-') => usize::MAX,
                    Err(err) => return Err(err.into()),
                };
''')]
BREAKS="A negative length is taken for the largest one, so that the decoder waits for ever for a body that never ends."
NEEDS="a header with a negative Content-Length"
ID="p03-negative-length-waits"
DEMO=r'''
mod common;
use common::*;
use tokio::io::AsyncWriteExt;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut input = b"Content-Length: -1\r\n\r\n".to_vec();
    input.extend(frame(r#"{"jsonrpc":"2.0","method":"initialize","params":{"capabilities":{}},"id":1}"#));
    let mut out = Vec::new();
    let (s, c) = LspService::new(|_| S);
    within(Server::new(&input[..], &mut out, c).serve(s)).await;
    let out = unframe(&out);
    assert!(out.iter().any(|m| m.get("result").is_some()), "{out:?}");
}
'''
