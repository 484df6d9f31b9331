ID="p23-content-type-without-charset"; PROP="P23"
NEEDS="a Content-Type header with parameters other than charset"
BREAKS="A Content-Type whose parameter is shorter than `charset=` makes the decoder panic."
EDITS=[("src/codec.rs",'''                    .find_map(|param| param.strip_prefix("charset="));''','''                    .find(|param| !param.is_empty())
                    .map(|param| &param["charset=".len()..]);''')]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut input = b"Content-Length: 2\r\nContent-Type: text/plain; a=b\r\n\r\n{}".to_vec();
    input.extend(frame(r#"{"jsonrpc":"2.0","method":"initialize","params":{"capabilities":{}},"id":1}"#));
    let mut out = Vec::new();
    let (s, c) = LspService::new(|_| S);
    within(Server::new(&input[..], &mut out, c).serve(s)).await;
    assert!(unframe(&out).len() >= 1);
}
'''
