ID="p02-forgets-partial-length"; PROP="P02"
NEEDS="a body that arrives in two pieces, the first of which ends with a line end"
BREAKS="The announced length is forgotten while the body is incomplete, if what is there looks like a whole line; the rest is read as a header."
EDITS=[("src/codec.rs",'''            if src.len() < content_len {
                return Ok(None);
            }
''','''            if src.len() < content_len {
                if src.ends_with(b"\\n") {
                    self.content_len = None;
                }
                return Ok(None);
            }
''')]
DEMO=r'''
mod common;
use common::*;
use tokio::io::AsyncWriteExt;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let input = frame("{\"jsonrpc\":\"2.0\",\n\"method\":\"initialize\",\"params\":{\"capabilities\":{}},\"id\":1}");
    let cut = input.iter().rposition(|b| *b == b'\n').unwrap() + 1;
    let (mut tx, rx) = tokio::io::duplex(4096);
    let mut out = Vec::new();
    let (s, c) = LspService::new(|_| S);
    let feed = async move {
        tx.write_all(&input[..cut]).await.unwrap();
        settle().await;
        tx.write_all(&input[cut..]).await.unwrap();
    };
    within(async { tokio::join!(Server::new(rx, &mut out, c).serve(s), feed) }).await;
    let out = unframe(&out);
    assert!(out.len() == 1 && out[0].get("result").is_some(), "{out:?}");
}
'''
