ID="p33-header-echoed"; PROP="P33"
NEEDS="a message with a header that is neither of the two known ones, while the standard output is the output of the server or something else of its user"
BREAKS="Unknown headers are reported on the standard output of the process, which belongs to the user and may be the output of the server itself."
EDITS=[("src/codec.rs","""            other => warn!("encountered unsupported header: {:?}", other),
""","""            other => println!("encountered unsupported header: {:?}", other),
"""),("src/codec.rs","use tracing::{trace, warn};","use tracing::trace;")]
DEMO="""
mod common;
use common::*;

struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}

#[tokio::main(flavor = "current_thread")]
async fn main() {
    if std::env::args().nth(1).is_some() {
        let (service, socket) = LspService::new(|_| S);
        let body = r#"{"jsonrpc":"2.0","method":"initialize","id":1,"params":{"capabilities":{}}}"#;
        let mut text = format!("X-Sender: me\\r\\nContent-Length: {}\\r\\n\\r\\n{}", body.len(), body).into_bytes();
        text.extend(frame(r#"{"jsonrpc":"2.0","method":"exit"}"#));
        let mut out = Vec::new();
        within(Server::new(std::io::Cursor::new(text), &mut out, socket).serve(service)).await;
        std::io::Write::write_all(&mut std::io::stdout(), &out).unwrap();
        return;
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert!(out.status.success());
    let msgs = unframe(&out.stdout);
    assert!(msgs.iter().any(|m| m["id"] == 1));
}
"""
