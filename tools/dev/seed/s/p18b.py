ID="p18-wrong-refresh"; PROP="P18"
NEEDS="a refresh of the inline values"
BREAKS="Refreshing the inline values asks the client to refresh the inlay hints."
EDITS=[("src/service/client.rs",'''        use lsp_types::request::InlineValueRefreshRequest;
        self.send_request::<InlineValueRefreshRequest>(()).await''','''        use lsp_types::request::InlayHintRefreshRequest;
        self.send_request::<InlayHintRefreshRequest>(()).await''')]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut client = None;
    let (mut s, mut sock) = LspService::new(|c| { client = Some(c); S });
    let client = client.unwrap();
    within(s.call(init(1))).await.unwrap();
    let t = tokio::spawn(async move { client.inline_value_refresh().await });
    let m = within(sock.next()).await.unwrap();
    t.abort();
    assert_eq!(m.method(), "workspace/inlineValue/refresh");
}
'''
