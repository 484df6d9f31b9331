ID="p10-exit-keeps-client-channel"; PROP="P10"
NEEDS="an exit notification while the request stream of the client socket is being read"
BREAKS="exit leaves the channel for messages from server to client open, so that its reader waits for ever."
EDITS=[("src/service/layers.rs","""        self.pending.cancel_all();
        self.client.close();
""","""        self.pending.cancel_all();
        let _ = &self.client;
""")]
DEMO=r'''
mod common;
use common::*;
struct S(Client);
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { let _ = &self.0; Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut s, c) = LspService::new(S);
    let (mut requests, _responses) = c.split();
    within(s.call(init(1))).await.unwrap();
    let reader = tokio::spawn(async move { requests.next().await });
    settle().await;
    within(s.call(Request::build("exit").finish())).await.unwrap();
    assert!(within(reader).await.unwrap().is_none());
}
'''
