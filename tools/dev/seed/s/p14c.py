ID="p14-shutdown-cancels"; PROP="P14"
NEEDS="a request in progress when shutdown comes"
BREAKS="shutdown aborts the other requests in progress, which are answered as cancelled although nobody cancelled them."
EDITS=[("src/service/layers.rs","""                self.state.set(State::ShutDown);
                self.inner.call(req)""","""                self.state.set(State::ShutDown);
                self.inner.pending.cancel_all();
                self.inner.call(req)""")]
DEMO='''
mod common;
use common::*;
struct S(Arc<tokio::sync::Notify>);
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn symbol(&self, _: WorkspaceSymbolParams) -> Result<Option<Vec<SymbolInformation>>> { self.0.notified().await; Ok(None) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let go = Arc::new(tokio::sync::Notify::new());
    let g = go.clone();
    let (mut s, _c) = LspService::new(move |_| S(g));
    within(s.call(init(1))).await.unwrap();
    let a = tokio::spawn(s.call(req(7, "workspace/symbol", json!({"query": "q"}))));
    settle().await;
    within(s.call(bare(8, "shutdown"))).await.unwrap().unwrap();
    go.notify_one();
    let r = within(a).await.unwrap().unwrap().unwrap();
    assert_eq!(r.result(), Some(&json!(null)));
}
'''
