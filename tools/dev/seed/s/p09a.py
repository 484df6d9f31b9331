ID="p09-late-shutdown-state"; PROP="P09"
NEEDS="a request that arrives while the shutdown handler is still running"
BREAKS="The server is marked as shut down only once the shutdown handler has finished, so requests are served after shutdown was accepted."
EDITS=[("src/service/layers.rs","""                self.state.set(State::ShutDown);
                self.inner.call(req)
""","""                let state = self.state.clone();
                let fut = self.inner.call(req);
                Box::pin(async move {
                    let response = fut.await?;
                    state.transition(State::Initialized, State::ShutDown);
                    Ok(response)
                })
""")]
DEMO=r'''
mod common;
use common::*;
struct S(Arc<AtomicUsize>);
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { future::pending().await }
    async fn code_action_resolve(&self, a: CodeAction) -> Result<CodeAction> { self.0.fetch_add(1, Ordering::SeqCst); Ok(a) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    let (mut s, _c) = LspService::new(move |_| S(m));
    within(s.call(init(1))).await.unwrap();
    let h = tokio::spawn(s.call(bare(2, "shutdown")));
    settle().await;
    let r = within(s.call(req(3, "codeAction/resolve", json!({"title": ""})))).await.unwrap();
    assert_eq!(code(&r), -32600);
    assert_eq!(n.load(Ordering::SeqCst), 0);
    h.abort();
}
'''
