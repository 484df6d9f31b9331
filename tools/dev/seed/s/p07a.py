ID="p07-serve-while-initializing"; PROP="P07"
NEEDS="a request that arrives while the initialize handler is still running"
BREAKS="Requests are served before initialize has succeeded: while it is in progress, and even if it then fails."
EDITS=[("src/service/layers.rs","""            State::Initialized => self.inner.call(req),
            cur_state""","""            State::Initializing | State::Initialized => self.inner.call(req),
            cur_state""")]
DEMO=r'''
mod common;
use common::*;
struct S(Arc<AtomicUsize>);
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { future::pending().await }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
    async fn code_action_resolve(&self, a: CodeAction) -> Result<CodeAction> { self.0.fetch_add(1, Ordering::SeqCst); Ok(a) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    let (mut s, _c) = LspService::new(move |_| S(m));
    let h = tokio::spawn(s.call(init(1)));
    settle().await;
    let r = within(s.call(req(2, "codeAction/resolve", json!({"title": ""})))).await.unwrap();
    assert_eq!(code(&r), -32002);
    assert_eq!(n.load(Ordering::SeqCst), 0);
    h.abort();
}
'''
