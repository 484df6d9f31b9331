ID="p13-cancelled-id-stays-reserved"; PROP="P13"
NEEDS="a request that is cancelled, and a later request with the same id"
BREAKS="The id of a cancelled request is never free again: every later request with it is refused."
EDITS=[("src/service/pending.rs","""                requests.remove(&id); // Remove abort handle now to avoid double cancellation.

                if let Ok(handler_result) = abort_result {
                    handler_result
""","""
                if let Ok(handler_result) = abort_result {
                    requests.remove(&id); // Remove abort handle now to avoid double cancellation.
                    handler_result
""")]
DEMO=r'''
mod common;
use common::*;
struct S(Arc<AtomicUsize>);
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
    async fn code_action_resolve(&self, a: CodeAction) -> Result<CodeAction> {
        if self.0.fetch_add(1, Ordering::SeqCst) == 0 { future::pending().await }
        Ok(a)
    }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut s, _c) = LspService::new(|_| S(Default::default()));
    within(s.call(init(1))).await.unwrap();
    let h = tokio::spawn(s.call(req(3, "codeAction/resolve", json!({"title": ""}))));
    settle().await;
    within(s.call(note("$/cancelRequest", json!({"id": 3})))).await.unwrap();
    let r = within(h).await.unwrap().unwrap();
    assert_eq!(code(&r), -32800);
    let r = within(s.call(req(3, "codeAction/resolve", json!({"title": ""})))).await.unwrap();
    assert!(r.unwrap().is_ok());
}
'''
