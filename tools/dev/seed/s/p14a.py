ID="p14-exit-spares-string-ids"; PROP="P14"
NEEDS="a request with a string id in progress when exit arrives"
BREAKS="exit does not cancel requests in progress whose id is a string; they keep running."
EDITS=[("src/service/pending.rs","""        self.0.retain(|_, handle| {
            handle.abort();
            false
        });""","""        self.0.retain(|id, handle| match id {
            Id::String(_) => true,
            _ => {
                handle.abort();
                false
            }
        });""")]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
    async fn code_action_resolve(&self, _: CodeAction) -> Result<CodeAction> { future::pending().await }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut s, _c) = LspService::new(|_| S);
    within(s.call(init(1))).await.unwrap();
    let a = tokio::spawn(s.call(req("x", "codeAction/resolve", json!({"title": ""}))));
    let b = tokio::spawn(s.call(req(7, "codeAction/resolve", json!({"title": ""}))));
    settle().await;
    within(s.call(Request::build("exit").finish())).await.unwrap();
    assert_eq!(code(&within(b).await.unwrap().unwrap()), -32800);
    assert_eq!(code(&within(a).await.unwrap().unwrap()), -32800);
}
'''
