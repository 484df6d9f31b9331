ID="p14-custom-methods-run-on"; PROP="P14"
NEEDS="a request to a custom method in progress when it is cancelled, or when exit arrives"
BREAKS="Custom methods keep their requests in a table of their own: neither $/cancelRequest nor exit reaches them."
EDITS=[("src/service.rs","layers::Normal::new(self.state.clone(), self.pending.clone());","layers::Normal::new(self.state.clone(), Arc::new(Pending::new()));")]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
impl S {
    async fn stuck(&self) -> Result<i32> { future::pending().await }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut s, _c) = LspService::build(|_| S).custom_method("custom/stuck", S::stuck).finish();
    within(s.call(init(1))).await.unwrap();
    let a = tokio::spawn(s.call(bare(7, "custom/stuck")));
    settle().await;
    within(s.call(note("$/cancelRequest", json!({"id": 7})))).await.unwrap();
    assert_eq!(code(&within(a).await.unwrap().unwrap()), -32800);
}
'''
