ID="p08-initialize-again-after-shutdown"; PROP="P08"
NEEDS="a second initialize request after a shutdown"
BREAKS="A server that has been shut down accepts another initialize: its handler runs twice and the server comes back to life."
EDITS=[("src/service/layers.rs","        if self.state.get() == State::Uninitialized {","        if let State::Uninitialized | State::ShutDown = self.state.get() {")]
DEMO=r'''
mod common;
use common::*;
struct S(Arc<AtomicUsize>);
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { self.0.fetch_add(1, Ordering::SeqCst); Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    let (mut s, _c) = LspService::new(move |_| S(m));
    within(s.call(init(1))).await.unwrap();
    within(s.call(bare(2, "shutdown"))).await.unwrap();
    let r = within(s.call(init(3))).await.unwrap();
    assert_eq!(code(&r), -32600);
    assert_eq!(n.load(Ordering::SeqCst), 1);
}
'''
