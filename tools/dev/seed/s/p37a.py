ID="p37-ready-after-initialize"; PROP="P37"
NEEDS="a task that waits for the service to be ready while another one runs the initialize request"
BREAKS="The service is not ready during initialize, and nobody wakes the task that waits for it."
EDITS=[("src/service.rs",'''        match self.state.get() {
            State::Exited => Poll::Ready(Err(ExitedError(()))),
            _ => self.inner.poll_ready(cx),''','''        match self.state.get() {
            State::Exited => Poll::Ready(Err(ExitedError(()))),
            // Nothing but `exit` could be served until `initialize` has been answered.
            State::Initializing => Poll::Pending,
            _ => self.inner.poll_ready(cx),''')]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> {
        tokio::time::sleep(Duration::from_millis(50)).await;
        Ok(Default::default())
    }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut s, _sock) = LspService::new(|_| S);
    let init = within(s.ready()).await.unwrap().call(init(1));
    let running = tokio::spawn(init);
    settle().await;
    // Whether at once or after `initialize`: the service gets ready.
    let waited = std::time::Instant::now();
    within(s.ready()).await.unwrap();
    assert!(waited.elapsed() < Duration::from_secs(3), "nobody woke the task");
    assert!(within(running).await.unwrap().unwrap().unwrap().is_ok());
}
'''
