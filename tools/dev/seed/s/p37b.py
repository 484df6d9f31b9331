ID="p37-stream-holds-back"; PROP="P37"
NEEDS="a message to the client during initialize, read by a task of its own"
BREAKS="The stream of messages to the client is pending during initialize without listening to the channel, and never woken afterwards."
EDITS=[("src/service/client/socket.rs",'''impl Stream for RequestStream {
    type Item = Request;

    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        if self.state.get() == State::Exited || self.rx.is_terminated() {
            Poll::Ready(None)
        } else {''','''impl Stream for RequestStream {
    type Item = Request;

    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        if self.state.get() == State::Exited || self.rx.is_terminated() {
            Poll::Ready(None)
        } else if self.state.get() == State::Initializing {
            // The response to `initialize` comes first.
            Poll::Pending
        } else {''')]
DEMO=r'''
mod common;
use common::*;
struct S(Client);
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> {
        self.0.log_message(MessageType::LOG, "starting").await;
        settle().await;
        Ok(Default::default())
    }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut s, sock) = LspService::new(S);
    let (mut reqs, _resps) = sock.split();
    let fut = s.call(init(1));
    let reader = tokio::spawn(async move { reqs.next().await });
    let running = tokio::spawn(fut);
    assert!(within(running).await.unwrap().unwrap().unwrap().is_ok());
    let m = within(reader).await.unwrap().unwrap();
    assert_eq!(m.method(), "window/logMessage");
}
'''
