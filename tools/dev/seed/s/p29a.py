ID="p29-split-stream-outlives-exit"; PROP="P29"
NEEDS="a message still queued for the client when exit arrives, and a loopback that was split"
BREAKS="The stream half of a split loopback goes on after exit."
EDITS=[("src/service/client/socket.rs",'''impl Stream for RequestStream {
    type Item = Request;

    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        if self.state.get() == State::Exited || self.rx.is_terminated() {''','''impl Stream for RequestStream {
    type Item = Request;

    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        if self.rx.is_terminated() {''')]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut client = None;
    let (mut s, sock) = LspService::new(|c| { client = Some(c); S });
    let client = client.unwrap();
    within(s.call(init(1))).await.unwrap();
    let (mut reqs, _resps) = sock.split();
    within(client.log_message(MessageType::LOG, "late")).await;
    within(s.call(Request::build("exit").finish())).await.unwrap();
    assert!(within(reqs.next()).await.is_none());
}
'''
