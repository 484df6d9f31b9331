ID="p21-notification-to-closed-output"; PROP="P21"
NEEDS="a handler which notifies the client after the output has failed"
BREAKS="A message that can no longer be handed to the client makes the handler panic."
EDITS=[("src/service/client.rs",'''        if self.clone().call(request).await.is_err() {
            error!("failed to send notification");
        }''','''        let sent = self.clone().call(request).await;
        debug_assert!(sent.is_ok(), "failed to send notification");''')]
DEMO=r'''
mod common;
use common::*;
use std::pin::Pin;
use std::task::{Context, Poll};
struct S(Client);
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> {
        tokio::time::sleep(Duration::from_millis(100)).await;
        self.0.log_message(MessageType::LOG, "one").await;
        tokio::time::sleep(Duration::from_millis(100)).await;
        self.0.log_message(MessageType::LOG, "two").await;
        Ok(Default::default())
    }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
struct Broken;
impl tokio::io::AsyncWrite for Broken {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<std::io::Result<usize>> {
        Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let input = frame(r#"{"jsonrpc":"2.0","method":"initialize","params":{"capabilities":{}},"id":1}"#);
    let (s, c) = LspService::new(S);
    within(Server::new(&input[..], Broken, c).serve(s)).await;
}
'''
