ID="p29-closing-ends-the-server"; PROP="P29"
NEEDS="the sink half of the loopback is closed before the service is done"
BREAKS="Closing the loopback's sink marks the server as exited, and cuts off the stream half and the service."
EDITS=[("src/service/client/socket.rs",'''pub struct ResponseSink {
    pending: Arc<Pending>,
    state: Arc<ServerState>,
}''','''pub struct ResponseSink {
    pending: Arc<Pending>,
    state: Arc<ServerState>,
}

impl ResponseSink {
    /// No answers can arrive any more.
    fn finish(&self) {
        self.state.transition(State::Initialized, State::Exited);
    }
}'''),
("src/service/client/socket.rs","""        if self.state.get() == State::Exited {
            Poll::Ready(Err(ExitedError(())))
        } else {
            Poll::Ready(Ok(()))
        }
    }

    fn start_send(self: Pin<&mut Self>, item: Response) -> Result<(), Self::Error> {
        self.pending.insert(item);
        Ok(())
    }

    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        Poll::Ready(Ok(()))
    }

    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
""","""        if self.state.get() == State::Exited {
            Poll::Ready(Err(ExitedError(())))
        } else {
            Poll::Ready(Ok(()))
        }
    }

    fn start_send(self: Pin<&mut Self>, item: Response) -> Result<(), Self::Error> {
        self.pending.insert(item);
        Ok(())
    }

    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        Poll::Ready(Ok(()))
    }

    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        self.finish();
""")]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut s, c) = LspService::new(|_| S);
    within(s.call(init(1))).await.unwrap();
    let (_rx, mut tx) = c.split();
    tx.close().await.unwrap();
    assert!(within(s.call(bare(2, "shutdown"))).await.unwrap().unwrap().is_ok());
}
'''
