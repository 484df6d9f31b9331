ID="p22-limit-of-one-ignored"; PROP="P22"
NEEDS="a limit below four and slow requests"
BREAKS="A concurrency limit below the default has no effect."
EDITS=[("src/transport.rs","            .buffer_unordered(self.max_concurrency)","            .buffer_unordered(self.max_concurrency.max(DEFAULT_MAX_CONCURRENCY))")]
DEMO=r'''
mod common;
use common::*;
struct S(Arc<AtomicUsize>, Arc<AtomicUsize>);
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
    async fn hover(&self, _: HoverParams) -> Result<Option<Hover>> {
        let n = self.0.fetch_add(1, Ordering::SeqCst) + 1;
        self.1.fetch_max(n, Ordering::SeqCst);
        settle().await;
        self.0.fetch_sub(1, Ordering::SeqCst);
        Ok(None)
    }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut input = frame(r#"{"jsonrpc":"2.0","method":"initialize","params":{"capabilities":{}},"id":1}"#);
    let (feed, rx) = tokio::io::duplex(1 << 16);
    let max = Arc::new(AtomicUsize::new(0));
    let (a, b) = (Arc::new(AtomicUsize::new(0)), max.clone());
    let (s, c) = LspService::new(move |_| S(a, b));
    let mut out = Vec::new();
    let write = async move {
        use tokio::io::AsyncWriteExt;
        let mut feed = feed;
        feed.write_all(&input).await.unwrap();
        settle().await;
        input.clear();
        for i in 2..6 {
            input.extend(frame(&format!(r#"{{"jsonrpc":"2.0","method":"textDocument/hover","params":{{"textDocument":{{"uri":"file:///a"}},"position":{{"line":0,"character":0}}}},"id":{i}}}"#)));
        }
        feed.write_all(&input).await.unwrap();
    };
    within(async { tokio::join!(Server::new(rx, &mut out, c).concurrency_level(1).serve(s), write) }).await;
    assert_eq!(unframe(&out).len(), 5);
    assert_eq!(max.load(Ordering::SeqCst), 1);
}
'''
