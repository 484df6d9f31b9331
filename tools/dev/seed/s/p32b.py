ID="p32-serving-in-a-span"; PROP="P32"
NEEDS="a program that spawns the serving future, or moves it to another thread"
BREAKS="The serving future holds the guard of a tracing span while it waits, so that it can no longer be sent to another thread or spawned."
EDITS=[("src/transport.rs","        let (client_requests, mut client_responses) = self.loopback.split();\n","        let _span = tracing::info_span!(\"serve\", max_concurrency = self.max_concurrency).entered();\n        let (client_requests, mut client_responses) = self.loopback.split();\n")]
DEMO="""
mod common;
use common::*;
use std::marker::PhantomData;

struct Probe<T>(PhantomData<T>);
trait No {
    fn sent(&self) -> bool { false }
}
impl<T> No for Probe<T> {}
impl<T: Send> Probe<T> {
    fn sent(&self) -> bool { true }
}
fn of<T>(_: &T) -> Probe<T> { Probe(PhantomData) }

struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}

#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (service, socket) = LspService::new(|_| S);
    let input = std::io::Cursor::new(frame(r#"{"jsonrpc":"2.0","method":"exit"}"#));
    let mut out = Vec::new();
    let fut = Server::new(input, &mut out, socket).serve(service);
    assert!(of(&fut).sent(), "the serving future cannot be moved to another thread");
    within(fut).await;
    assert!(out.is_empty());
}
"""
