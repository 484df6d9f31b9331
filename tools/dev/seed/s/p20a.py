ID="p20-queued-requests-dropped"; PROP="P20"
NEEDS="more requests in the queue than may run at once when the input ends"
BREAKS="When the input ends, requests which were accepted but not started yet are dropped unanswered."
EDITS=[("src/transport.rs","        let process_server_tasks = server_tasks_rx\n","        let (server_tasks_rx, tasks_abort) = stream::abortable(server_tasks_rx);\n        let process_server_tasks = server_tasks_rx\n"),
("src/transport.rs","            server_tasks_tx.disconnect();\n","            server_tasks_tx.disconnect();\n            tasks_abort.abort();\n")]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { 
        tokio::time::sleep(Duration::from_millis(200)).await;
        Ok(Default::default())
    }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut input = frame(r#"{"jsonrpc":"2.0","method":"initialize","params":{"capabilities":{}},"id":1}"#);
    for id in 2..5 {
        input.extend(frame(&format!(r#"{{"jsonrpc":"2.0","method":"textDocument/none","id":{id}}}"#)));
    }
    let mut out = Vec::new();
    let (s, c) = LspService::new(|_| S);
    within(Server::new(&input[..], &mut out, c).concurrency_level(1).serve(s)).await;
    let ids: Vec<_> = unframe(&out).iter().map(|m| m["id"].as_i64().unwrap()).collect();
    assert_eq!(ids, [1, 2, 3, 4]);
}
'''
