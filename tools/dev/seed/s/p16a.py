ID="p16-waits-after-send"; PROP="P16"
NEEDS="an answer that arrives before the sending task runs again, which is possible while the channel is full"
BREAKS="A request is registered only after it has been sent, so that a prompt answer is dropped as unknown and the request never ends."
EDITS=[("src/service/client.rs","        let response_waiter = req.id().cloned().map(|id| self.inner.pending.wait(id));\n","        let id = req.id().cloned();\n        let inner = self.inner.clone();\n"),
("src/service/client.rs",'''            match response_waiter {
                Some(fut) => Ok(Some(fut.await)),
''','''            match id {
                Some(id) => Ok(Some(inner.pending.wait(id).await)),
''')]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut client = None;
    let (mut s, sock) = LspService::new(|c| { client = Some(c); S });
    let client = client.unwrap();
    within(s.call(init(1))).await.unwrap();
    let (mut reqs, mut resps) = sock.split();
    let many = (0..6).map(|_| { let c = client.clone(); async move { c.code_lens_refresh().await } }).collect::<Vec<_>>();
    let answer = async move {
        // Let the senders fill the channel first.
        settle().await;
        for _ in 0..6 {
            let r = reqs.next().await.unwrap();
            resps.send(Response::from_ok(r.id().unwrap().clone(), json!(null))).await.unwrap();
        }
    };
    let (res, ()) = within(async { tokio::join!(future::join_all(many), answer) }).await;
    assert!(res.iter().all(|r| r.is_ok()));
}
'''
