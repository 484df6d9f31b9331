ID="p16-abandoned-requests-purged"; PROP="P16"
NEEDS="two requests under one id, the first of which was given up"
BREAKS="A request that was given up takes those that wait behind it under the same id out of the table."
EDITS=[("src/service/client/pending.rs","        match r.id() {\n","""        // Requests that were given up need no place in the table.
        self.0.retain(|_, txs| txs.iter().all(|tx| !tx.is_canceled()));

        match r.id() {
""")]
DEMO=r'''
mod common;
use common::*;
struct S(Client);
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut s, mut c) = LspService::new(S);
    within(s.call(init(1))).await.unwrap();
    let (mut x, mut y) = (s.inner().0.clone(), s.inner().0.clone());
    let ask = || Request::build("mine").id("same").finish();
    let a = tokio::spawn(async move { x.call(ask()).await });
    within(c.next()).await.unwrap();
    let b = tokio::spawn(async move { y.call(ask()).await });
    within(c.next()).await.unwrap();
    a.abort();
    let _ = a.await;
    c.send(Response::from_ok("same".into(), json!(1))).await.unwrap();
    c.send(Response::from_ok("same".into(), json!(2))).await.unwrap();
    let r = within(b).await.expect("the second request has lost its answer").unwrap().unwrap();
    assert_eq!(r.result(), Some(&json!(2)));
}
'''
