ID="p16-number-for-string-id"; PROP="P16"
NEEDS="an answer whose id is the text of the number that the request had"
BREAKS="A response with the id \"0\" is delivered to the request with the id 0."
EDITS=[("src/service/client/pending.rs",'''            id => match self.0.entry(id.clone()) {
''','''            id => match self.0.entry(match id {
                Id::String(s) => s.parse().map_or_else(|_| id.clone(), Id::Number),
                id => id.clone(),
            }) {
''')]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut client = None;
    let (mut s, sock) = LspService::new(|c| { client = Some(c); S });
    let client = client.unwrap();
    within(s.call(init(1))).await.unwrap();
    let (mut reqs, mut resps) = sock.split();
    let ask = async move { client.workspace_folders().await };
    let answer = async move {
        let r = reqs.next().await.unwrap();
        let n = match r.id().unwrap() { Id::Number(n) => *n, _ => panic!() };
        resps.send(Response::from_error(Id::String(n.to_string()), Error::internal_error())).await.unwrap();
        resps.send(Response::from_ok(Id::Number(n), json!(null))).await.unwrap();
    };
    let (res, ()) = within(async { tokio::join!(ask, answer) }).await;
    assert!(res.is_ok());
}
'''
