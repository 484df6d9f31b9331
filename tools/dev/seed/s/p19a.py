ID="p19-result-out-of-nothing"; PROP="P19"
NEEDS="an answer of the client that cannot be decoded, to a request whose result may be null"
BREAKS="An undecodable result is replaced by null."
EDITS=[("src/service/client.rs",'''            serde_json::from_value(v).map_err(|e| Error {''','''            let result = serde_json::from_value(v);
            result.or_else(|e| serde_json::from_value(Value::Null).map_err(|_| e)).map_err(|e| Error {''')]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut client = None;
    let (mut s, sock) = LspService::new(|c| { client = Some(c); S });
    let client = client.unwrap();
    within(s.call(init(1))).await.unwrap();
    let (mut reqs, mut resps) = sock.split();
    let ask = async move { client.workspace_folders().await };
    let answer = async move {
        let r = reqs.next().await.unwrap();
        resps.send(Response::from_ok(r.id().unwrap().clone(), json!("no folders"))).await.unwrap();
    };
    let (res, ()) = within(async { tokio::join!(ask, answer) }).await;
    assert!(res.is_err());
}
'''
