ID="p11-bad-params-null-id"; PROP="P11"
NEEDS="a request with a string id whose params cannot be decoded"
BREAKS="The response to a request with a string id and bad params carries a null id."
EDITS=[("src/jsonrpc/router.rs","Err(err) => return future::ok(id.map(|id| Response::from_error(id, err))).boxed(),","""Err(err) => {
                let id = id.map(|id| if let Id::Number(_) = id { id } else { Id::Null });
                return future::ok(id.map(|id| Response::from_error(id, err))).boxed();
            }""")]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut s, _c) = LspService::new(|_| S);
    within(s.call(init(1))).await.unwrap();
    let r = within(s.call(req("a", "workspace/willRenameFiles", json!({"files": 3})))).await.unwrap();
    assert_eq!(r.unwrap().id(), &Id::String("a".into()));
}
'''
