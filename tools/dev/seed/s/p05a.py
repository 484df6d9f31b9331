ID="p05-swapped-names"; PROP="P05"
NEEDS="a textDocument/implementation or textDocument/typeDefinition request (the types of both are the same)"
BREAKS="textDocument/implementation reaches the type definition handler and the other way round."
EDITS=[("src/lib.rs",'#[rpc(name = "textDocument/implementation")]','#[rpc(name = "textDocument/TMP")]'),
("src/lib.rs",'#[rpc(name = "textDocument/typeDefinition")]','#[rpc(name = "textDocument/implementation")]'),
("src/lib.rs",'#[rpc(name = "textDocument/TMP")]','#[rpc(name = "textDocument/typeDefinition")]')]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
    async fn goto_implementation(&self, _: request::GotoImplementationParams) -> Result<Option<request::GotoImplementationResponse>> { Ok(None) }
    async fn goto_type_definition(&self, _: request::GotoTypeDefinitionParams) -> Result<Option<request::GotoTypeDefinitionResponse>> { Err(Error::internal_error()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut s, _c) = LspService::new(|_| S);
    within(s.call(init(1))).await.unwrap();
    let p = json!({"textDocument": {"uri": "file:///a"}, "position": {"line": 0, "character": 0}});
    let r = within(s.call(req(3, "textDocument/implementation", p.clone()))).await.unwrap();
    assert_eq!(code(&r), 0);
    let r = within(s.call(req(3, "textDocument/typeDefinition", p))).await.unwrap();
    assert_eq!(code(&r), -32603);
}
'''
