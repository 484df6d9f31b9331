ID="p06-default-answers-null"; PROP="P06"
NEEDS="a workspace/willRenameFiles request to a server that does not implement it"
BREAKS="The default of will_rename_files answers null instead of method-not-found."
EDITS=[("src/lib.rs","""        error!("Got a workspace/willRenameFiles request, but it is not implemented");
        Err(Error::method_not_found())""","""        error!("Got a workspace/willRenameFiles request, but it is not implemented");
        Ok(None)""")]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut s, _c) = LspService::new(|_| S);
    within(s.call(init(1))).await.unwrap();
    let r = within(s.call(req(2, "workspace/willRenameFiles", json!({"files": []})))).await.unwrap();
    assert_eq!(code(&r), -32601);
}
'''
