ID="p18-version-zero"; PROP="P18"
NEEDS="diagnostics for version 0 of a document"
BREAKS="The document version is left out if it is 0."
EDITS=[("src/service/client.rs",'''            uri, diags, version,
''','''            uri,
            diags,
            version.filter(|v| *v > 0),
''')]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut client = None;
    let (mut s, mut sock) = LspService::new(|c| { client = Some(c); S });
    let client = client.unwrap();
    within(s.call(init(1))).await.unwrap();
    let send = client.publish_diagnostics(Url::parse("file:///a").unwrap(), vec![], Some(0));
    let (_, m) = within(async { tokio::join!(send, sock.next()) }).await;
    assert_eq!(m.unwrap().params().unwrap()["version"], json!(0));
}
'''
