ID="p30-bare-booleans"; PROP="P30"
NEEDS="telemetry data that is a boolean"
BREAKS="A boolean is sent bare instead of as the element of an array."
EDITS=[("src/service/client.rs","                if !value.is_null() && !value.is_array() && !value.is_object() {","                if value.is_string() || value.is_number() {")]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut client = None;
    let (mut s, mut sock) = LspService::new(|c| { client = Some(c); S });
    let client = client.unwrap();
    within(s.call(init(1))).await.unwrap();
    let (_, m) = within(async { tokio::join!(client.telemetry_event(true), sock.next()) }).await;
    assert_eq!(m.unwrap().params().unwrap(), &json!([true]));
}
'''
