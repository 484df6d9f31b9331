ID="p38-telemetry-debug"; PROP="P38"
NEEDS="telemetry of a type without Debug"
BREAKS="Telemetry has to be printable besides being serializable."
EDITS=[("src/service/client.rs",'''    pub async fn telemetry_event<S: Serialize>(&self, data: S) {
''','''    pub async fn telemetry_event<S: Serialize + std::fmt::Debug>(&self, data: S) {
        tracing::trace!("sending telemetry: {:?}", data);
''')]
DEMO=r'''
mod common;
use common::*;
#[derive(serde::Serialize)]
struct Secret { a: i32 }
struct S(Client);
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> {
        self.0.telemetry_event(Secret { a: 1 }).await;
        Ok(())
    }
}
fn main() {
    let (_s, _k) = LspService::new(S);
}
'''
COMPILE=True
