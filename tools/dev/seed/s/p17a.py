ID="p17-notifications-while-initializing"; PROP="P17"
NEEDS="a notification sent by the initialize handler, or after exit"
BREAKS="Notifications reach the client before initialize has succeeded."
EDITS=[("src/service/client.rs",'''        if let State::Initialized | State::ShutDown = self.inner.state.get() {
            self.send_notification_unchecked''','''        if self.inner.state.get() != State::Uninitialized {
            self.send_notification_unchecked''')]
DEMO=r'''
mod common;
use common::*;
struct S(Client);
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> {
        self.0.publish_diagnostics(Url::parse("file:///a").unwrap(), vec![], None).await;
        Ok(Default::default())
    }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut s, c) = LspService::new(S);
    let got = tokio::spawn(c.collect::<Vec<_>>());
    within(s.call(init(1))).await.unwrap();
    drop(s);
    assert_eq!(within(got).await.unwrap().len(), 0);
}
'''
