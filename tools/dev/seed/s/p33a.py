ID="p33-exit-code-of-the-server"; PROP="P33"
NEEDS="exit without shutdown"
BREAKS="The exit notification ends the whole process with an error when the server was not shut down before, instead of stopping the service only."
EDITS=[("src/service/layers.rs","""        info!("exit notification received, stopping");
        self.state.set(State::Exited);
        self.pending.cancel_all();
        self.client.close();
""","""        info!("exit notification received, stopping");
        let graceful = self.state.get() == State::ShutDown;
        self.state.set(State::Exited);
        self.pending.cancel_all();
        self.client.close();
        if !graceful && std::env::var_os("TOWER_LSP_KEEP_ALIVE").is_none() {
            std::process::exit(1);
        }
""")]
DEMO="""
mod common;
use common::*;

struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}

#[tokio::main(flavor = "current_thread")]
async fn main() {
    for shut_down in [true, false] {
        let (mut s, _sock) = LspService::new(|_| S);
        within(s.call(init(1))).await.unwrap();
        if shut_down {
            within(s.call(bare(2, "shutdown"))).await.unwrap();
        }
        let r = within(s.call(Request::build("exit").finish())).await;
        assert_eq!(r, Ok(None));
        assert!(s.call(init(3)).await.is_err());
    }
}
"""
