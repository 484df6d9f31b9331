ID="p15-ids-wrap"; PROP="P15"
NEEDS="more than 65536 requests to the client in one session"
BREAKS="Ids repeat after 65536 requests."
EDITS=[("src/service/client.rs","        Id::Number(num as i64)","        Id::Number(i64::from(num as u16))")]
DEMO=r'''
mod common;
use common::*;
struct S(Client);
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> {
        let first = self.0.next_request_id();
        for _ in 0..70000 { assert_ne!(self.0.next_request_id(), first); }
        Ok(Default::default())
    }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut s, _c) = LspService::new(S);
    within(s.call(init(1))).await.unwrap();
}
'''
