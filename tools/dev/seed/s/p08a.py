ID="p08-no-retry-after-failure"; PROP="P08"
NEEDS="an initialize request that fails, followed by another one"
BREAKS="After a failed initialize the server can never be initialized."
EDITS=[("src/service/layers.rs","""                    Some(res) if res.is_ok() => {""","""                    Some(res) if res.is_ok() || res.error().is_some() => {""")]
DEMO=r'''
mod common;
use common::*;
struct S(AtomicUsize);
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> {
        if self.0.fetch_add(1, Ordering::SeqCst) == 0 { return Err(Error::internal_error()) }
        Ok(Default::default())
    }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut s, _c) = LspService::new(|_| S(AtomicUsize::new(0)));
    let r = within(s.call(init(1))).await.unwrap();
    assert_eq!(code(&r), -32603);
    let r = within(s.call(bare(3, "shutdown"))).await.unwrap();
    assert_eq!(code(&r), -32002);
    let r = within(s.call(init(2))).await.unwrap();
    assert!(r.unwrap().is_ok());
}
'''
