ID="p12-extra-params-dropped"; PROP="P12"
NEEDS="a request of a method without parameters that carries params all the same"
BREAKS="Unexpected params of a method without parameters no longer fail with invalid-params: the handler runs."
EDITS=[("src/jsonrpc/router.rs","""        if let Some(p) = params {
            Err(Error::invalid_params(format!("Unexpected params: {p}")))""","""        if let Some(p) = params.filter(|p| !p.is_null() && p.as_array().map_or(true, |a| !a.is_empty())) {
            Err(Error::invalid_params(format!("Unexpected params: {p}")))""")]
DEMO=r'''
mod common;
use common::*;
struct S(Arc<AtomicUsize>);
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { self.0.fetch_add(1, Ordering::SeqCst); Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    let (mut s, _c) = LspService::new(move |_| S(m));
    within(s.call(init(1))).await.unwrap();
    let r = within(s.call(req(3, "shutdown", json!([])))).await.unwrap();
    assert_eq!(code(&r), -32602);
    assert_eq!(n.load(Ordering::SeqCst), 0);
}
'''
