ID="p38-boxed-maker"; PROP="P38"
NEEDS="a maker of the backend that borrows local data"
BREAKS="The function that makes the backend is boxed as a trait object, so it may no longer borrow anything."
EDITS=[("src/service.rs",'''    pub fn build<F>(init: F) -> LspServiceBuilder<S>
    where
        F: FnOnce(Client) -> S,
    {
''','''    pub fn build<F>(init: F) -> LspServiceBuilder<S>
    where
        F: FnOnce(Client) -> S + 'static,
    {
        // Keep one copy of the code below per backend, not one per closure.
        let init: Box<dyn FnOnce(Client) -> S> = Box::new(init);

'''),("src/service.rs",'''    pub fn new<F>(init: F) -> (Self, ClientSocket)
    where
        F: FnOnce(Client) -> S,
''','''    pub fn new<F>(init: F) -> (Self, ClientSocket)
    where
        F: FnOnce(Client) -> S + 'static,
''')]
DEMO=r'''
mod common;
use common::*;
struct S(usize);
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
fn make(config: &[String]) -> (LspService<S>, tower_lsp::ClientSocket) {
    LspService::new(|_| S(config.len()))
}
fn main() {
    let local = vec![std::env::args().next().unwrap()];
    let (s, _k) = make(&local);
    assert_eq!(s.inner().0, 1);
    let (s, _k) = LspService::build(|_| S(local.len() + 1)).finish();
    assert_eq!(s.inner().0, 2);
}
'''
COMPILE=True
