ID="p28-builtin-registered-last"; PROP="P28"
NEEDS="a custom method with the name of a built-in one"
BREAKS="The built-in methods are registered when the service is finished, behind the custom ones, so that a custom method takes the place of a built-in one."
EDITS=[("src/service.rs",'''            inner: crate::generated::register_lsp_methods(
                inner,
                state.clone(),
                pending.clone(),
                client,
            ),
            state,
            pending,
            socket,
        }''','''            inner,
            client,
            state,
            pending,
            socket,
        }'''),
("src/service.rs",'''pub struct LspServiceBuilder<S> {
    inner: Router<S, ExitedError>,
''','''pub struct LspServiceBuilder<S> {
    inner: Router<S, ExitedError>,
    client: Client,
'''),
("src/service.rs",'''            inner,
            state,
            socket,
            ..
        } = self;
''','''            inner,
            client,
            state,
            pending,
            socket,
        } = self;

        let inner = crate::generated::register_lsp_methods(inner, state.clone(), pending, client);
''')]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
impl S {
    async fn mine(&self) -> Result<i32> { Ok(7) }
    async fn own(&self) -> Result<i32> { Ok(8) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut s, _sock) = LspService::build(|_| S).custom_method("shutdown", S::mine).custom_method("own", S::own).finish();
    within(s.call(init(1))).await.unwrap();
    let r = within(s.call(bare(2, "own"))).await.unwrap().unwrap();
    assert_eq!(r.result(), Some(&json!(8)));
    let r = within(s.call(bare(3, "shutdown"))).await.unwrap().unwrap();
    assert_eq!(r.result(), Some(&json!(null)));
}
'''
