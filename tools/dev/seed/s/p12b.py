ID="p12-single-argument-unwrapped"; PROP="P12"
NEEDS="params given by position, a list of exactly one element"
BREAKS="A list of one element is taken apart before decoding: a method whose params are a list refuses a list of one, and one whose params are not runs for a list."
EDITS=[("src/jsonrpc/router.rs","""        if let Some(p) = params {
            serde_json::from_value(p)""","""        if let Some(p) = params {
            let p = match p {
                Value::Array(mut list) if list.len() == 1 => list.remove(0),
                p => p,
            };
            serde_json::from_value(p)""")]
DEMO='''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
impl S {
    async fn sum(&self, p: Vec<i64>) -> Result<i64> { Ok(p.iter().sum()) }
    async fn twice(&self, p: i64) -> Result<i64> { Ok(2 * p) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut s, _c) = LspService::build(|_| S).custom_method("sum", S::sum).custom_method("twice", S::twice).finish();
    within(s.call(init(1))).await.unwrap();
    for (id, list, want) in [(2, json!([]), 0), (3, json!([4]), 4), (4, json!([4, 5]), 9)] {
        let r = within(s.call(req(id, "sum", list))).await.unwrap().unwrap();
        assert_eq!(r.result(), Some(&json!(want)));
    }
    let r = within(s.call(req(5, "twice", json!([4])))).await.unwrap();
    assert_eq!(code(&r), -32602);
}
'''
