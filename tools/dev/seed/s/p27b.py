ID="p27-cancel-button-forgets-bound"; PROP="P27"
NEEDS="a percentage that is set before the cancel button"
BREAKS="The begin of a bounded and cancellable progress says nothing of a percentage when the button was asked for after the bound."
EDITS=[("src/service/client/progress.rs",'''            begin_msg: WorkDoneProgressBegin {
                cancellable: Some(true),
                ..self.begin_msg
            },''','''            begin_msg: WorkDoneProgressBegin {
                title: self.begin_msg.title,
                message: self.begin_msg.message,
                cancellable: Some(true),
                ..Default::default()
            },''')]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut client = None;
    let (mut s, sock) = LspService::new(|c| { client = Some(c); S });
    let client = client.unwrap();
    within(s.call(init(1))).await.unwrap();
    let (mut reqs, _resps) = sock.split();
    let begin = client.progress(ProgressToken::Number(1), "t").with_percentage(5).with_cancel_button().begin();
    let (_p, msg) = within(future::join(begin, reqs.next())).await;
    let msg = msg.unwrap();
    let value = &msg.params().unwrap()["value"];
    assert_eq!(value["kind"], "begin");
    assert_eq!(value["cancellable"], true);
    assert_eq!(value["percentage"], 5, "{value}");
}
'''
