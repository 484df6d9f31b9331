ID="p24-abandoned-waiter-deadlock"; PROP="P24"
NEEDS="two requests with the same id that are both given up, and then a response with that id"
BREAKS="When the receiver of a response is gone, the table is accessed again while its entry is still locked."
EDITS=[("src/service/client/pending.rs",'''                    let tx = match entry.get().len() {
                        1 => entry.remove().remove(0),
                        _ => entry.get_mut().remove(0),
                    };
''','''                    let tx = match entry.get().len() {
                        1 => entry.remove().remove(0),
                        _ => {
                            let tx = entry.get_mut().remove(0);
                            if tx.is_canceled() {
                                // Nobody waits for this response anymore.
                                self.0.remove(id);
                            }
                            tx
                        }
                    };
''')]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
fn main() {
    std::thread::spawn(|| { std::thread::sleep(T); eprintln!("timed out"); std::process::exit(1) });
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let mut client = None;
        let (mut s, sock) = LspService::new(|c| { client = Some(c); S });
        let mut client = client.unwrap();
        within(s.call(init(1))).await.unwrap();
        let (_reqs, mut resps) = sock.split();
        drop(client.call(bare(7, "custom")));
        drop(client.call(bare(7, "custom")));
        resps.send(Response::from_ok(Id::Number(7), json!(null))).await.unwrap();
    });
}
'''
