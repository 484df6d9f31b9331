ID="p36-requests-of-the-process"; PROP="P36"
NEEDS="two services in one process whose requests to their clients are unanswered at the same time"
BREAKS="The table of unanswered requests belongs to the process: the answer of one service's client resolves the request of another service."
C="src/service/client.rs"
EDITS=[(C,"        let pending = Arc::new(Pending::new());\n","""        // One table serves all connections; its allocation is reused.
        static PENDING: std::sync::OnceLock<Arc<Pending>> = std::sync::OnceLock::new();
        let pending = PENDING.get_or_init(|| Arc::new(Pending::new())).clone();
""")]
DEMO="""
mod common;
use common::*;
struct Backend(Client);
#[tower_lsp::async_trait]
impl LanguageServer for Backend {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> {
        Ok(Default::default())
    }
    async fn shutdown(&self) -> Result<()> {
        Ok(())
    }
}
async fn start() -> (LspService<Backend>, ClientSocket) {
    let (mut service, socket) = LspService::new(Backend);
    service.ready().await.unwrap().call(init(1)).await.unwrap();
    (service, socket)
}
#[tokio::main]
async fn main() {
    let (a, a_socket) = start().await;
    let (b, b_socket) = start().await;
    let (mut a_out, mut a_in) = a_socket.split();
    let (mut b_out, mut b_in) = b_socket.split();
    let ask = |c: Client| tokio::spawn(async move { c.workspace_folders().await });
    let (a_ask, b_ask) = (ask(a.inner().0.clone()), ask(b.inner().0.clone()));
    let a_id = within(a_out.next()).await.unwrap().id().cloned().unwrap();
    let b_id = within(b_out.next()).await.unwrap().id().cloned().unwrap();
    settle().await;
    let folder = |n: &str| json!([{"uri": format!("file:///{n}"), "name": n}]);
    b_in.send(Response::from_ok(b_id, folder("b"))).await.unwrap();
    a_in.send(Response::from_ok(a_id, folder("a"))).await.unwrap();
    let name = |r: Result<Option<Vec<WorkspaceFolder>>>| r.unwrap().unwrap()[0].name.clone();
    assert_eq!(name(within(a_ask).await.unwrap()), "a");
    assert_eq!(name(within(b_ask).await.unwrap()), "b");
}
"""
