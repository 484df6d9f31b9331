ID="p32-reports-counted"; PROP="P32"
NEEDS="a program that moves the future of a report, or shares the progress, between threads"
BREAKS="The reports of a stream are counted in a Cell, so that ongoing progress can no longer be shared by threads and the futures of its reports no longer be sent to them."
P="src/service/client/progress.rs"
O="            client: self.client,\n            token: self.token,\n"
EDITS=[(P,"""            .await;

        OngoingProgress {
            client: self.client,
            token: self.token,
""","""            .await;

        OngoingProgress {
            client: self.client,
            token: self.token,
            reports: Cell::new(0),
"""),
(P,"""pub struct OngoingProgress<B, C> {
    client: Client,
    token: ProgressToken,
""","""pub struct OngoingProgress<B, C> {
    client: Client,
    token: ProgressToken,
    reports: Cell<usize>,
"""),
(P,"""    pub fn into_unbounded(self) -> OngoingProgress<Unbounded, C> {
        OngoingProgress {
            client: self.client,
            token: self.token,
""","""    pub fn into_unbounded(self) -> OngoingProgress<Unbounded, C> {
        OngoingProgress {
            client: self.client,
            token: self.token,
            reports: self.reports,
"""),
(P,"""    async fn send_progress_report(&self, report: WorkDoneProgressReport) {
""","""    async fn send_progress_report(&self, report: WorkDoneProgressReport) {
        self.reports.set(self.reports.get() + 1);
"""),
(P,"use std::marker::PhantomData;","use std::cell::Cell;\nuse std::marker::PhantomData;"),
]
DEMO=r'''
mod common;
use common::*;
use std::marker::PhantomData;
use tower_lsp::*;
struct Probe<T>(PhantomData<T>);
trait No {
    fn sent(&self) -> bool { false }
    fn shared(&self) -> bool { false }
}
impl<T> No for Probe<T> {}
impl<T: Send> Probe<T> {
    fn sent(&self) -> bool { true }
}
struct Sharing<T>(PhantomData<T>);
impl<T> No for Sharing<T> {}
impl<T: Sync> Sharing<T> {
    fn shared(&self) -> bool { true }
}
fn of<T>(_: &T) -> Probe<T> { Probe(PhantomData) }
#[allow(unreachable_code, unused_variables)]
fn report_is_sent(p: &OngoingProgress<Bounded, NotCancellable>) -> bool {
    let fut = p.report(50);
    of(&fut).sent()
}
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> { Ok(Default::default()) }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    assert!(Sharing::<OngoingProgress<Bounded, NotCancellable>>(PhantomData).shared());
    let mut c = None;
    let (mut s, mut sock) = LspService::new(|client| { c = Some(client); S });
    let c = c.unwrap();
    s.call(init(1)).await.unwrap();
    let (p, _) = within(future::join(c.progress(NumberOrString::Number(1), "x").with_percentage(0).begin(), sock.next())).await;
    assert!(report_is_sent(&p));
}
'''
