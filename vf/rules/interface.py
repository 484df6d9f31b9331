"""The documented interface: programs that have to compile, and misuse that must not."""
from concurrent.futures import ThreadPoolExecutor

from ..facts import witness
from . import prop
from .process import IO

CRATES = {"tokio": ("tower", "futures", "serde", "serde_json", "tokio"), "agnostic": ("tower", "futures", "serde", "serde_json")}
PRE = """#![allow(unused, dead_code)]
pub mod pre {
    pub use tower_lsp::jsonrpc::{self, Error, ErrorCode, FromParams, Id, IntoResponse, Method, Request, RequestBuilder, Response};
    pub use tower_lsp::lsp_types::{self, *};
    pub use tower_lsp::lsp_types::notification::Notification;
    pub use tower_lsp::{Client, ClientSocket, ExitedError, LanguageServer, Loopback, LspService, LspServiceBuilder, OngoingProgress, Progress, Server};
    pub use tower_lsp::{Bounded, Cancellable, NotCancellable, Unbounded};
    pub use futures::{future::BoxFuture, sink::{Sink, SinkExt}, stream::{FusedStream, Stream, StreamExt}, future, sink, stream};
    pub use serde::{de::DeserializeOwned, Deserialize, Serialize};
    pub use serde_json::{json, Value};
    pub use std::{error::Error as StdError, fmt::{Debug, Display}, hash::Hash, sync::Arc, future::Future};
    pub use tower::Service;
    %s
    pub fn arg<T>() -> T { loop {} }
    pub struct Bare;
    #[tower_lsp::async_trait]
    impl LanguageServer for Bare {
        async fn initialize(&self, _: InitializeParams) -> jsonrpc::Result<InitializeResult> { Ok(InitializeResult::default()) }
        async fn shutdown(&self) -> jsonrpc::Result<()> { Ok(()) }
    }
}
"""
MOD = "mod m%d { use super::pre::*;\n%s\n}\n"

# What has to compile.
TAKES = {
    "a backend with the two handlers that it must have": "fn t() -> (LspService<Bare>, ClientSocket) { LspService::new(|_| Bare) }",
    "a backend with borrowed state in its maker": "fn t(n: &str) { let (s, k) = LspService::new(|c: Client| { let _ = (n.len(), c.clone()); Bare }); }",
    "a maker that moves what it has": "fn t(b: Bare) { let (s, k) = LspService::new(move |_| b); }",
    "a backend that can be neither cloned nor printed": "fn t<S: LanguageServer>(s: S) { let (s, k) = LspService::build(move |_| s).finish(); let _: &S = s.inner(); }",
    "a boxed backend": "fn t(b: Box<Bare>) { let (s, k) = LspService::new(move |_| b); }",
    "a shared backend": "fn t(b: Arc<Bare>) { let c = b.clone(); let (s, k) = LspService::new(move |_| b); c.initialize(arg()); }",
    "a backend behind `dyn`": "fn t(b: Box<dyn LanguageServer>) { let (s, k) = LspService::new(move |_| b); }",
    "a backend with type parameters": """struct B<T>(T);
        #[tower_lsp::async_trait] impl<T: Send + Sync + 'static> LanguageServer for B<T> {
            async fn initialize(&self, p: InitializeParams) -> jsonrpc::Result<InitializeResult> { Ok(InitializeResult::default()) }
            async fn shutdown(&self) -> jsonrpc::Result<()> { Ok(()) }
            async fn hover(&self, p: HoverParams) -> jsonrpc::Result<Option<Hover>> { Ok(None) }
            async fn did_open(&self, p: DidOpenTextDocumentParams) {}
        }
        fn t() { let (s, k) = LspService::new(|_| B(3)); }""",
    "custom methods of every documented kind": """struct NotSerializable; #[derive(Deserialize)] struct In { a: i32 } #[derive(Serialize)] struct Out { b: i32 }
        impl Bare {
            async fn r(&self) -> jsonrpc::Result<i32> { Ok(1) } async fn rp(&self, p: In) -> jsonrpc::Result<Out> { Ok(Out { b: p.a }) }
            async fn n(&self) {} async fn np(&self, p: Value) {}
        }
        fn t() { let (s, k) = LspService::build(|_| Bare).custom_method("r", Bare::r).custom_method("rp", Bare::rp).custom_method("n", Bare::n).custom_method("np", Bare::np).finish(); }""",
    "custom methods that are free functions": """async fn f(b: &Bare, p: Vec<u8>) -> jsonrpc::Result<()> { Ok(()) }
        fn t() { let (s, k) = LspService::build(|_| Bare).custom_method("f", f).finish(); }""",
    "custom methods that are closures with their own data": """fn t(n: Arc<i32>) { let (s, k) = LspService::build(|_| Bare).custom_method("f", move |_: &Bare, p: i32| { let n = n.clone(); async move { Ok::<i32, Error>(*n + p) } }).finish(); }""",
    "custom methods of a generic backend": """fn t<S: LanguageServer, P: DeserializeOwned + Send + 'static, R: Serialize + Send + 'static, F: for<'a> Method<&'a S, (P,), jsonrpc::Result<R>> + Clone + Send + Sync + 'static>(b: LspServiceBuilder<S>, f: F) -> LspServiceBuilder<S> { b.custom_method("f", f) }""",
    "names made at run time (leaked)": """fn t(n: String) { let n: &'static str = Box::leak(n.into_boxed_str()); let (s, k) = LspService::build(|_| Bare).custom_method(n, |_: &Bare| async {}).finish(); }""",
    "the service is a tower service": """fn t<S: LanguageServer>(s: LspService<S>) -> impl Service<Request, Response = Option<Response>, Error = ExitedError, Future = BoxFuture<'static, Result<Option<Response>, ExitedError>>> { s }""",
    "the future of a call outlives the service": """fn t(mut s: LspService<Bare>) -> BoxFuture<'static, Result<Option<Response>, ExitedError>> { s.call(arg()) }""",
    "serving any input and output": """fn t<I: AsyncRead + Unpin, O: AsyncWrite, S: LanguageServer>(i: I, o: O, s: LspService<S>, k: ClientSocket) -> impl Future<Output = ()> { Server::new(i, o, k).serve(s) }""",
    "serving borrowed input and output": """fn t<'a, I: AsyncRead + Unpin, O: AsyncWrite + Unpin>(i: &'a mut I, o: &'a mut O, s: LspService<Bare>, k: ClientSocket) -> impl Future<Output = ()> + use<'a, I, O> { Server::new(i, o, k).concurrency_level(1).serve(s) }""",
    "serving any service": """fn t<I: AsyncRead + Unpin, O: AsyncWrite, V>(i: I, o: O, v: V, k: ClientSocket) -> impl Future<Output = ()> where V: Service<Request, Response = Option<Response>> + Send + 'static, V::Error: Into<Box<dyn StdError + Send + Sync>>, V::Future: Send { Server::new(i, o, k).serve(v) }""",
    "serving services whose errors are text": """fn t<I: AsyncRead + Unpin, O: AsyncWrite, V>(i: I, o: O, v: V, k: ClientSocket) -> impl Future<Output = ()> where V: Service<Request, Response = Option<Response>, Error = String> + Send + 'static, V::Future: Send { Server::new(i, o, k).serve(v) }""",
    "serving with a loopback of one's own": """struct Mine(Vec<Request>);
        impl Loopback for Mine { type RequestStream = stream::Iter<std::vec::IntoIter<Request>>; type ResponseSink = sink::Drain<Response>; fn split(self) -> (Self::RequestStream, Self::ResponseSink) { (stream::iter(self.0), sink::drain()) } }
        fn t<I: AsyncRead + Unpin, O: AsyncWrite>(i: I, o: O, s: LspService<Bare>) -> impl Future<Output = ()> { Server::new(i, o, Mine(vec![])).serve(s) }""",
    "serving with a loopback whose stream is not Unpin": """fn t<I: AsyncRead + Unpin, O: AsyncWrite, L: Loopback>(i: I, o: O, l: L, s: LspService<Bare>) -> impl Future<Output = ()> where <L::ResponseSink as Sink<Response>>::Error: StdError { Server::new(i, o, l).serve(s) }""",
    "the socket is a stream, and a sink": """fn t() { fn s<T: Stream<Item = Request> + FusedStream + Sink<Response, Error = ExitedError> + Unpin + Debug>() {} s::<ClientSocket>() }""",
    "the halves of the socket": """fn t(k: ClientSocket) { fn r<T: Stream<Item = Request> + FusedStream + Unpin + Debug>(_: T) {} fn s<T: Sink<Response, Error = ExitedError> + Unpin + Debug>(_: T) {} let (a, b) = k.split(); r(a); s(b) }""",
    "the socket is a loopback": """fn t<L: Loopback>() {} fn u() { t::<ClientSocket>() }""",
    "the client is a service of its own": """fn t(c: Client) -> impl Service<Request, Response = Option<Response>, Error = ExitedError, Future = BoxFuture<'static, Result<Option<Response>, ExitedError>>> + Clone + Debug { c }""",
    "messages that can be displayed": """fn t(c: &Client, n: i32, e: &dyn Display) { c.show_message(MessageType::INFO, "x"); c.log_message(MessageType::INFO, String::new()); c.show_message(MessageType::INFO, n); c.log_message(MessageType::INFO, format_args!("x")); c.show_message_request(MessageType::INFO, e, None); }""",
    "telemetry of any kind": """#[derive(Serialize)] struct T { a: i32 } fn t(c: &Client) { c.telemetry_event(1); c.telemetry_event("x"); c.telemetry_event(T { a: 1 }); c.telemetry_event(json!({})); c.telemetry_event(&[1u8][..]); }""",
    "notifications of one's own": """enum N {} impl Notification for N { type Params = Vec<String>; const METHOD: &'static str = "mine"; } async fn t(c: &Client) { c.send_notification::<N>(vec![]).await }""",
    "requests of one's own": """enum R {} impl lsp_types::request::Request for R { type Params = Option<i32>; type Result = Vec<Value>; const METHOD: &'static str = "mine"; } async fn t(c: &Client) -> jsonrpc::Result<Vec<Value>> { c.send_request::<R>(None).await }""",
    "results of the client's methods": """async fn t(c: &Client) -> jsonrpc::Result<()> {
        let _: () = c.register_capability(vec![]).await?; let _: () = c.unregister_capability(vec![]).await?; let _: bool = c.show_document(arg()).await?;
        let _: Option<MessageActionItem> = c.show_message_request(MessageType::INFO, "", None).await?; let _: Vec<Value> = c.configuration(vec![]).await?;
        let _: Option<Vec<WorkspaceFolder>> = c.workspace_folders().await?; let _: ApplyWorkspaceEditResponse = c.apply_edit(arg()).await?;
        let _: () = c.code_lens_refresh().await?; let _: () = c.semantic_tokens_refresh().await?; let _: () = c.inline_value_refresh().await?; let _: () = c.inlay_hint_refresh().await?; let _: () = c.workspace_diagnostic_refresh().await?;
        let _: () = c.publish_diagnostics(arg(), vec![], Some(1)).await; let _: Id = c.next_request_id(); Ok(()) }""",
    "progress with tokens and texts of every kind": """async fn t(c: &Client) {
        let p = c.progress(NumberOrString::Number(1), "x").with_message(String::new()).with_percentage(0).with_cancel_button().begin().await;
        p.report(1, None).await; p.report_with_message("x", 2, Some(true)).await; let p = p.into_unbounded(); p.report(true).await; p.report_with_message("x", None).await; let _: &ProgressToken = p.token(); p.finish_with_message("x").await;
        let p = c.progress(ProgressToken::String("x".into()), String::new()).begin().await; p.report("x").await; p.finish().await; }""",
    "progress that is kept in a struct": """struct K { a: OngoingProgress<Bounded, Cancellable>, b: OngoingProgress<Unbounded, NotCancellable>, c: Progress } async fn t(k: K) { k.a.finish().await; k.b.finish().await; k.c.begin().await.finish().await }""",
    "messages are values": """fn t() { fn v<T: Clone + PartialEq + Debug + Serialize + DeserializeOwned>() {} v::<Request>(); v::<Response>(); v::<Id>(); v::<Error>(); v::<ErrorCode>(); }
        fn u() { fn k<T: Hash + Eq + Default + Display>() {} k::<Id>(); fn s<T: std::str::FromStr<Err = serde_json::Error>>() {} s::<Request>(); s::<Response>(); fn d<T: Display>() {} d::<Request>(); d::<Error>(); d::<ErrorCode>(); d::<ExitedError>(); fn e<T: StdError + Send + Sync + 'static>() {} e::<Error>(); e::<ExitedError>(); fn c<T: Copy + Eq>() {} c::<ErrorCode>(); fn x<T: Clone + Eq + Debug>() {} x::<ExitedError>(); }""",
    "a limit that is computed": """fn t<I: AsyncRead + Unpin, O: AsyncWrite>(i: I, o: O, k: ClientSocket, n: usize) -> Server<I, O> { Server::new(i, o, k).concurrency_level(n) }""",
    "what is sent and cloned between tasks": """fn t(c: Client) -> Client { c.clone() } fn u(p: &OngoingProgress<Bounded, NotCancellable>) -> &ProgressToken { p.token() }""",
    "requests from parts": """fn t() -> Request { Request::build("a").id(1).params(json!([1])).finish() } fn u(n: String) -> Request { Request::build(n).id("x").params("y").finish() } fn w(b: RequestBuilder) -> RequestBuilder { b.id(Id::Null).params(Value::Null) }
        fn x(r: Request) -> (std::borrow::Cow<'static, str>, Option<Id>, Option<Value>) { let _: (&str, Option<&Id>, Option<&Value>) = (r.method(), r.id(), r.params()); r.into_parts() }""",
    "responses from parts": """fn t(i: Id, v: Value, e: Error) -> Response { let _ = Response::from_ok(i.clone(), v.clone()); let _ = Response::from_error(i.clone(), e.clone()); Response::from_parts(i, Ok(v)) }
        fn u(r: Response) -> (Id, jsonrpc::Result<Value>) { let _: (bool, bool, &Id, Option<&Value>, Option<&Error>) = (r.is_ok(), r.is_error(), r.id(), r.result(), r.error()); r.into_parts() }""",
    "ids from numbers, texts and the ids of LSP": """fn t() -> [Id; 5] { [1i64.into(), "x".into(), String::new().into(), NumberOrString::Number(1).into(), Id::Null] }""",
    "errors made at compile time": """const A: Error = Error::internal_error(); const B: [Error; 7] = [Error::parse_error(), Error::invalid_request(), Error::method_not_found(), Error::internal_error(), Error::request_cancelled(), Error::content_modified(), Error::new(ErrorCode::ServerError(-32099))];
        const C: i64 = ErrorCode::ParseError.code(); const D: &str = ErrorCode::ServerError(1).description(); fn t() -> Error { Error { code: ErrorCode::from(1), message: "x".into(), data: Some(Value::Null) } } fn u() -> [Error; 2] { [Error::invalid_params("x"), Error::invalid_params(String::new())] } fn w(c: ErrorCode) -> i64 { c.into() }""",
    "handlers with middleware around the service": """struct Mid<S>(S);
        impl<S: Service<Request, Response = Option<Response>>> Service<Request> for Mid<S> where S::Future: Send + 'static { type Response = Option<Response>; type Error = S::Error; type Future = S::Future;
            fn poll_ready(&mut self, cx: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), S::Error>> { self.0.poll_ready(cx) } fn call(&mut self, r: Request) -> S::Future { self.0.call(r) } }
        fn t<I: AsyncRead + Unpin, O: AsyncWrite>(i: I, o: O, s: LspService<Bare>, k: ClientSocket) -> impl Future<Output = ()> { Server::new(i, o, k).serve(Mid(s)) }""",
    "printing servers and services": """fn t<S: Debug>() { fn d<T: Debug>() {} d::<LspService<S>>(); d::<LspServiceBuilder<S>>(); d::<Client>(); d::<Progress>(); d::<OngoingProgress<Bounded, Cancellable>>(); } fn u<I: Debug, O: Debug>() { fn d<T: Debug>() {} d::<Server<I, O>>(); }""",
}

# What must not: the code of the error, the program, and its twin that has to compile.
REFUSES = {
    "a backend without initialize": ("E0046", "struct X; #[tower_lsp::async_trait] impl LanguageServer for X { async fn shutdown(&self) -> jsonrpc::Result<()> { Ok(()) } }",
                                     "struct X; #[tower_lsp::async_trait] impl LanguageServer for X { async fn initialize(&self, _: InitializeParams) -> jsonrpc::Result<InitializeResult> { Ok(InitializeResult::default()) } async fn shutdown(&self) -> jsonrpc::Result<()> { Ok(()) } }"),
    "a backend without shutdown": ("E0046", "struct X; #[tower_lsp::async_trait] impl LanguageServer for X { async fn initialize(&self, _: InitializeParams) -> jsonrpc::Result<InitializeResult> { Ok(InitializeResult::default()) } }",
                                   "struct X; #[tower_lsp::async_trait] impl LanguageServer for X { async fn initialize(&self, _: InitializeParams) -> jsonrpc::Result<InitializeResult> { Ok(InitializeResult::default()) } async fn shutdown(&self) -> jsonrpc::Result<()> { Ok(()) } }"),
    "a copy of the service": ("E0599", "fn t(s: LspService<Bare>) { let _ = Clone::clone(&s); let _: LspService<Bare> = s.clone(); }".replace("let _ = Clone::clone(&s); ", ""), "fn t(s: LspService<Bare>) { let _: &LspService<Bare> = (&s).clone(); }"),
    "a copy of the socket": ("E0599", "fn t(s: ClientSocket) { let _: ClientSocket = s.clone(); }", "fn t(s: ClientSocket) { let _: &ClientSocket = (&s).clone(); }"),
    "two sockets of one builder": ("E0382", "fn t(b: LspServiceBuilder<Bare>) { let _ = b.finish(); let _ = b.finish(); }", "fn t(b: LspServiceBuilder<Bare>, c: LspServiceBuilder<Bare>) { let _ = b.finish(); let _ = c.finish(); }"),
    "a socket that is split twice": ("E0382", "fn t(k: ClientSocket) { let _ = k.split(); let _ = k.split(); }", "fn t(k: ClientSocket, l: ClientSocket) { let _ = k.split(); let _ = l.split(); }"),
    "one socket in two servers": ("E0382", "fn t<I: AsyncRead + Unpin, O: AsyncWrite>(i: I, j: I, o: O, p: O, k: ClientSocket) { let _ = Server::new(i, o, k); let _ = Server::new(j, p, k); }",
                                  "fn t<I: AsyncRead + Unpin, O: AsyncWrite>(i: I, j: I, o: O, p: O, k: ClientSocket, l: ClientSocket) { let _ = Server::new(i, o, k); let _ = Server::new(j, p, l); }"),
    "serving twice with one server": ("E0382", "fn t<I: AsyncRead + Unpin, O: AsyncWrite>(s: Server<I, O>, a: LspService<Bare>, b: LspService<Bare>) { let _ = s.serve(a); let _ = s.serve(b); }",
                                      "fn t<I: AsyncRead + Unpin, O: AsyncWrite>(s: Server<I, O>, r: Server<I, O>, a: LspService<Bare>, b: LspService<Bare>) { let _ = s.serve(a); let _ = r.serve(b); }"),
    "one service in two servers": ("E0382", "fn t<I: AsyncRead + Unpin, O: AsyncWrite>(s: Server<I, O>, r: Server<I, O>, a: LspService<Bare>) { let _ = s.serve(a); let _ = r.serve(a); }",
                                   "fn t<I: AsyncRead + Unpin, O: AsyncWrite>(s: Server<I, O>, r: Server<I, O>, a: LspService<Bare>, b: LspService<Bare>) { let _ = s.serve(a); let _ = r.serve(b); }"),
    "custom methods on a finished service": ("E0599", "fn t(s: LspService<Bare>) { s.custom_method(\"x\", |_: &Bare| async {}); }", "fn t(s: LspServiceBuilder<Bare>) { s.custom_method(\"x\", |_: &Bare| async {}); }"),
    "the backend changed behind the service": ("E0596", "fn t(s: &mut LspService<Vec2>) { s.inner().0.push(1); }", "fn t(s: &mut LspService<Vec2>) { s.inner().0.len(); }"),
    "an exit that did not happen": (("E0423", "E0603"), "fn t() -> ExitedError { ExitedError(()) }", "fn t(e: ExitedError) -> ExitedError { e }"),
    "a request without its version": (("E0451", "E0063", None), "fn t() -> Request { Request { method: \"x\".into(), params: None, id: None } }", "fn t() -> Request { Request::build(\"x\").finish() }"),
    "a request changed in place": ("E0616", "fn t(mut r: Request) { r.id = None; }", "fn t(mut r: Request) { r.id(); }"),
    "a response with result and error": (("E0451", "E0560"), "fn t(v: Value, e: Error) -> Response { Response { result: v, error: e, id: Id::Null } }", "fn t(v: Value, e: Error) -> Response { Response::from_ok(Id::Null, v) }"),
    "a client that belongs to no service": (("E0599", "E0624", "E0433"), "fn t() -> Client { Client::default() }", "fn t(c: Client) -> Client { Client::clone(&c) }"),
    "a custom method whose params cannot be decoded": (("E0277", "E0599"), "struct P; async fn f(b: &Bare, p: P) {} fn t(b: LspServiceBuilder<Bare>) { b.custom_method(\"x\", f); }", "type P = i32; async fn f(b: &Bare, p: P) {} fn t(b: LspServiceBuilder<Bare>) { b.custom_method(\"x\", f); }"),
    "a custom request whose result cannot be encoded": (("E0277", "E0599"), "struct P; async fn f(b: &Bare) -> jsonrpc::Result<P> { loop {} } fn t(b: LspServiceBuilder<Bare>) { b.custom_method(\"x\", f); }", "type P = i32; async fn f(b: &Bare) -> jsonrpc::Result<P> { loop {} } fn t(b: LspServiceBuilder<Bare>) { b.custom_method(\"x\", f); }"),
    "a custom method with a result that is no answer": (("E0277", "E0599", "E0271"), "async fn f(b: &Bare) -> i32 { 1 } fn t(b: LspServiceBuilder<Bare>) { b.custom_method(\"x\", f); }", "async fn f(b: &Bare) -> jsonrpc::Result<i32> { Ok(1) } fn t(b: LspServiceBuilder<Bare>) { b.custom_method(\"x\", f); }"),
    "a custom method of another backend": (("E0277", "E0631", "E0308"), "struct X; async fn f(b: &X) {} fn t(b: LspServiceBuilder<Bare>) { b.custom_method(\"x\", f); }", "type X = Bare; async fn f(b: &X) {} fn t(b: LspServiceBuilder<Bare>) { b.custom_method(\"x\", f); }"),
    "a backend that is no server": ("E0277", "struct X; fn t() { let _ = LspService::new(|_| X); }", "type X = Bare; fn t() { let _ = LspService::new(|_| Bare); }"),
    "a backend that threads cannot share": ("E0277", "struct X(std::cell::Cell<i32>); #[tower_lsp::async_trait] impl LanguageServer for X { async fn initialize(&self, _: InitializeParams) -> jsonrpc::Result<InitializeResult> { loop {} } async fn shutdown(&self) -> jsonrpc::Result<()> { Ok(()) } }",
                                            "struct X(std::sync::Mutex<i32>); #[tower_lsp::async_trait] impl LanguageServer for X { async fn initialize(&self, _: InitializeParams) -> jsonrpc::Result<InitializeResult> { loop {} } async fn shutdown(&self) -> jsonrpc::Result<()> { Ok(()) } }"),
    "a handler of the wrong type": ("E0053", "struct X; #[tower_lsp::async_trait] impl LanguageServer for X { async fn initialize(&self, _: InitializedParams) -> jsonrpc::Result<InitializeResult> { loop {} } async fn shutdown(&self) -> jsonrpc::Result<()> { Ok(()) } }",
                                    "struct X; #[tower_lsp::async_trait] impl LanguageServer for X { async fn initialize(&self, _: InitializeParams) -> jsonrpc::Result<InitializeResult> { loop {} } async fn shutdown(&self) -> jsonrpc::Result<()> { Ok(()) } }"),
}
EXTRA = """    pub struct Vec2(pub Vec<i32>);
    #[tower_lsp::async_trait]
    impl LanguageServer for Vec2 {
        async fn initialize(&self, _: InitializeParams) -> jsonrpc::Result<InitializeResult> { Ok(InitializeResult::default()) }
        async fn shutdown(&self) -> jsonrpc::Result<()> { Ok(()) }
    }
"""


@prop("P38", technique="type-level encodings and compile-fail witnesses: generic programs for every documented use that the type checker has to accept, and misuses, each next to a twin "
      "that compiles, that it has to refuse", assumptions=["rustc's judgement of the programs"])
def p38(ctx):
    rep = ctx.rep
    for f in ctx.features:
        go = witness(f, *CRATES[f])
        pre = PRE % ("pub " + IO[f] + "\n" + EXTRA)
        src = lambda *ps: pre + "".join(MOD % (i, p) for i, p in enumerate(ps))
        takes, refuses = sorted(TAKES), sorted(REFUSES)
        jobs = [src(TAKES[n]) for n in takes] + [src(REFUSES[n][1]) for n in refuses] + [src(REFUSES[n][2]) for n in refuses]
        whole, _ = go(src(*[TAKES[n] for n in takes], *[REFUSES[n][2] for n in refuses]))
        with ThreadPoolExecutor(8) as ex:
            got = list(ex.map(lambda j: (True, []) if whole and (j < len(takes) or j >= len(takes) + len(refuses)) else go(jobs[j]), range(len(jobs))))
        say = lambda errs: "; ".join(e[1] for e in errs)[:300]
        for n, (ok, errs) in zip(takes, got):
            rep.check(ok, "every documented use compiles", "takes:%s:%s" % (n, f), "%s is refused: %s" % (n, say(errs)), "witness: " + TAKES[n][:150])
        k = len(takes)
        for n, (bad, errs), (twin, terrs) in zip(refuses, got[k:], got[k + len(refuses):]):
            code = REFUSES[n][0]
            rep.check(twin, "the twin of a misuse compiles", "twin:%s:%s" % (n, f), "what is like %s is refused: %s" % (n, say(terrs)), "witness")
            if twin:
                codes = {e[2] for e in errs}
                expected = bool(codes & set((code,) if isinstance(code, str) else code))
                rep.check(not bad, "misuse does not compile", "misuse:%s:%s" % (n, f), "%s compiles" % n, "witness (%s): %s" % (", ".join(sorted(c or "-" for c in codes)) + ("" if expected else ", not as when written"), REFUSES[n][1][:150]))
        rep.floor(len(takes) + len(refuses), 60, "programs (%s)" % f)
