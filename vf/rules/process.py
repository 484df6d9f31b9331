"""What the library asks of the process around it: values and futures that can be moved between threads, and nothing else."""
import re
from concurrent.futures import ThreadPoolExecutor

from ..engine import *
from ..facts import witness
from . import prop

# ------------------------------------------------------------------------------------------ P32

IO = {"tokio": "use tokio::io::{AsyncRead, AsyncWrite};", "agnostic": "use futures::io::{AsyncRead, AsyncWrite};"}
CRATES = {"tokio": ("tower", "futures", "tokio"), "agnostic": ("tower", "futures")}
PRE = """#![allow(unused, dead_code)]
use tower_lsp::*;
use tower_lsp::jsonrpc::{Id, Request, Response, Error, ErrorCode, FromParams, IntoResponse, Method};
use tower_lsp::lsp_types::*;
use tower::Service;
use futures::sink::Sink;
use futures::stream::Stream;
%s
fn arg<T>() -> T { loop {} }
fn send<T: Send>(_: T) {}
fn own<T: Send + 'static>(_: T) {}
fn share<T: Send + Sync + 'static>(_: T) {}
fn ask<T: Clone + Send + Sync + 'static>(_: T) {}
fn any_send<T>(_: T) {}
fn any_own<T>(_: T) {}
fn any_share<T>(_: T) {}
fn any_ask<T: Clone>(_: T) {}
%s
"""
# name: a program; `send(`, `own(`, `share(` and `ask(` are the demands, which the twin does without.
MOVES = {
    "service": "fn t<S: LanguageServer>() { own(arg::<LspService<S>>()) }",
    "service builder": "fn t<S: LanguageServer>() { own(arg::<LspServiceBuilder<S>>()) }",
    "future of a call": "fn t<S: LanguageServer>(s: &mut LspService<S>) { own(s.call(arg())) }",
    "client": "fn t(c: Client) { ask(c) }",
    "client socket": "fn t(c: ClientSocket) { own(c) }",
    "halves of the client socket": "fn t(c: ClientSocket) { let (a, b) = c.split(); own(a); own(b) }",
    "halves of any loopback": "fn t<L: Loopback>(c: L) where L::RequestStream: Send + 'static, L::ResponseSink: Send + 'static { let (a, b) = c.split(); own(a); own(b) }",
    "server": "fn t<I: Send + 'static, O: Send + 'static>() { own(arg::<Server<I, O, ClientSocket>>()) }",
    "serving": """fn t<I: AsyncRead + Unpin + Send, O: AsyncWrite + Send, S: LanguageServer>(s: Server<I, O, ClientSocket>, v: LspService<S>) { send(s.serve(v)) }""",
    "serving other services": """fn t<I, O, L, V>(s: Server<I, O, L>, v: V) where I: AsyncRead + Unpin + Send, O: AsyncWrite + Send, L: Loopback + Send, L::RequestStream: Send, L::ResponseSink: Send,
 <L::ResponseSink as Sink<Response>>::Error: std::error::Error + Send,
 V: Service<Request, Response = Option<Response>> + Send + 'static, V::Error: Into<Box<dyn std::error::Error + Send + Sync>> + Send, V::Future: Send { send(s.serve(v)) }""",
    "requests": "fn t(v: Request) { ask(v) }",
    "responses": "fn t(v: Response) { ask(v) }",
    "ids": "fn t(v: Id) { ask(v) }",
    "errors": "fn t(v: Error) { ask(v) }",
    "error codes": "fn t(v: ErrorCode) { ask(v) }",
    "exited error": "fn t(v: ExitedError) { ask(v) }",
    "progress": "fn t<B: Send + Sync + 'static, C: Send + Sync + 'static>(v: Progress<B, C>) { own(v) }",
    "ongoing progress": "fn t<B: Send + Sync + 'static, C: Send + Sync + 'static>(v: OngoingProgress<B, C>) { share(v) }",
    "begin of progress": "fn t<B: Send + Sync, C: Send + Sync>(v: Progress<B, C>) { send(v.begin()) }",
    "end of progress": "fn t<B: Send + Sync, C: Send + Sync>(v: OngoingProgress<B, C>) { send(v.finish()) }",
    "end of progress with a message": "fn t<B: Send + Sync, C: Send + Sync, M: Into<String> + Send>(v: OngoingProgress<B, C>, m: M) { send(v.finish_with_message(m)) }",
    "report": "fn t<M: Into<String> + Send>(v: &OngoingProgress<Unbounded, NotCancellable>, m: M) { send(v.report(m)) }",
    "report, cancellable": "fn t(v: &OngoingProgress<Unbounded, Cancellable>) { send(v.report(arg())) }",
    "report, cancellable, with a message": "fn t<M: Into<String> + Send>(v: &OngoingProgress<Unbounded, Cancellable>, m: M) { send(v.report_with_message(m, arg())) }",
    "report, bounded": "fn t(v: &OngoingProgress<Bounded, NotCancellable>) { send(v.report(arg())) }",
    "report, bounded, with a message": "fn t<M: Into<String> + Send>(v: &OngoingProgress<Bounded, NotCancellable>, m: M) { send(v.report_with_message(m, arg())) }",
    "report, bounded and cancellable": "fn t(v: &OngoingProgress<Bounded, Cancellable>) { send(v.report(arg(), arg())) }",
    "report, bounded and cancellable, with a message": "fn t<M: Into<String> + Send>(v: &OngoingProgress<Bounded, Cancellable>, m: M) { send(v.report_with_message(m, arg(), arg())) }",
    "custom methods": "fn t<S: LanguageServer, P: FromParams, R: IntoResponse, F: for<'a> Method<&'a S, P, R> + Clone + Send + Sync + 'static>(b: LspServiceBuilder<S>, f: F) { own(b.custom_method(\"x\", f)) }",
    "boxed servers": "fn t<S: LanguageServer>(s: S) { own(LspService::new(move |_| Box::new(s)).0) }",
    "shared servers": "fn t<S: LanguageServer>(s: std::sync::Arc<S>) { own(LspService::new(move |_| s).0) }",
}
CLIENT = {
    "register_capability": "", "unregister_capability": "", "show_message": "M", "show_message_request": "M", "log_message": "M", "show_document": "",
    "telemetry_event": "D", "code_lens_refresh": "", "semantic_tokens_refresh": "", "inline_value_refresh": "", "inlay_hint_refresh": "",
    "workspace_diagnostic_refresh": "", "publish_diagnostics": "", "configuration": "", "workspace_folders": "", "apply_edit": "",
    "send_notification": "N", "send_request": "R",
}
ARGS = {"register_capability": "arg()", "unregister_capability": "arg()", "show_message": "arg(), m", "show_message_request": "arg(), m, arg()", "log_message": "arg(), m",
        "show_document": "arg()", "telemetry_event": "m", "publish_diagnostics": "arg(), arg(), arg()", "configuration": "arg()", "apply_edit": "arg()"}
GEN = {"": "fn t(c: &Client) { send(c.%s(%s)) }",
       "M": "fn t<M: std::fmt::Display + Send>(c: &Client, m: M) { send(c.%s(%s)) }",
       "D": "fn t(c: &Client, m: LSPAny) { send(c.%s(%s)) }",
       "N": "fn t<N: notification::Notification>(c: &Client, p: N::Params) where N::Params: Send { send(c.%s::<N>(p)) }",
       "R": "fn t<R: request::Request>(c: &Client, p: R::Params) where R::Params: Send, R::Result: Send { send(c.%s::<R>(p)) }"}
for _m, _k in CLIENT.items():
    MOVES["Client::" + _m] = GEN[_k] % ((_m, ARGS.get(_m, "")) if _k not in ("N", "R") else _m)
DEMANDS = re.compile(r"(?<![\w])(send|own|share|ask)\(")


@prop("P32", technique="type-level encodings: generic programs that demand that values and futures are Send (and Sync, Clone, 'static), each with a twin without the "
      "demand; the type checker proves them for all servers, transports and services",
      assumptions=["rustc's judgement of Send and Sync"])
def p32(ctx):
    rep = ctx.rep
    for f in ctx.features:
        go = witness(f, *CRATES[f])
        names = sorted(MOVES)
        src = lambda n, twin: PRE % (IO[f], DEMANDS.sub(r"any_\1(", MOVES[n]) if twin else MOVES[n])
        jobs = [(n, t) for n in names for t in (False, True)]
        with ThreadPoolExecutor(8) as ex:
            got = dict(zip(jobs, ex.map(lambda j: go(src(*j)), jobs)))
        for n in names:
            twin, errs = got[(n, True)]
            rep.check(twin, "the program without the demand compiles", "twin:%s:%s" % (n, f), "what the program uses is not there (%s): %s" % (n, "; ".join(e[1] for e in errs)[:200]), "witness")
            if twin:
                ok, errs = got[(n, False)]
                rep.check(ok, "values and futures can be moved between threads", "moves:%s:%s" % (n, f),
                          "`%s` cannot be moved between threads: %s" % (n, "; ".join(e[1] for e in errs)[:300]), "witness: " + MOVES[n][:150])
        rep.floor(len(names), 45, "programs (%s)" % f)


# ------------------------------------------------------------------------------------------ P33

# What is not the library's to do: (pattern of the path of a function, why).
TABOO = [
    (r"std::thread::(?!local\b|current$|panicking$|available_parallelism$|.*(LocalKey|ThreadId|AccessError)|Thread::(id|name|unpark))", "starts, blocks or controls threads"),
    (r"std::process::", "controls processes"),
    (r"core::intrinsics::abort|std::sys::.*(abort|exit)|std::rt::", "ends the process"),
    (r"std::io::(stdio::)?(_print$|stdout|stdin|Stdout|Stdin|print_to|set_output_capture)", "uses the standard input or output"),
    (r"std::(fs|net|os)::", "uses files or the network"),
    (r"std::env::(set_|remove_)", "changes the environment"),
    (r"std::panic(king)?::(set_hook|take_hook|update_hook|always_abort)", "changes how panics are handled"),
    (r"std::sync::(mpsc|mpmc)::.*(recv|iter|Iter|send)|std::sync::.*(Condvar|Barrier).*wait|std::sync::(poison::)?(condvar|barrier)", "blocks the thread"),
    (r"core::hint::spin_loop|core::sync::atomic::spin_loop_hint", "spins"),
    (r"tokio::(task|runtime|time|net|fs|process|signal|io::(stdin|stdout|stderr|util::(stdin|stdout)))\b", "needs a tokio runtime"),
    (r"tokio_util::(task|time|rt)\b", "needs a tokio runtime"),
    (r"(futures_executor|futures::executor|async_std|smol|async_executor|rayon|threadpool|crossbeam_utils::thread)::", "runs an executor of its own"),
    (r"tracing_subscriber::|tracing_core::dispatcher::set_|tracing::(dispatcher|subscriber)::set_|tracing::subscriber::set_", "takes over the logging of the process"),
]
TABOO = [(re.compile(a), b) for a, b in TABOO]
GENERIC = re.compile(r"::?<[^<>]*>")


def plain(p):
    """A path without generic arguments; the type of an inherent or trait impl stays."""
    old = None
    p = p.lstrip("<") if p.startswith("<") and " as " not in p else p
    while old != p:
        old, p = p, re.sub(r"::<[^<>]*>", "", p)
    return p


def named(x, out):
    """All functions that a piece of MIR names."""
    if isinstance(x, dict):
        g = x.get("fn")
        if isinstance(g, dict):
            for y in (g.get("res"), g):
                if isinstance(y, dict) and "path" in y:
                    out.add(y["path"])
        if "def" in x and isinstance(x["def"], str):
            out.add(x["def"])
        for v in x.values():
            named(v, out)
    elif isinstance(x, (list, tuple)):
        if len(x) > 1 and x[0] == "fndef" and isinstance(x[1], str):
            out.add(x[1])
        for v in x:
            named(v, out)


@prop("P33", technique="effect analysis: every function that any body of the crate calls or names, generated code included, is compared with a table of effects "
      "that are not the library's to have", assumptions=["functions of other crates have the effects that their modules are for"])
def p33(ctx):
    rep = ctx.rep
    for f in ctx.features:
        F = ctx.F[f]
        n = 0
        for b in list(F.bodies.values()) + list(F.promoted.values()):
            if not b.local:
                continue
            rep.functions[b.path] = rep.functions.get(b.path, 0) + 1
            for blk in b.blocks:
                t = blk["t"]
                site = t.get("sp", "") if isinstance(t, dict) else ""
                names = set()
                named(t, names)
                named(blk.get("s", blk.get("stmts", [])), names)
                for p in names:
                    n += 1
                    rep.sites.add((b.path, p, site))
                    why = next((w for r, w in TABOO if r.match(plain(p))), None)
                    rep.check(why is None, "the library keeps to itself", "%s:%s:%s" % (b.path, p, f),
                              "%s names %s, which %s" % (b.path, p, why), "%s (%s)" % (site or b.span, b.path))
        rep.floor(n, 1500, "calls and names of functions (%s)" % f)
