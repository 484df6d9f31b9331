"""Models of streams, sinks and channels: a program that moves messages becomes a network of terms.

A stream is a term (`("stream", op, …)` over `("rx", …)`, a framed reader, or a value that is not
known); so is a sink. `pump` follows one item through a stream's operations, with the closures that
they apply analysed like any other code.
"""
from .engine import *
from .models import strip

STREAMS = {}


def smodel(*names):
    def f(g):
        for n in names:
            STREAMS[n] = g
        return g
    return f


SX = "futures_util::stream::stream::StreamExt::"
TX = "futures_util::stream::try_stream::TryStreamExt::"
KX = "futures_util::sink::SinkExt::"


@smodel("tokio_util::codec::framed_read::FramedRead::new", "async_codec_lite::framed::read::FramedRead::new", "async_codec_lite::framed::read::FramedRead::with_capacity",
        "tokio_util::codec::framed_read::FramedRead::with_capacity")
def m_fread(e, st, args, info):
    return ret(st, ("stream", "framed", args[0], args[1]))


@smodel("tokio_util::codec::framed_write::FramedWrite::new", "async_codec_lite::framed::write::FramedWrite::new", "async_codec_lite::framed::write::FramedWrite::with_capacity",
        "tokio_util::codec::framed_write::FramedWrite::with_capacity")
def m_fwrite(e, st, args, info):
    return ret(st, ("sink", "framed", args[0], args[1]))


@smodel("futures_channel::mpsc::channel", "futures_channel::mpsc::unbounded")
def m_channel(e, st, args, info):
    n = st.fresh()
    t, body = info[5], info[6]
    st.log(Event("channel", strip(info[0]), args, args, ("chan", n), t["sp"], body.path if body else "", info[4]))
    return ret(st, ("tuple", (("tx", "mpsc", n, 0), ("rx", "mpsc", n))))


@smodel("core::clone::Clone::clone")
def m_clone_tx(e, st, args, info):
    v = e.deref(st, args[0])
    if v[0] == "tx":
        h = st.fresh()
        st.log(Event("handle", "clone", (v,), (v,), v[:3] + (h,), info[5]["sp"]))
        return ret(st, v[:3] + (h,))
    return None


def closing(kind):
    def m(e, st, args, info):
        r, p = e.pointee(args[0])
        v = e.read(st, r, p)
        t, body = info[5], info[6]
        st.log(Event(kind, "", args, (v,), None, t["sp"], body.path if body else ""))
        if v[0] == "tx" and kind == "disconnect":
            e.write(st, r, p, ("closedtx",) + v[1:])
        return ret(st, UNIT)
    return m


STREAMS["futures_channel::mpsc::Sender::disconnect"] = closing("disconnect")
STREAMS["futures_channel::mpsc::UnboundedSender::disconnect"] = closing("disconnect")
STREAMS["futures_channel::mpsc::Sender::close_channel"] = closing("close_channel")
STREAMS["futures_channel::mpsc::UnboundedSender::close_channel"] = closing("close_channel")
STREAMS["futures_channel::mpsc::Receiver::close"] = closing("close_rx")
STREAMS["futures_util::abortable::AbortHandle::abort"] = closing("abort")


@smodel("futures_util::stream::abortable::abortable")
def m_sabortable(e, st, args, info):
    n = st.fresh()
    return ret(st, ("tuple", (("stream", "abortable", args[0], ("abortid", n)), ("aborthandle", ("abortid", n)))))


@smodel("futures_util::abortable::Abortable::new")
def m_abortable_new(e, st, args, info):
    # Streams and futures share the type; what is wrapped decides.
    if is_stream(args[0]):
        return ret(st, ("stream", "abortable", args[0], args[1][1] if args[1][0] == "abortreg" else args[1]))
    return None


def is_stream(v):
    return v[0] in ("stream", "rx")


ONE = ("fuse", "boxed", "boxed_local", "by_ref", "enumerate", "peekable", "into_stream")
FN = ("map", "filter", "filter_map", "then", "take_while", "skip_while", "inspect", "take_until", "scan", "map_while",
      "flat_map", "map_ok", "map_err", "and_then", "or_else", "try_filter_map", "inspect_err", "inspect_ok", "err_into")
NUM = ("buffer_unordered", "buffered", "take", "skip", "chunks", "ready_chunks", "try_buffer_unordered", "try_buffered")


def combinator(op):
    def m(e, st, args, info):
        s = args[0]
        if op == "by_ref":
            return ret(st, s)
        if op in ("fuse", "boxed", "boxed_local", "into_stream"):
            return ret(st, s)
        return ret(st, ("stream", op) + tuple(args))
    return m


for _n in ONE + FN + NUM:
    STREAMS[SX + _n] = STREAMS[TX + _n] = combinator(_n)
STREAMS[SX + "chain"] = combinator("chain")
STREAMS[SX + "zip"] = combinator("zip")


@smodel("futures_util::stream::select::select", "futures_util::stream::select_with_strategy::select_with_strategy")
def m_select(e, st, args, info):
    return ret(st, ("stream", "select", args[0], args[1]))


@smodel("futures_util::stream::select_all::select_all")
def m_select_all(e, st, args, info):
    v = args[0]
    return ret(st, ("stream", "select") + tuple(v[1])) if v[0] == "array" else None


@smodel("futures_util::stream::once::once")
def m_once(e, st, args, info):
    return ret(st, ("stream", "once", args[0]))


@smodel("futures_util::stream::empty::empty")
def m_empty(e, st, args, info):
    return ret(st, ("stream", "select"))


# -- sinks

def sink_op(op):
    def m(e, st, args, info):
        return ret(st, ("sink", op) + tuple(args))
    return m


for _n in ("sink_map_err", "with", "buffer", "fanout", "with_flat_map", "sink_err_into"):
    STREAMS[KX + _n] = sink_op(_n)


def futs(op):
    def m(e, st, args, info):
        t, body = info[5], info[6]
        n = st.fresh()
        v = ("fut", op) + tuple(args) + ((("id", n),) if op == "forward" else ())
        if op == "forward":
            st.log(Event("task", op, args, args, ("task", n), t["sp"], body.path if body else ""))
        return ret(st, v)
    return m


for _n in ("forward", "for_each", "for_each_concurrent", "next", "into_future"):
    STREAMS[SX + _n] = futs(_n)
for _n in ("send", "feed", "send_all", "flush", "close"):
    STREAMS[KX + _n] = futs(_n)
STREAMS[TX + "try_next"] = futs("try_next")


@smodel("futures_channel::mpsc::Sender::try_send", "futures_channel::mpsc::Sender::start_send",
        "futures_channel::mpsc::UnboundedSender::unbounded_send", "futures_channel::mpsc::UnboundedSender::start_send")
def m_try_send(e, st, args, info):
    return [(s, k, v) for s, k, v in drive_send(e, st, ("fut", strip(info[0]).rsplit("::", 1)[-1], args[0], args[1]), info[5], info[6])]


# -- the join! macro

@smodel("futures_util::future::maybe_done::maybe_done")
def m_maybe_done(e, st, args, info):
    return ret(st, ("maybe_done", args[0]))


@smodel("futures_util::future::maybe_done::MaybeDone::take_output")
def m_take_output(e, st, args, info):
    r, p = e.pointee(args[0])
    v = e.read(st, r, p)
    if v[0] == "done":
        e.write(st, r, p, ("gone",))
        return ret(st, some(v[1]))
    return ret(st, none())


@smodel("futures_util::future::join::join", "futures_util::future::join::join3", "futures_util::future::join::join4",
        "futures_util::future::join::join5")
def m_join(e, st, args, info):
    return ret(st, ("fut", "joinall", tuple(args)))


@smodel("futures_util::future::join_all::join_all")
def m_join_all(e, st, args, info):
    v = args[0]
    return ret(st, ("fut", "joinall", tuple(v[1]))) if v[0] == "array" else None


@smodel("core::future::future::Future::poll")
def m_poll(e, st, args, info):
    t, body = info[5], info[6]
    if args[0][0] != "ref":
        return None
    r, p = e.pointee(args[0])
    v = e.read(st, r, p)
    if v[0] == "ref":
        r, p = e.pointee(v)
        v = e.read(st, r, p)
    if v[0] == "maybe_done":
        out = []
        for s, kind, x in e.drive(st, v[1], t, body):
            if kind == "ret":
                e.write(s, r, p, ("done", x))
                s.log(Event("joined", "", (v,), (v,), x, t["sp"]))
                x = ready(UNIT)
            out.append((s, kind, x))
        return out
    if v[0] == "done":
        return ret(st, ready(UNIT))
    return None


# ----------------------------------------------------------------------------------- following items

def sources(v):
    """The sources that a stream draws from, with the operations between (outermost first)."""
    if v[0] == "stream" and v[1] in ("select", "chain", "zip"):
        return [(s, ((v[1],),) + ops) for x in v[2:] for s, ops in sources(x)]
    if v[0] == "stream" and v[1] == "once":
        return [(v, ())]
    if v[0] == "stream" and v[1] == "framed":
        return [(v, ())]
    if v[0] == "stream":
        return [(s, ((v[1],) + v[3:],) + ops) for s, ops in sources(v[2])]
    return [(v, ())]


def resolve(e, st, v):
    """A stream or sink behind references."""
    for _ in range(8):
        if v[0] == "ref":
            v = e.read(st, v[1], v[2])
        elif v[0] == "maybe_done":
            v = v[1]
        else:
            break
    if v[0] in ("stream", "sink"):
        v = v[:2] + tuple(resolve(e, st, x) if isinstance(x, tuple) and x and x[0] in ("stream", "sink", "ref", "rx", "tx") else x for x in v[2:])
    return v


T0 = {"sp": "", "k": "call"}


def pump(e, st, ops, item, t=T0, body=None):
    """Follows an item through operations, innermost last: [(state, what, value)] with what one of
    item, skip, end, panic."""
    outs = [(st, "item", item)]
    for op in reversed(ops):
        nxt = []
        for s, what, x in outs:
            if what != "item":
                nxt.append((s, what, x))
                continue
            nxt += step(e, s, op, x, t, body)
        outs = nxt
    return outs


def lift(outs):
    return [(s, "item" if k == "ret" else k, x) for s, k, x in outs]


def bind(outs, f):
    r = []
    for s, w, x in outs:
        r += f(s, x) if w == "item" else [(s, w, x)]
    return r


def step(e, st, op, x, t, body):
    k = op[0]
    call = lambda s, f, v: lift(e.apply(s, f, (v,)))
    run = lambda s, f: lift(e.drive(s, f, t, body))
    if k in ("select", "chain", "abortable", "framed", "peekable", "take_until"):
        return [(st, "item", x)]
    if k == "map":
        return call(st, op[1], x)
    if k == "then":
        return bind(call(st, op[1], x), run)
    if k in ("buffer_unordered", "buffered"):
        st.log(Event("limited", k, (op[1],), (op[1], x)))
        return run(st, x)
    if k == "inspect":
        return bind(call(st, op[1], e.alloc(st, x)), lambda s, _: [(s, "item", x)])
    if k in ("filter_map", "map_while"):
        outs = call(st, op[1], x)
        if k == "filter_map":
            outs = bind(outs, run)
        def f(s, y):
            return [(s2, "item", e.payload(y, 1)) if d == 1 else (s2, "skip" if k == "filter_map" else "end", None) for s2, d in e.split(s, y)]
        return bind(outs, f)
    if k in ("filter", "take_while", "skip_while"):
        outs = bind(call(st, op[1], e.alloc(st, x)), run)
        yes, no = ("item", {"filter": "skip", "take_while": "end"}.get(k)) if k != "skip_while" else ("skip", "item")
        def g(s, y):
            r = []
            for n, w in ((1, yes), (0, no)):
                s2 = s.fork()
                if e.assume(s2, y, n):
                    r.append((s2, w, x if w == "item" else None))
            return r
        return bind(outs, g)
    if k in ("map_ok", "map_err", "and_then", "or_else"):
        return lift(e.try_map(st, k, x, op[1], t, body))
    if k in ("inspect_err", "inspect_ok"):
        return [(st, "item", x)]
    if k in ("take", "skip"):
        s = st.fork()
        return [(st, "item", x), (s, "skip" if k == "skip" else "end", None)]
    raise Limit("stream operation `%s`" % k)


def into_sink(e, st, sink, item, t=T0, body=None):
    """Follows an item into a sink: [(state, what, (final sink, item))]."""
    sink = resolve(e, st, sink)
    if sink[0] == "sink" and sink[1] in ("sink_map_err", "buffer", "sink_err_into"):
        return into_sink(e, st, sink[2], item, t, body)
    if sink[0] == "sink" and sink[1] == "with":
        outs = bind(lift(e.apply(st, sink[3], (item,))), lambda s, f: lift(e.drive(s, f, t, body)))
        def f(s, y):
            r = []
            for s2, d in e.split(s, y):
                r += into_sink(e, s2, sink[2], e.payload(y, 0), t, body) if d == 0 else [(s2, "skip", None)]
            return r
        return bind(outs, f)
    if sink[0] == "sink" and sink[1] != "framed":
        raise Limit("sink operation `%s`" % sink[1])
    return [(st, "item", (sink, item))]


def sink_error(e, st, sink, t, body):
    """What an error of the innermost sink becomes."""
    sink = resolve(e, st, sink)
    if sink[0] == "sink" and sink[1] == "sink_map_err":
        return e.then(sink_error(e, st, sink[2], t, body), lambda s, x: e.apply(s, sink[3], (x,)))
    if sink[0] == "sink" and sink[1] in ("with", "buffer", "sink_err_into"):
        return sink_error(e, st, sink[2], t, body)
    return [(st, "ret", ("call", "sink error", (), st.fresh()))]


def drive_send(e, st, v, t, body):
    out = []
    for s, what, x in into_sink(e, st, v[2], v[3], t, body):
        if what != "item":
            out.append((s, "panic" if what == "panic" else "ret", x if what == "panic" else ok(UNIT)))
            continue
        sink, item = x
        a, b = s, s.fork()
        item = deep(e, s, item)
        a.log(Event("push", v[1], (sink, item), (sink, item), ("str", "ok"), t["sp"], body.path if body else ""))
        out.append((a, "ret", ok(UNIT)))
        b.log(Event("push", v[1], (sink, item), (sink, item), ("str", "err"), t["sp"], body.path if body else ""))
        for s2, k, y in sink_error(e, b, v[2], t, body):
            out.append((s2, k, err(y) if k == "ret" else y))
    return out


def deep(e, st, v):
    return e.deref(st, v) if v[0] == "ref" and v[1][0] != "D" else v


def drive(e, st, v, t, body):
    """Awaits the futures of streams and sinks."""
    k = v[1]
    site, fn = t["sp"], body.path if body else ""
    if k == "joinall":
        outs = [(st, "ret", ("tuple", ()))]
        for sub in v[2]:
            def one(s, acc, sub=sub):
                r = []
                for s2, kd, x in e.drive(s, sub, t, body):
                    if kd == "ret":
                        s2.log(Event("joined", "", (sub,), (sub,), x, site))
                        x = ("tuple", acc[1] + (x,))
                    r.append((s2, kd, x))
                return r
            outs = e.then(outs, one)
        return outs
    if k in ("next", "try_next"):
        s0 = resolve(e, st, v[2])
        out = []
        srcs = sources(s0)
        end = st.fork()
        end.log(Event("pull", "end", (s0,), (s0,), none(), site, fn))
        out.append((end, "ret", none() if k == "next" else ok(none())))
        for src, ops in srcs:
            s = st.fork()
            n = s.fresh()
            item = ("item", n)
            s.log(Event("pull", "item", (src,), (src, s0), item, site, fn))
            for s2, what, x in pump(e, s, ops, item, t, body):
                if what == "item":
                    out.append((s2, "ret", some(x)))
                elif what == "panic":
                    out.append((s2, "panic", x))
                else:
                    # Skipped: the stream is asked again.
                    s2.log(Event("skipped", what, (item,), (item,), None, site, fn))
                    out.append((s2, "loop", ("", 0)) if what == "skip" else (s2, "ret", none()))
        return out
    if k in ("send", "feed"):
        return drive_send(e, st, v, t, body)
    if k == "flush":
        st.log(Event("flush", k, (v[2],), (v[2],), None, site, fn))
        s = st.fork()
        return [(st, "ret", ok(UNIT)), (s, "ret", err(("call", "sink error", (), s.fresh())))]
    if k == "close":
        r, p = e.pointee(v[2]) if v[2][0] == "ref" else (None, None)
        x = resolve(e, st, v[2])
        st.log(Event("disconnect", "close", (x,), (x,), None, site, fn))
        if r and x[0] == "tx":
            e.write(st, r, p, ("closedtx",) + x[1:])
        s = st.fork()
        return [(st, "ret", ok(UNIT)), (s, "ret", err(("call", "sink error", (), s.fresh())))]
    if k == "forward":
        s0, sink, tid = resolve(e, st, v[2]), resolve(e, st, v[3]), v[4]
        out = []
        # What happens to one item, for its panics.
        for src, ops in sources(s0):
            for s, what, x in pump(e, st.fork(), ops, ("item", src), t, body):
                if what == "panic":
                    out.append((s, "panic", x))
        st.log(Event("run", "forward", (s0, sink), (s0, sink), tid, site, fn))
        a, b = st, st.fork()
        a.log(Event("ran", "ok", (tid,), (tid,), None, site, fn))
        out.append((a, "ret", ok(UNIT)))
        b.log(Event("ran", "err", (tid,), (tid,), None, site, fn))
        for s, kk, y in sink_error(e, b, v[3], t, body):
            out.append((s, kk, err(y) if kk == "ret" else y))
        return out
    if k in ("for_each", "for_each_concurrent"):
        s0, f = resolve(e, st, v[2]), v[3 if k == "for_each" else 4]
        end = st.fork()
        end.log(Event("pull", "end", (s0,), (s0,), none(), site, fn))
        out = [(end, "ret", UNIT)]
        for src, ops in sources(s0):
            s = st.fork()
            item = ("item", s.fresh())
            s.log(Event("pull", "item", (src,), (src, s0), item, site, fn))
            for s2, what, x in pump(e, s, ops, item, t, body):
                if what == "item":
                    if k == "for_each_concurrent":
                        n = v[3]
                        if n[0] == "adt" and n[1] == OPTION and n[3]:
                            n = n[3][0]
                        s2.log(Event("limited", k, (n,), (n, x)))
                    for s3, kd, y in e.then(e.apply(s2, f, (x,)), lambda q, fut: e.drive(q, fut, t, body)):
                        out.append((s3, "loop", ("", 0)) if kd == "ret" else (s3, kd, y))
                elif what == "panic":
                    out.append((s2, "panic", x))
                else:
                    s2.log(Event("skipped", what, (item,), (item,), None, site, fn))
                    out.append((s2, "loop", ("", 0)))
        return out
    return None


STREAMS["<drive>"] = drive
