"""Rules about serving: how messages get from the input to the service, and from there to the output.

`Server::serve` is followed along every path, with streams, sinks and channels as a network of terms
(`vf/streams.py`); each message that the reader gets is then followed through the tasks that forward
it, up to the writer.
"""
from ..engine import *
from ..lib import only
from ..models import strip
from ..streams import STREAMS, into_sink, pump, resolve, sources
from ..system import Missing, need
from . import codec, prop

TECH = ("path-partitioned dataflow over MIR of Server::serve and of the closures of its streams; streams, sinks and channels "
        "form a network of terms, and every kind of incoming message is followed through it, up to the writer")
ASSUME = ["FramedRead, FramedWrite and futures' channels, streams and sinks behave as documented",
          "the runtime polls the future of serve(); writes to the output eventually succeed or fail",
          "the futures of the service's handlers eventually finish once they are polled (or are cancelled by exit)"]
SVC = "tower_service::Service::"
MSG = "tower_lsp::jsonrpc::Message"
NULL = "Null"


class Serve:
    def __init__(self, ctx, f):
        self.F, self.sys, self.f, self.rep = ctx.F[f], ctx.sys[f], f, ctx.rep
        F = self.F
        self.body = need(F.body("tower_lsp::transport::Server::<I, O, L>::serve"), "Server::serve")
        self.fields()
        msg = need(F.adts.get(MSG), MSG)
        names = [v["name"] for v in msg["variants"]]
        self.req, self.resp = names.index("Request"), names.index("Response")
        self.e = e = self.sys.engine(extra=STREAMS)
        self.outs = e.entry_driven(self.body, names=["self", "service"])
        ctx.rep.absorb(e)
        ctx.rep.paths += len(self.outs)
        self.paths = [(s, k, v, s.trace()) for s, k, v in self.outs]
        self.segs = []
        for s, k, v, ev in self.paths:
            pulls = [i for i, x in enumerate(ev) if x.kind == "pull" and self.from_stdin(x)]
            for i, j, goes_on in rounds(ev, k, pulls):
                self.segs.append(Seg(self, s, k, ev, i, j, goes_on))
        self.rounds = []
        seen = set()
        for s, k, v, ev in self.paths:
            pulls = [i for i, x in enumerate(ev) if x.kind == "pull" and not self.from_stdin(x)]
            for i, j, goes_on in rounds(ev, k, pulls):
                r = Round(s, ev, i, j, goes_on)
                if r.key() not in seen:
                    seen.add(r.key())
                    self.rounds.append(r)
        ctx.rep.floor(len(self.segs), 4, "ways through the reader (%s)" % f)
        self.found = {k for g in self.segs if g.item is not None for k in g.kinds}
        for k in ("request", "response", "malformed"):
            ctx.rep.check(k in self.found, "the reader tells apart requests, responses and malformed messages", "kind:%s:%s" % (k, f),
                          "no path of the reader deals with %s messages" % k, self.body.span)

    def fields(self):
        F = self.F
        b = need(F.body("tower_lsp::transport::Server::<I, O, L>::new"), "Server::new")
        e = self.sys.engine()
        s, v = only(e.entry(b, names=["stdin", "stdout", "socket"]), "Server::new")
        self.new = v
        if v[0] != "adt":
            raise Missing("the fields of Server")
        ix = lambda x: next((i for i, y in enumerate(v[3]) if y == ("sym", x)), None)
        self.stdin, self.stdout, self.loopback = ix("stdin"), ix("stdout"), ix("socket")
        b = need(F.body("tower_lsp::transport::Server::<I, O, L>::concurrency_level"), "Server::concurrency_level")
        outs = [o for o in e.entry(b, names=["self", "max"]) if o[1] == "ret"]
        self.level = []
        for s, _, x in outs:
            if x[0] == "upd":
                self.level.append((s, {k[1]: y for k, y in x[2] if k[0] == "f"}))
            elif x[0] == "adt":
                self.level.append((s, {i: y for i, y in enumerate(x[3]) if y != ("fld", ("sym", "self"), i)}))
            else:
                self.level.append((s, {}))
        self.leng = e
        fs = {i for _, d in self.level for i in d}
        known = {self.stdin, self.stdout, self.loopback}
        rest = [i for i in range(len(v[3])) if i not in known]
        self.maxf = fs.pop() if len(fs) == 1 else (rest[0] if len(rest) == 1 else None)
        if None in (self.stdin, self.stdout, self.loopback, self.maxf):
            raise Missing("the fields of Server")

    def fld(self, i):
        return ("fld", ("sym", "self"), i)

    def from_stdin(self, x):
        src = x.vals[0] if x.name == "item" else x.vals[0]
        return any(s[0] == "stream" and s[1] == "framed" and s[2] == self.fld(self.stdin) for s, _ in sources(src))

    def loop_half(self, v):
        """0 for the stream of the loopback, 1 for its sink."""
        if v[0] == "fld" and v[1][0] == "call" and v[1][1].endswith("::Loopback::split"):
            return v[2]
        return None

    def item_ty(self, dec):
        """The type of the items of the reader with the given decoder."""
        for t, l in self.F.impls_by_trait.items():
            if t.endswith("::Decoder"):
                for i in l:
                    if i["self"][0] == "adt" and dec[0] == "adt" and i["self"][1] == dec[1]:
                        return i["items"]["Item"]["ty"], i["items"]["decode"]["key"]
        raise Missing("the decoder of the input: %s" % show(dec)[:100])

    # What happens to something pushed into a sink.

    def deliver(self, st, ev, sink, item, d=0):
        """Where an item pushed into a sink ends: [(state, what, target, item)]."""
        if d > 6:
            raise Limit("a cycle of channels")
        out = []
        for s, what, x in into_sink(self.e, st.fork(), sink, item):
            if what != "item":
                out.append((s, what, None, None))
                continue
            tgt, y = x
            if tgt[0] not in ("tx", "closedtx"):
                out.append((s, "out" if self.is_stdout(tgt) else "loopback" if self.loop_half(tgt) == 1 else "other", tgt, y))
                continue
            took = False
            for t in [t for t in ev if t.kind == "task" and t.name == "forward"]:
                s0, k0 = resolve(self.e, s, t.vals[0]), t.vals[1]
                for src, ops in sources(s0):
                    if src[0] == "rx" and src[2] == tgt[2]:
                        took = True
                        for s2, w2, z in pump(self.e, s.fork(), ops, y):
                            if w2 == "item":
                                # `forward` wants a `Result`.
                                for s3, dd in self.e.split(s2, z):
                                    if dd == 0:
                                        out += self.deliver(s3, ev, k0, self.e.payload(z, 0), d + 1)
                                    else:
                                        out.append((s3, "skip", None, None))
                            else:
                                out.append((s2, w2, None, None))
            for r in self.rounds:
                if r.src is not None and r.src[0] == "rx" and r.src[2] == tgt[2]:
                    took = True
                    if r.failed:
                        continue
                    for s2, pushes in r.feed(self.e, s, y):
                        if not pushes:
                            out.append((s2, "skip", None, None))
                        for k0, z in pushes:
                            out += self.deliver(s2, ev, k0, z, d + 1)
            if not took:
                out.append((s, "nowhere", tgt, y))
        return out

    def is_stdout(self, v):
        return v[0] == "sink" and v[1] == "framed" and v[2] == self.fld(self.stdout)


def rounds(ev, kind, pulls):
    """From one message to the next: (index of the pull, end, whether another follows)."""
    for n, i in enumerate(pulls):
        j = pulls[n + 1] if n + 1 < len(pulls) else len(ev)
        m = next((m for m in range(i, j) if ev[m].kind == "joined"), None)
        yield i, (j if m is None else m), m is None and (n + 1 < len(pulls) or kind == "loop")


class Round:
    """What a hand-written task does with one item."""

    def __init__(self, st, ev, i, j, goes_on):
        self.st, self.pull, self.ev, self.goes_on = st, ev[i], ev[i + 1:j], goes_on
        self.src = self.pull.vals[0] if self.pull.name == "item" else None
        self.item = self.pull.ret
        self.pushes = [x for x in self.ev if x.kind == "push"]
        self.failed = any(x.ret == ("str", "err") for x in self.pushes)

    def key(self):
        return (self.pull.name, self.pull.site, self.src, self.goes_on, self.failed,
                tuple((x.kind, x.name, tuple(show(replace(v, self.item, ("it",))) for v in x.vals)) for x in self.ev if x.kind in ("push", "await", "limited", "skipped")),
                tuple(sorted(show(replace(k, self.item, ("it",))) + str(v) for k, v in self.st.facts.items() if contains(k, self.item))))

    def feed(self, e, st, y):
        """Does the same with the item `y`: [(state, pushes)]."""
        sub = [(st.fork(), {self.item: y})]
        for x in self.ev:
            if x.kind == "limited":
                for s, m in sub:
                    s.log(Event("limited", x.name, x.args, tuple(replaces(v, m) for v in x.vals)))
            elif x.kind == "await" and x.vals and x.vals[0] == self.item:
                nxt = []
                for s, m in sub:
                    for s2, k, z in e.drive(s, y, {"sp": x.site, "k": "call"}, None):
                        if k == "ret":
                            nxt.append((s2, {x.ret: z, **m}))
                sub = nxt
        out = []
        for s, m in sub:
            good = True
            for k, v in self.st.facts.items():
                k2 = replaces(k, m)
                if k2 == k:
                    continue
                t = k2[1]
                if k[0] == "=":
                    if t[0] == "discr":
                        d = e.variant(s, t[1])
                        if d is not None:
                            good = good and d == v
                            continue
                    good = good and e.assume(s, t, v)
                elif k[0] == "!":
                    d = e.variant(s, t[1]) if t[0] == "discr" else None
                    good = good and (d is None or d not in v)
                    if d is None:
                        s.facts[k2] = v
            if good:
                out.append((s, [(replaces(x.vals[0], m), replaces(x.vals[1], m)) for x in self.pushes]))
        return out


def replaces(t, m):
    for a, b in m.items():
        t = replace(t, a, b)
    return t


def replace(t, a, b):
    """The term with `a` replaced by `b`, taken apart again where that is possible."""
    if t == a:
        return b
    if not isinstance(t, tuple) or not t:
        return t
    new = tuple(replace(x, a, b) for x in t)
    if new != t and new[0] == "fld":
        return proj(new[1], ("f", new[2]))
    if new != t and new[0] == "as" and new[1][0] == "adt":
        return proj(new[1], ("v", new[2]))
    return new


def may(e, st, v, n=2):
    d = e.variant(st, v)
    if d is not None:
        return {d}
    ex = st.facts.get(("!", ("discr", v)), ())
    return {i for i in range(n) if i not in ex}


class Seg:
    """What the reader does from one message to the next."""

    def __init__(self, S, st, kind, ev, i, j, goes_on):
        self.S, self.st, self.kind, self.goes_on = S, st, kind, goes_on
        self.all, self.at, self.end = ev, i, j
        self.ev = ev[i + 1:j]
        self.pull = ev[i]
        self.item = self.pull.ret if self.pull.name == "item" else None
        self.kinds = {}
        if self.item is not None:
            src = next(s for s, _ in sources(self.pull.vals[0]) if s[0] == "stream" and s[1] == "framed")
            ty, _ = S.item_ty(src[3])
            outer = may(S.e, st, self.item)
            if 1 in outer:
                self.kinds["failed"] = S.e.payload(self.item, 1)
            if 0 in outer:
                self.sort(S.e.payload(self.item, 0), ty)
        w = next((x.site for x in reversed(self.ev) if x.site.startswith("src/")), S.body.span)
        self.where = "%s (serve)" % w

    def sort(self, v, ty):
        e = self.S.e
        if ty[0] == "adt" and ty[1] == RESULT:
            m = may(e, self.st, v)
            if 1 in m:
                self.kinds["malformed"] = e.payload(v, 1)
            if 0 in m:
                self.sort(e.payload(v, 0), ty[2][0])
            return
        m = may(e, self.st, v)
        if self.S.req in m:
            self.kinds["request"] = e.payload(v, self.S.req)
        if self.S.resp in m:
            self.kinds["response"] = e.payload(v, self.S.resp)

    def pushes(self):
        return [x for x in self.ev if x.kind == "push"]

    def ok(self):
        """No push failed in this round."""
        return all(x.ret != ("str", "err") for x in self.pushes())

    def calls(self, name):
        return [(i, x) for i, x in enumerate(self.ev) if x.kind == "call" and x.name == SVC + name]

    def unready(self):
        """Did the service say that it will take no more requests?"""
        e = self.S.e
        for _, x in self.calls("poll_ready"):
            p = x.ret
            if 0 in may(e, self.st, p) and may(e, self.st, e.payload(p, 0)) == {1}:
                return True
        return False


def serves(ctx):
    for f in ctx.features:
        yield f, Serve(ctx, f)


def no_panics(S, rep, rule):
    for s, k, v, ev in S.paths:
        w = next((x.site for x in reversed(ev) if x.site.startswith("src/")), S.body.span)
        rep.check(k != "panic", rule, "panic:%s:%s" % (show(v)[:60] if k == "panic" else "", S.f), "serve() panics: %s" % show(v)[:200], w)
    for g in S.segs:
        for x in g.pushes():
            bad = any(what == "panic" for _, what, _, _ in S.deliver(g.st, g.all, *x.vals))
            rep.check(not bad, rule, "panic-later:%s" % S.f, "serve() panics while it passes a message on", g.where)


# -------------------------------------------------------------------------------------------- P04

INVALID_REQUEST, PARSE_ERROR = -32600, -32700
CATS = ("io", "syntax", "data", "eof")


@prop("P04", technique=TECH + "; the error code of each rejected message is compared with the reason for its rejection", assumptions=ASSUME)
def p04(ctx):
    rep = ctx.rep
    for f, S in serves(ctx):
        e = S.e
        no_panics(S, rep, "no message makes serve() panic")
        seen = 0
        for g in S.segs:
            if g.item is None:
                continue
            if g.goes_on is False and g.ok() and not g.unready() and not failed_only(g):
                rep.check(False, "serving goes on after every message", "stops:%s:%s" % ("+".join(sorted(g.kinds)), f),
                          "the reader stops although nothing has failed (after a %s message)" % "/".join(sorted(g.kinds)), g.where)
            elif g.goes_on:
                rep.check(True, "serving goes on after every message", "goes on:%s:%s" % ("+".join(sorted(g.kinds)), f), "", g.where)
            for kind in ("malformed", "failed"):
                if kind not in g.kinds:
                    continue
                seen += kind == "malformed"
                cause = g.kinds[kind]
                rep.check(not g.calls("call"), "a malformed message does not reach the service", "call:%s:%s" % (kind, f),
                          "the service is called although the message cannot be decoded", g.where)
                ps = g.pushes()
                if kind == "malformed" or ps:
                    rep.check(len(ps) == 1, "a malformed message is answered once", "once:%s:%s" % (kind, f),
                              "%d messages are sent for a message that cannot be decoded" % len(ps), g.where)
                want = codes(S, g.st, cause) if kind == "malformed" else {PARSE_ERROR}
                for x in ps:
                    ends = S.deliver(g.st, g.all, *x.vals)
                    for s, what, tgt, y in ends:
                        o = answer(S, s, y) if what == "out" else (what,)
                        good = o[0] == "error" and is_null(S, s, o[1])
                        rep.check(good, "the answer to a malformed message is an error with a null id", "answer:%s:%s" % (kind, f),
                                  "the answer is %s" % (o[:2],), g.where)
                        if good:
                            rep.check({o[2]} == want, "invalid request if the body is JSON of the wrong shape, else parse error",
                                      "code:%s:%s:%s" % (kind, sorted(want), f), "error code %s, expected %s" % (o[2], sorted(want)), g.where)
        rep.floor(seen, 2, "malformed messages (%s)" % f)
        recovers(S, rep)
        codec.behind_rejected(ctx, rep, f)


def failed_only(g):
    """The input itself failed: the reader may stop."""
    return set(g.kinds) == {"failed"}


def codes(S, st, cause):
    """The codes that are due for the given reason, as far as the path knows it."""
    e = S.e
    adt = need(S.F.adts.get("tower_lsp::codec::ParseError"), "ParseError")
    names = [v["name"] for v in adt["variants"]]
    body = names.index("Body")
    m = may(e, st, cause, len(names))
    out = set()
    if m - {body}:
        out.add(PARSE_ERROR)
    if body in m:
        cats = set(CATS)
        err = e.payload(cause, body)
        for k, v in st.facts.items():
            if k[0] != "=":
                continue
            t = k[1]
            if t[0] == "call" and same(e, st, t[2][0] if t[2] else None, err):
                n = t[1].rsplit("::", 1)[-1]
                if n.startswith("is_") and n[3:] in cats | set(CATS):
                    cats &= {n[3:]} if v else set(CATS) - {n[3:]}
            if t[0] == "discr" and t[1][0] == "call" and t[1][1].endswith("::classify") and same(e, st, t[1][2][0], err):
                cats &= {CATS[v]}
        for k, ex in st.facts.items():
            if k[0] == "!" and k[1][0] == "discr" and k[1][1][0] == "call" and k[1][1][1].endswith("::classify") and same(e, st, k[1][1][2][0], err):
                cats -= {CATS[n] for n in ex}
        if "data" in cats:
            out.add(INVALID_REQUEST)
        if cats - {"data"}:
            out.add(PARSE_ERROR)
    return out


def same(e, st, a, b):
    for _ in range(6):
        if a is None or a == b:
            break
        if a[0] in ("&", "deref"):
            a = a[1]
        elif a[0] == "ref":
            a = e.read(st, a[1], a[2])
        else:
            break
    return a == b


def answer(S, st, m):
    """The response in a message."""
    if S.e.variant(st, m) != S.resp:
        return ("other", m)
    return S.sys.response(st, S.e.payload(m, S.resp))


def is_null(S, st, rid):
    a = need(S.F.adts.get("tower_lsp::jsonrpc::request::Id") or S.F.adts.get("tower_lsp::jsonrpc::Id") or
             next((x for n, x in S.F.adts.items() if n.startswith("tower_lsp::") and n.endswith("::Id")), None), "jsonrpc::Id")
    for _ in range(3):
        if rid[0] == "&":
            rid = rid[1]
    return S.e.variant(st, rid) == [v["name"] for v in a["variants"]].index(NULL)


def recovers(S, rep):
    """FramedRead ends after an error of its decoder, so the decoder must not give one for what it reads."""
    from ..buffers import BYTES
    decs = {src[3] for g in S.segs for src, _ in sources(g.pull.vals[0]) if src[0] == "stream" and src[1] == "framed"}
    for d in decs:
        _, key = S.item_ty(d)
        b = need(S.F.bodies.get(key), "decode")
        e = S.sys.engine(extra=BYTES)
        n = 0
        for s, k, v in e.entry(b, names=["self", "src"]):
            if k != "ret":
                continue
            n += 1
            rep.check(e.variant(s, v) == 0, "the reader's decoder passes errors on as items, so that the stream does not end",
                      "recovers:%s" % S.f, "the decoder of the input fails, which ends the stream: %s" % show(v)[:120], b.span + " " + b.path)
        rep.absorb(e)
        rep.paths += n
        rep.floor(n, 3, "outcomes of the decoder of the input (%s)" % S.f)


# -------------------------------------------------------------------------------------------- P20

@prop("P20", technique=TECH + "; termination: a fixpoint over the network shows that every task ends once the reader has, for each way "
      "in which the reader can end (typestate of every channel handle and abort handle)", assumptions=ASSUME)
def p20(ctx):
    rep = ctx.rep
    for f, S in serves(ctx):
        e = S.e
        no_panics(S, rep, "serve() never panics")
        rep.floor(sum(k == "ret" for _, k, _, _ in S.paths), 3, "ways in which serve() returns (%s)" % f)
        for g in S.segs:
            if g.item is None:
                rep.check(not g.goes_on, "the reader stops at the end of the input", "eof:" + f, "the reader goes on after the end of the input", g.where)
                rep.check(not g.calls("call") and not g.pushes(), "nothing is made up at the end of the input", "eof-effects:" + f,
                          "something is sent or called at the end of the input", g.where)
                continue
            if g.unready():
                rep.check(not g.goes_on, "the reader stops when the service has exited", "exited:" + f, "the reader goes on although the service has exited", g.where)
            for x in g.pushes():
                if x.ret == ("str", "err") and x.name in ("try_send", "start_send") and not any(y.kind == "call" and strip(y.name).endswith("mpsc::Sender::poll_ready") for y in g.ev):
                    rep.check(False, "the reader waits for room in a queue", "full:%s:%s" % (target(S, g, x), f),
                              "what has been read is lost, or the reader stops, when a queue is full (%s)" % target(S, g, x), g.where)
                if x.ret == ("str", "err"):
                    rep.check(not g.goes_on, "the reader stops when a message cannot be passed on", "closed:%s:%s" % (target(S, g, x), f),
                              "the reader goes on although a message cannot be passed on (%s)" % target(S, g, x), g.where)
            if "request" in g.kinds:
                request(S, rep, g, g.kinds["request"])
            if "response" in g.kinds:
                response(S, rep, g)
            for i, x in g.calls("call"):
                asked = [y for j, y in g.calls("poll_ready") if j < i]
                rep.check(asked and not g.unready(), "the service is called only when it has said that it is ready", "ready:" + f,
                          "the service is called without being asked whether it is ready", g.where)
        loops(S, rep)
        for s, k, v, ev in S.paths:
            if k == "ret":
                ends(S, rep, s, ev)


def loops(S, rep):
    for r in S.rounds:
        if r.src is None:
            rep.check(not r.goes_on, "a task ends with its stream", "task-end:%s" % S.f, "the task goes on after the end of its stream", r.pull.site)
        elif r.failed:
            rep.check(not r.goes_on, "a task stops when a message cannot be passed on", "task-closed:%s" % S.f,
                      "the task goes on although messages cannot be passed on", r.pull.site)


class Task:
    def __init__(self, site, stream, sink):
        self.site, self.stream, self.sink = site, stream, sink


def target(S, g, x):
    t = x.vals[0]
    for s, what, tgt, y in S.deliver(g.st, g.all, *x.vals):
        if what in ("out", "loopback"):
            return what
    return "tasks" if t[0] == "tx" else "?"


def contains(t, v, d=0):
    if t == v:
        return True
    return isinstance(t, tuple) and d < 14 and any(contains(x, v, d + 1) for x in t)


def ends(S, rep, st, ev):
    """Every task ends once the reader has."""
    e, f = S.e, S.f
    seg = [g for g in S.segs if g.all is ev or g.all == ev]
    last = max([g.at for g in seg], default=0)
    gs = [g for g in seg if g.at == last]
    why = "end of input"
    if gs and gs[0].item is not None:
        g = gs[0]
        why = "service exited" if g.unready() else ", ".join(target(S, g, x) + " closed" for x in g.pushes() if x.ret == ("str", "err")) or "stop"
    joined = [i for i, x in enumerate(ev) if x.kind == "joined"]
    end = next((i for i in joined if i > last), len(ev))
    tasks = {x.ret: Task(x.site, resolve(e, st, x.vals[0]), x.vals[1]) for x in ev if x.kind == "task"}
    ran = {x.vals[0][1] if x.vals[0][0] == "id" else x.vals[0] for x in ev if x.kind == "ran"}
    prev = 0
    for i in joined:
        pulls = [x for x in ev[prev:i] if x.kind == "pull" and not S.from_stdin(x)]
        if pulls:
            p = pulls[-1]
            tasks[("task", i)] = Task(p.site, p.vals[1] if p.name == "item" else p.vals[0], ev[i].vals[0])
            ran.add(i)
        prev = i
    for t, x in tasks.items():
        rep.check(t[1] in ran, "every task is run to its end", "runs:%s:%s" % (x.site, f), "serve() returns without waiting for the task", x.site)
    rep.check(len(joined) >= len(tasks) + 1, "the reader and the tasks run at the same time", "joined:%s" % f,
              "the reader and the tasks are not all joined", S.body.span)
    # Handles of channels.
    handles = {}
    for x in ev:
        if x.kind == "channel":
            handles[("tx", "mpsc", x.ret[1], 0)] = x.site
        elif x.kind == "handle":
            handles[x.ret] = x.site
    closed, aborted = set(), set()
    for x in ev[:end]:
        if x.kind == "disconnect":
            closed |= {h for h in handles if contains(x.vals[0], h)}
        elif x.kind == "close_channel":
            h0 = x.vals[0]
            others = [h for h in handles if h[2] == h0[2] and h not in closed and h != h0]
            rep.check(not others, "a channel is not closed under those who still send on it", "close_channel:%s" % f,
                      "the channel is closed although others still send on it: their messages are lost", x.site)
            closed |= {h for h in handles if h[2] == h0[2]}
        elif x.kind == "close_rx":
            rep.check(False, "a channel is not closed under those who still send on it", "close_rx:%s" % f, "the receiving side of a channel is closed", x.site)
        elif x.kind == "drop":
            closed |= {h for h in handles if any(contains(v, h) for v in x.vals)}
            # A value dropped within a future that is consumed belongs to that future.
        elif x.kind == "abort":
            aborted.add(x.vals[0][1] if x.vals[0][0] == "aborthandle" else x.vals[0])
    owner = {}
    for t, x in tasks.items():
        for h in handles:
            if contains(x.sink, h):
                owner[h] = t
    done = set()

    def over(v):
        if v[0] == "rx":
            hs = [h for h in handles if h[2] == v[2]]
            return bool(hs) and all(h in closed or owner.get(h) in done for h in hs)
        if v[0] == "stream":
            if v[1] == "abortable":
                return v[3] in aborted or over(v[2])
            if v[1] in ("select", "chain"):
                return all(over(x) for x in v[2:])
            if v[1] == "zip":
                return any(over(x) for x in v[2:])
            if v[1] == "once":
                return True
            if v[1] == "framed":
                return False
            return over(v[2])
        return False

    grew = True
    while grew:
        grew = False
        for t, x in tasks.items():
            if t not in done and over(x.stream):
                done.add(t)
                grew = True
    for t, x in tasks.items():
        open_ = [show(s)[:60] for s, _ in sources(x.stream) if not over(s)]
        rep.check(t in done, "every task ends once the reader has", "ends:%s:%s:%s" % (label(S, x), why, f),
                  "after the reader stops (%s), the task at %s never ends: still open: %s" % (why, x.site, ", ".join(open_)), x.site)
    for x in tasks.values():
        for a, inner in abortables(x.stream):
            if a in aborted:
                lost = [s for s, _ in sources(inner) if s[0] == "rx"]
                rep.check(not lost, "stopping does not cut off answers", "abort:%s" % f, "answers still on their way are cut off", x.site)


def abortables(v):
    out = []
    if v[0] == "stream":
        if v[1] == "abortable":
            out.append((v[3], v[2]))
        for x in v[2:]:
            if isinstance(x, tuple) and x:
                out += abortables(x)
    return out


def label(S, x):
    return "writer" if contains(x.sink, S.fld(S.stdout)) else "task"


# -------------------------------------------------------------------------------------------- P21

@prop("P21", technique=TECH + "; every failure of the output is considered, wherever it can show; panics are reachable outcomes of the analysis",
      assumptions=ASSUME)
def p21(ctx):
    rep = ctx.rep
    for f, S in serves(ctx):
        no_panics(S, rep, "serve() does not panic when the output fails")
        n = sum(1 for s, k, v, ev in S.paths for x in ev if x.kind == "ran" and x.name == "err" or x.kind == "push" and x.ret == ("str", "err"))
        rep.floor(n, 2, "failures of tasks that were considered (%s)" % f)
        m = 0
        for g in S.segs:
            for x in g.pushes():
                if x.ret == ("str", "err"):
                    m += 1
                    rep.check(not g.goes_on, "the reader stops when a message cannot be passed on", "closed:%s:%s" % (target(S, g, x), f),
                              "the reader goes on although messages cannot be passed on (%s)" % target(S, g, x), g.where)
        rep.floor(m, 2, "failures to pass on a message (%s)" % f)
        loops(S, rep)
        for s, k, v, ev in S.paths:
            failed = [x for x in ev if x.kind == "ran" and x.name == "err" or x.kind == "push" and x.ret == ("str", "err")]
            if k == "ret" and failed:
                ends(S, rep, s, ev)
        client_sends(S, ctx.sys[f], rep)


def client_sends(S, sys, rep):
    """Messages of the server to the client, when nobody takes them any more."""
    e = sys.engine(extra=STREAMS)
    n = 0
    for name in ("send_request", "send_notification"):
        b = need(S.F.body("tower_lsp::service::client::Client::" + name), "Client::" + name)
        for s, k, v in e.entry_driven(b):
            n += 1
            w = next((x.site for x in reversed(s.trace()) if x.site.startswith("src/")), b.span)
            # Waiting for an answer that cannot come any more is another matter: see DESIGN.md, P16.
            gone = k == "panic" and any(x.kind == "push" and x.ret == ("str", "err") for x in s.trace())
            rep.check(not gone, "a message that cannot be sent is no reason to panic", "client:%s:%s" % (name, S.f), "Client::%s panics: %s" % (name, show(v)[:120]), w)
    rep.absorb(e)
    rep.paths += n
    rep.floor(n, 4, "ways to send messages to the client (%s)" % S.f)


# -------------------------------------------------------------------------------------------- P22

@prop("P22", technique=TECH + "; provenance: what reaches the writer is exactly what was answered or sent, and each call's future passes one stage "
      "that is bounded by the configured limit", assumptions=ASSUME)
def p22(ctx):
    rep = ctx.rep
    for f, S in serves(ctx):
        e = S.e
        # The configuration.
        v = S.leng.ev(State(), S.new[3][S.maxf])
        rep.check(v == ("int", 4), "the limit is four by default", "default:" + f, "the default limit is %s" % show(v)[:60], "Server::new")
        for s, d in S.level:
            x = d.get(S.maxf)
            good = x == ("sym", "max") or x is not None and x[0] == "call" and x[1].endswith("Ord::max") and ("sym", "max") in x[2] and ("int", 1) in x[2]
            rep.check(good and set(d) == {S.maxf}, "concurrency_level sets the limit", "level:" + f, "concurrency_level(max) sets %s" % {k: show(y)[:40] for k, y in d.items()}, "Server::concurrency_level")
        # The writer.
        ws = {w for _, _, _, ev in S.paths for x in ev for v in x.vals for w in writers(S, v)}
        rep.check(len(ws) == 1, "there is one writer", "writer:" + f, "%d writers to the output" % len(ws), S.body.span)
        for w in ws:
            enc = w[3]
            good = enc[0] == "adt" and any(i["self"][0] == "adt" and i["self"][1] == enc[1]
                                           for t, l in S.F.impls_by_trait.items() if t.endswith("::Encoder") for i in l)
            rep.check(good, "the writer frames messages with the crate's encoder", "encoder:" + f, "the encoder is %s" % show(enc)[:80], S.body.span)
        # What is read.
        nreq = 0
        for g in S.segs:
            if g.item is None:
                continue
            if "request" in g.kinds:
                nreq += 1
                request(S, rep, g, g.kinds["request"])
            if "response" in g.kinds:
                response(S, rep, g)
        rep.floor(nreq, 2, "ways in which a request is taken (%s)" % f)
        # The server's own messages.
        own = 0
        s, k, v, ev = next(p for p in S.paths if p[1] == "ret")
        for t in [x for x in ev if x.kind == "task" and x.name == "forward"]:
            for src, ops in sources(resolve(e, s, t.vals[0])):
                if S.loop_half(src) != 0:
                    continue
                own += 1
                req = ("sym", "own request")
                n0 = len(s.trace())
                for s2, what, x in pump(e, s.fork(), ops, req):
                    if what != "item" or e.variant(s2, x) != 0:
                        rep.check(False, "no message of the server is dropped", "own-drop:" + f, "a message of the server is dropped (%s)" % what, t.site)
                        continue
                    for s3, w3, tgt, y in S.deliver(s2, ev, t.vals[1], e.payload(x, 0)):
                        good = w3 == "out" and e.variant(s3, y) == S.req and e.payload(y, S.req) == req
                        rep.check(good, "a message of the server reaches the writer unchanged", "own:" + f, "a message of the server ends as %s %s" % (w3, show(y)[:80] if y else ""), t.site)
                        ordered(rep, f, s3, n0, t.site)
        mine = [r for r in S.rounds if r.src is not None and S.loop_half(r.src) == 0]
        for r in mine:
            if r.failed:
                continue
            req = ("sym", "own request")
            n0 = len(s.trace())
            for s2, pushes in r.feed(e, s, req):
                rep.check(len(pushes) == 1, "no message of the server is dropped", "own-drop:" + f, "%d messages for one of the server's" % len(pushes), r.pull.site)
                for k0, z in pushes:
                    for s3, w3, tgt, y in S.deliver(s2, ev, k0, z):
                        good = w3 == "out" and e.variant(s3, y) == S.req and e.payload(y, S.req) == req
                        rep.check(good, "a message of the server reaches the writer unchanged", "own:" + f, "a message of the server ends as %s %s" % (w3, show(y)[:80] if y else ""), r.pull.site)
                        ordered(rep, f, s3, n0, r.pull.site)
        own += len({r.pull.site for r in mine})
        rep.check(own == 1, "the server's own messages have one way to the writer", "own-once:" + f, "%d ways" % own, S.body.span)


def response(S, rep, g):
    """A response of the client, on its way to the loopback."""
    f = S.f
    cs = g.calls("call")
    ps = g.pushes()
    rep.check(not cs, "responses of the client do not reach the service", "resp-call:" + f, "the service is called with a response", g.where)
    rep.check(len(ps) == 1, "a response of the client is passed on once", "resp-once:" + f, "%d messages for a response" % len(ps), g.where)
    for x in ps:
        for s, what, tgt, y in S.deliver(g.st, g.all, *x.vals):
            rep.check(what == "loopback" and y == g.kinds["response"], "a response of the client goes to the loopback, unchanged",
                      "resp:" + f, "a response of the client ends as %s %s" % (what, show(y)[:80] if y else ""), g.where)
            rep.check(what != "loopback" or x.name not in ("feed", "start_send") or any(y.kind in ("flush", "push") and y is not x for y in g.ev),
                      "a response of the client is not kept back", "resp-flush:" + f, "a response of the client is put into the loopback, which is not flushed", g.where)


def responses(ctx, rep, f):
    S = Serve(ctx, f)
    for g in S.segs:
        if "response" in g.kinds:
            response(S, rep, g)


def requests(ctx, rep, f):
    S = Serve(ctx, f)
    for g in S.segs:
        if "request" in g.kinds:
            request(S, rep, g, g.kinds["request"])


def ordered(rep, f, s, n0, site):
    """The server's own messages are not handed on side by side."""
    rep.check(not any(x.kind == "limited" and x.name == "buffer_unordered" for x in s.trace()[n0:]), "no message of the server overtakes another", "own-order:" + f,
              "messages of the server are handed on side by side, in any order", site)


def writers(S, v, d=0):
    if not isinstance(v, tuple) or d > 12:
        return
    if v[:2] == ("sink", "framed") and v[2] == S.fld(S.stdout):
        yield v
        return
    for x in v:
        yield from writers(S, x, d + 1)


def request(S, rep, g, req):
    e, f = S.e, S.f
    cs = g.calls("call")
    if g.unready():
        rep.check(not cs, "a service that is not ready is not called", "unready:" + f, "the service is called", g.where)
        return
    rep.check(len(cs) == 1, "a request is given to the service once", "call-once:" + f, "the service is called %d times for a request" % len(cs), g.where)
    for _, c in cs:
        rep.check(len(c.vals) == 2 and same(e, g.st, c.vals[1], req), "a request is given to the service unchanged", "call-arg:" + f,
                  "the service gets %s" % show(c.vals[-1])[:100], g.where)
        futs = [x for x in g.pushes() if contains(x.vals[1], c.ret)]
        rep.check(len(futs) == 1, "the future of a request is passed on once", "fut-once:" + f, "%d" % len(futs), g.where)
        for x in futs:
            n0 = len(g.st.trace())
            some = 0
            for s, what, tgt, y in S.deliver(g.st, g.all, *x.vals):
                ev = s.trace()[n0:]
                aw = [i for i, z in enumerate(ev) if z.kind == "await" and contains(z.vals[0], c.ret)]
                lim = [i for i, z in enumerate(ev) if z.kind == "limited" and contains(z.vals[1], c.ret)]
                rep.check(len(lim) == 1 and aw and lim[0] < aw[0] and ev[lim[0]].vals[0] == S.fld(S.maxf),
                          "requests in progress are bounded by the configured limit", "limit:" + f,
                          "the future of a request is polled %s" % ("under the limit %s" % show(ev[lim[0]].vals[0])[:60] if lim else "without a limit"), g.where)
                rep.check(what != "panic", "taking a request does not panic", "fut-panic:" + f, "panic", g.where)
                if not aw:
                    rep.check(what != "end", "a task ends with its stream", "fut-end:" + f, "the task that answers requests can end before its stream does", g.where)
                    continue
                r = ev[aw[0]].ret
                m = may(e, s, r)
                if m == {1}:
                    rep.check(what == "skip", "a failed call sends nothing", "fut-err:" + f, "a failed call ends as %s" % what, g.where)
                    continue
                o = e.payload(r, 0)
                mo = may(e, s, o)
                if 1 in mo:
                    some += 1
                    good = what == "out" and e.variant(s, y) == S.resp and e.payload(y, S.resp) == e.payload(o, 1)
                    rep.check(good, "a response reaches the writer unchanged", "resp-out:" + f, "a response ends as %s %s" % (what, show(y)[:80] if y else ""), g.where)
                else:
                    rep.check(what == "skip", "nothing is sent for a notification", "none:" + f, "something is sent though there is no response: %s" % what, g.where)
            rep.check(some >= 1, "responses of the service reach the writer", "resp-some:" + f, "no path takes a response to the writer", g.where)
