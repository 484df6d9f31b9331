"""Rules about the client handle: what it sends, when, under which ids, and who gets the answers.

Each method of `Client` is followed along every path, from the client that the service hands to the
user's constructor, through the shared channel, table of waiting requests, id counter and state.
"""
from ..engine import *
from ..lib import Path, only
from ..models import strip
from ..system import REQUEST, SVC_CALL, Missing, System, need
from ..tables import CLIENT, contents, find
from . import prop
from .service import NOT_INITIALIZED, roles

TECH = ("path-partitioned dataflow over MIR of every method of Client, from the client value that LspService::build makes, "
        "with the shared channel, the table of waiting requests, the id counter and the server state as abstract cells")
ASSUME = ["DashMap and futures' channels behave as documented", "lsp_types' parameter types can be serialized",
          "a session has fewer than 2^32 requests to the client"]
C = "tower_lsp::service::client::Client::"

# method: (LSP method, kind, gated, fields of the params in terms of the arguments, field of the result)
ALL = "whole"
METHODS = {
    "register_capability": ("client/registerCapability", "request", True, {"registrations": 0}, ALL),
    "unregister_capability": ("client/unregisterCapability", "request", True, {"unregisterations": 0}, ALL),
    "show_message": ("window/showMessage", "notification", False, {"typ": 0, "message": "1"}, None),
    "show_message_request": ("window/showMessageRequest", "request", False, {"typ": 0, "message": "1", "actions": 2}, ALL),
    "log_message": ("window/logMessage", "notification", False, {"typ": 0, "message": "1"}, None),
    "show_document": ("window/showDocument", "request", True, 0, "success"),
    "telemetry_event": ("telemetry/event", "notification", False, "telemetry", None),
    "code_lens_refresh": ("workspace/codeLens/refresh", "request", True, (), ALL),
    "semantic_tokens_refresh": ("workspace/semanticTokens/refresh", "request", True, (), ALL),
    "inline_value_refresh": ("workspace/inlineValue/refresh", "request", True, (), ALL),
    "inlay_hint_refresh": ("workspace/inlayHint/refresh", "request", True, (), ALL),
    "workspace_diagnostic_refresh": ("workspace/diagnostic/refresh", "request", True, (), ALL),
    "publish_diagnostics": ("textDocument/publishDiagnostics", "notification", True, {"uri": 0, "diagnostics": 1, "version": 2}, None),
    "configuration": ("workspace/configuration", "request", True, {"items": 0}, ALL),
    "workspace_folders": ("workspace/workspaceFolders", "request", True, (), ALL),
    "apply_edit": ("workspace/applyEdit", "request", True, {"edit": 0, "label": None}, ALL),
    "send_notification": (None, "notification", True, 0, None),
    "send_request": (None, "request", True, 0, ALL),
}
RESULT_ADT = {"show_document": "lsp_types::window::ShowDocumentResult"}
ARGS = ["a0", "a1", "a2", "a3"]


class Clients:
    """The client of a service, and all paths of its methods."""

    def __init__(self, ctx, f):
        self.ctx, self.f, self.F, self.rep = ctx, f, ctx.F[f], ctx.rep
        self.sys = s = System(self.F, extra=CLIENT)
        s.make()
        self.st0 = s.svc_state
        ev = [x for x in s.builder_state.trace() if x.kind == "call" and x.name == "<dyn>" and x.args and x.args[0] == ("sym", "init")]
        if len(ev) != 1:
            raise Missing("the one call of the user's constructor of the server")
        self.client = ev[0].args[1]
        chans = find_in(s.builder_state, s.eng, self.client, lambda v: v[0] == "tx" and v[1] == "mpsc")
        if len({c[2] for c in chans}) != 1:
            raise Missing("the one channel of Client")
        self.chan = chans[0][2]
        tabs = find_in(s.builder_state, s.eng, self.client, lambda v: v[0] == "dmap")
        if len(set(tabs)) != 1:
            raise Missing("the one table of waiting requests of Client")
        self.table = tabs[0]
        self.req = [s.accessor(REQUEST, x) for x in ("method", "id", "params")]
        self.cache = {}

    def start(self):
        st = self.st0.fork()
        st.events, st.facts = None, dict(st.facts)
        return st

    def value(self, st):
        return self.sys.engine().alloc(st, self.client)

    def paths(self, m):
        if m not in self.cache:
            b = need(self.F.body(C + m), C + m)
            st, e = self.start(), self.sys.engine()
            args = (e.alloc(st, self.client),) + tuple(("sym", a) for a in ARGS[:b.argc - 1])
            self.cache[m] = self.drive(b, st, args)
        return self.cache[m]

    def drive(self, b, st, args, env=None):
        e = self.sys.engine()
        out = []
        for s, k, v in e.run(st, b, env or {}, args):
            if k != "ret":
                out.append(CPath(self, e, s, k, v, b))
                continue
            for s2, k2, v2 in e.drive(s, v, {"sp": b.span}, b) if is_future(v) else [(s, k, v)]:
                out.append(CPath(self, e, s2, k2, v2, b))
        self.rep.absorb(e)
        self.rep.paths += len(out)
        return out


def is_future(v):
    return v[0] in ("cor", "fut") or v[0] == "ref"


def find_in(st, e, v, p, d=0):
    """Parts of a value, behind references too."""
    if not isinstance(v, tuple) or not v or d > 14:
        return []
    if isinstance(v[0], str):
        if p(v):
            return [v]
        if v[0] == "ref":
            try:
                return find_in(st, e, e.deref(st, v), p, d + 1)
            except Limit:
                return []
    return [y for x in v for y in find_in(st, e, x, p, d + 1)]


class CPath(Path):
    def __init__(self, cl, e, st, kind, val, body):
        Path.__init__(self, cl.sys, e, st, kind, val, None)
        self.cl, self.body = cl, body
        self.pushes = [(i, x) for i, x in enumerate(self.events) if x.kind == "push" and x.vals[0][0] in ("tx", "closedtx") and x.vals[0][1] == "mpsc"]
        self.waits = [(i, x) for i, x in enumerate(self.events) if x.kind == "wait"]
        self.answers = [(i, x) for i, x in enumerate(self.events) if x.kind == "answer"]
        self.awaits = [(i, x) for i, x in enumerate(self.events) if x.kind == "await" and x.vals[0][0] == "rx"]

    def at(self):
        return self.where(self.body.span)

    def excused(self):
        """A panic that is the user's own doing: params that cannot be serialized, or a request that outlives its client."""
        if self.kind != "panic":
            return False
        if any(x.kind == "unserializable" for x in self.events):
            return True
        return any(self.e.variant(self.st, x.ret) == 1 for _, x in self.awaits)

    def request(self, x):
        """(method, id option, params option) of a request that is pushed."""
        v = x.vals[1]
        return tuple(self.e.snap(self.st, proj(v, ("f", i)), 3) for i in self.cl.req)

    def given_up(self):
        return self.pushes and self.pushes[-1][1].ret == ("str", "err")


def text_of(t):
    """The string behind a conversion."""
    for _ in range(8):
        if t[0] == "str":
            return t[1]
        if t[0] in ("&", "deref"):
            t = t[1]
        elif t[0] == "call" and t[2]:
            t = t[2][0]
        elif t[0] == "adt" and t[3]:
            t = t[3][0]
        else:
            return None
    return None


def clients(ctx):
    for f in ctx.features:
        yield f, Clients(ctx, f), roles(ctx, f)


def methods(cl):
    """Every public method of the client that sends something."""
    names = set(METHODS)
    for b in cl.F.bodies.values():
        if b.path.startswith(C) and "{" not in b.path and b.public and b.impl_trait is None and b.path[len(C):] not in ("next_request_id", "progress", "close", "new"):
            names.add(b.path[len(C):])
    return sorted(names)


def each(cl, rep):
    for m in methods(cl):
        ps = cl.paths(m)
        rep.floor(len([p for p in ps if p.kind == "ret"]), 2 if m in METHODS and METHODS[m][2] else 1, "paths of Client::%s" % m)
        for p in ps:
            yield m, p


def sequences(p):
    """The state of the server as the path sees it, before it sends."""
    return p.states()


# -------------------------------------------------------------------------------------------- P15

def atomic_ops(p, kind):
    return [(i, x) for i, x in enumerate(p.events) if x.kind == "call" and strip(x.name) == "core::sync::atomic::Atomic::" + kind]


WIDE = {"i64": 63, "u64": 64, "i128": 127, "u128": 128, "u32": 32, "isize": 63, "usize": 64}


def unique_from(t, adds):
    """The counter event whose value the term repeats, without loss."""
    for _ in range(8):
        for i, vs in adds:
            if t in vs:
                return i
        if t[0] == "cast" and WIDE.get(t[1], 0) >= 32:
            t = t[2]
        elif t[0] == "bin" and t[1] in ("Add", "Sub", "BitXor") and (t[2][0] == "int" or t[3][0] == "int"):
            t = t[2] if t[3][0] == "int" else t[3]
        elif t[0] == "fld" and t[2] == 0 and t[1][0] == "tuple":
            t = t[1][1][0]
        elif t[0] == "adt" and len(t[3]) == 1:
            t = t[3][0]
        elif t[0] in ("&", "deref"):
            t = t[1]
        elif t[0] == "call" and t[2] and len(t[2]) == 1 and strip(t[1]).rsplit("::", 1)[-1] in ("from", "into", "to_string", "clone", "unwrap"):
            t = t[2][0]
        else:
            return None
    return None


@prop("P15", technique=TECH + "; every id that is sent is traced to the atomic read-modify-write of one shared counter, which nothing else changes", assumptions=ASSUME)
def p15(ctx):
    rep = ctx.rep
    for f, cl, R in clients(ctx):
        counters, n = set(), 0
        todo = list(each(cl, rep)) + [("next_request_id", p) for p in cl.paths("next_request_id")]
        for m, p in todo:
            ids = []
            for i, x in p.pushes:
                d = p.e.variant(p.st, proj(x.vals[1], ("f", cl.req[1])))
                if d == 1:
                    ids.append(p.e.snap(p.st, p.e.payload(proj(x.vals[1], ("f", cl.req[1])), 1)))
                elif d is None:
                    rep.check(False, "it is known whether a message has an id", "id?:%s:%s" % (m, f), "cannot tell whether Client::%s sends an id" % m, p.at())
            if m == "next_request_id" and p.kind == "ret":
                ids.append(p.e.snap(p.st, p.val))
            adds = taken(p)
            used = [unique_from(t, adds) for t in ids]
            for t, u in zip(ids, used):
                n += 1
                rep.check(u is not None, "an id is the value of the shared counter that this request took", "id:%s:%s" % (m, f),
                          "Client::%s uses the id %s, which another request can have" % (m, show(t)[:120]), p.at())
                if u is not None:
                    counters.add(target(p.events[u].vals[0]))
            rep.check(len(used) == len(set(used)), "two requests take two ids", "twice:%s:%s" % (m, f), "Client::%s sends two requests with one id" % m, p.at())
        rep.check(len(counters) <= 1, "all ids come from one counter", "one:%s" % f, "ids come from %d counters" % len(counters))
        # Nothing else writes the counter.
        for m, p in todo:
            for i, x in enumerate(p.events):
                s = strip(x.name) if x.kind == "call" else ""
                if s.startswith("core::sync::atomic::Atomic::") and x.vals and target(x.vals[0]) in counters:
                    op = s.rsplit("::", 1)[-1]
                    rep.check(op == "load" or i in dict(taken(p)) or op.startswith("compare_exchange") and p.e.variant(p.st, x.ret) == 1,
                              "the counter only moves on", "write:%s:%s:%s" % (m, op, f),
                              "Client::%s changes the id counter with `%s`" % (m, op), p.at())
        dirs = {direction(p, i) for m, p in todo for i, _ in taken(p) if target(p.events[i].vals[0]) in counters}
        rep.check(len(dirs) <= 1, "the counter moves in one direction", "direction:%s" % f, "the id counter moves both ways")
        # A copy of the client shares the counter, the table and the channel.
        st, e = cl.start(), cl.sys.engine()
        r = e.alloc(st, cl.client)
        for i in cl.F.impls_by_trait.get("core::clone::Clone", ()):
            if i["self"][0] == "adt" and i["self"][1] == C[:-2]:
                b = need(cl.F.bodies.get(i["items"]["clone"]["key"]), "Client::clone")
                s, v = only(e.run(st, b, {}, (r,)), "Client::clone")
                one = lambda w: [x[:3] for x in find_in(s, e, w, lambda y: y[0] in ("tx", "dmap") or y[0] == "call" and "Atomic" in y[1])]
                rep.check(one(v) == one(cl.client), "a clone of the client shares its counter, table and channel", "clone:" + f,
                          "a clone of the client does not share its counter, table or channel", b.span)
        rep.floor(n, 13, "ids sent (%s)" % f)
    for f in ctx.features:
        one_inner(ctx, f, rep)


def one_inner(ctx, f, rep):
    """The shared part of a client is made in one place, once per service."""
    F = ctx.F[f]
    b = need(F.body(C + "new"), "Client::new")
    adt = need(F.adts.get(C[:-2]), "Client")
    sites = 0
    for x in F.bodies.values():
        if not x.local:
            continue
        for bl in x.blocks:
            t = bl["t"]
            if t["k"] == "call" and t["func"][0] == "const" and "fn" in t["func"][1]:
                c = t["func"][1]["fn"]
                if c["path"] == b.path:
                    sites += 1
                    rep.check(x.path.startswith("tower_lsp::service::"), "clients are made by the service", "made:%s:%s" % (x.path, f),
                              "%s makes a client of its own" % x.path, x.span)
    rep.floor(sites, 1, "places that make a client")


def abs_step(p, x):
    v = p.e.ev(p.st, x.vals[1])
    return v[0] == "int" and 0 < v[1] < 2 ** 16


def step(p, a, b):
    """By how much, and in which direction, `b` is beyond `a`, if that is a constant."""
    a, b = p.e.ev(p.st, a), p.e.ev(p.st, b)
    op = {"wrapping_add": "Add", "wrapping_sub": "Sub"}.get(strip(b[1]).rsplit("::", 1)[-1]) if b[0] == "call" and len(b[2]) == 2 else b[1] if b[0] == "bin" else None
    x, y = b[2] if b[0] == "call" and op else b[2:4] if op else (None, None)
    if op == "Add" and y == a:
        x, y = y, x
    return (op, y[1]) if op in ("Add", "Sub") and x == a and y[0] == "int" and 0 < y[1] < 2 ** 16 else None


def taken(p):
    """The events that take a value of a counter which nobody else takes, with that value."""
    out = [(i, (x.ret,)) for i, x in atomic_ops(p, "fetch_add") + atomic_ops(p, "fetch_sub") if abs_step(p, x)]
    for i, x in atomic_ops(p, "compare_exchange") + atomic_ops(p, "compare_exchange_weak"):
        if p.e.variant(p.st, x.ret) == 0 and step(p, x.vals[1], x.vals[2]):
            out.append((i, (x.vals[1], p.e.payload(x.ret, 0))))
    return out


def direction(p, i):
    x = p.events[i]
    n = strip(x.name).rsplit("::", 1)[-1]
    return {"fetch_add": "Add", "fetch_sub": "Sub"}.get(n) or step(p, x.vals[1], x.vals[2])[0]


def target(v):
    while isinstance(v, tuple) and v and v[0] == "&":
        v = v[1]
    return v


# -------------------------------------------------------------------------------------------- P16

def key_of(p, t):
    return p.e.snap(p.st, t, 3)


def shape(p, cl, v):
    return None if v is None else v


@prop("P16", technique=TECH + "; the table of waiting requests is compared before and after, for keys that are absent, waited for once, twice, and more often", assumptions=ASSUME)
def p16(ctx):
    rep = ctx.rep
    for f, cl, R in clients(ctx):
        n = sends(cl, rep, f)
        n += receives(cl, rep, f)
        from . import transport
        transport.responses(ctx, rep, f)
        rep.floor(n, 60, "paths that touch the table of waiting requests (%s)" % f)


def table_after(p):
    return contents(p.e, p.st, p.cl.table[1])


def looked(p):
    """What the table held for each key before: {key: (name, value)}."""
    return {x.vals[0]: (x.name, x.vals[1]) for x in p.events if x.kind == "lookup"}


def sends(cl, rep, f):
    """Requests wait under their id before they are sent, and take their own answer."""
    n = 0
    body = need(cl.sys.service_impl(C[:-2], "call"), "Service<Request> for Client")
    st, e = cl.start(), cl.sys.engine()
    direct = cl.drive(body, st, (e.alloc(st, cl.client), ("sym", "req")))
    for m, p in [("call", p) for p in direct] + list(each(cl, rep)):
        if p.kind == "panic":
            rep.check(p.excused(), "sending does not panic", "panic:%s:%s" % (m, f), "Client::%s panics: %s" % (m, show(p.val)[:120]), p.at())
            continue
        before, after = looked(p), table_after(p)
        for i, x in p.pushes:
            n += 1
            idopt = proj(x.vals[1], ("f", cl.req[1]))
            rep.check(x.vals[0][2] == cl.chan, "messages go into the client's channel", "chan:%s:%s" % (m, f), "Client::%s sends into another channel" % m, p.at())
            d = p.e.variant(p.st, idopt)
            if d == 0:
                rep.check(not p.waits and not p.awaits, "a notification waits for nothing", "notification:%s:%s" % (m, f), "Client::%s waits for an answer to a notification" % m, p.at())
                continue
            rid = key_of(p, p.e.payload(idopt, 1))
            w = [(j, y) for j, y in p.waits if j < i]
            ok = len({y.args[0] for _, y in p.waits}) == 1 and len(w) == len(p.waits) and w[0][1].args[0][:2] == ("tx", "oneshot")
            rep.check(ok, "a request waits for its answer before it is sent", "before:%s:%s" % (m, f),
                      "Client::%s sends a request before it waits for the answer" % m, p.at())
            if not ok:
                continue
            tx = w[0][1].args[0]
            rep.check(set(before) == {rid}, "a request waits under its own id", "key:%s:%s" % (m, f),
                      "Client::%s waits under %s, but sends %s" % (m, [show(k)[:80] for k in before], show(rid)[:80]), p.at())
            if set(before) == {rid}:
                name, old = before[rid]
                rep.check(appended(old, after.get(rid), tx, name), "a request queues up behind those that wait under the same id", "queue:%s:%s:%s" % (m, name, f),
                          "Client::%s does not keep those that wait already: %s" % (m, show(after.get(rid) or ())[:120]), p.at())
            if x.ret == ("str", "ok"):
                got = [y for j, y in p.awaits if y.vals[0] == ("rx", "oneshot", tx[2])]
                rep.check(len(got) == 1 and len(p.awaits) == 1, "a request takes the answer that was sent to it", "answer:%s:%s" % (m, f),
                          "Client::%s waits on something else than its answer" % m, p.at())
                if m == "call" and len(got) == 1:
                    v = p.val
                    good = p.e.variant(p.st, v) == 0 and p.e.variant(p.st, p.e.payload(v, 0)) == 1 and \
                        p.e.snap(p.st, p.e.payload(p.e.payload(v, 0), 1)) == p.e.payload(got[0].ret, 0)
                    rep.check(good, "the answer is passed on whole", "whole:%s" % f, "the answer to a request is not what is returned: %s" % show(v)[:120], p.at())
        if m == "call":
            rep.check(len(p.pushes) == 1 and same(p, p.pushes[0][1].vals[1], ("sym", "req")), "every message is sent once, unchanged", "once:%s" % f,
                      "a message is not sent just once as it is", p.at())
            if p.given_up():
                rep.check(p.e.variant(p.st, p.val) == 1, "a message that cannot be sent is an error", "unsent:%s" % f, "a message that was not sent is no error", p.at())
    return n


def same(p, a, b):
    return p.e.snap(p.st, a) == b


def rebuilt(e, st, v, x, d=0):
    """Is `v` the value `x`, possibly taken apart and put together again on the way?"""
    if v == x:
        return True
    if v[0] != "adt" or d > 6 or e.variant(st, x) != v[2]:
        return False
    return all(rebuilt(e, st, y, e.payload(x, v[2], i), d + 1) for i, y in enumerate(v[3]))


def norm(v):
    """A list of senders of any representation: (items, unknown rest, tail)."""
    if v is None:
        return ((), None, ())
    if v[0] == "tx":
        return ((v,), None, ())
    if v[0] == "vec":
        return (v[1], v[2], v[3]) if v[2] is not None else (v[1] + v[3], None, ())
    return None


def appended(old, new, tx, name):
    a, b = norm(old), norm(new)
    if a is None or b is None:
        return False
    if new is not None and new[0] == "tx":
        # One sender per id: allowed only where ids are unique, which the table cannot know.
        return old is None and new == tx
    if a[1] is None:
        return b == (a[0] + (tx,), None, ())
    return b == (a[0], a[1], a[2] + (tx,))


def sinks(cl):
    """The values that take the client's responses: the socket, and the second half of the split one."""
    st, e = cl.start(), cl.sys.engine()
    sock = cl.sys.socket
    out = [("ClientSocket", st, sock)]
    b = need(cl.F.body("tower_lsp::service::client::socket::ClientSocket::split"), "ClientSocket::split")
    s, v = only(e.run(st.fork(), b, {}, (sock,)), "ClientSocket::split")
    if v[0] != "tuple":
        raise Missing("the halves of the socket")
    out.append(("ResponseSink", s, v[1][1]))
    return out, ("RequestStream", s, v[1][0]), e


def trait_body(cl, trait, v, name):
    for t, l in cl.F.impls_by_trait.items():
        if t == trait or t.startswith(trait + "<"):
            for i in l:
                if i["self"][0] == "adt" and i["self"][1] == v[1] and name in i["items"]:
                    return need(cl.F.bodies.get(i["items"][name]["key"]), "%s of %s" % (name, v[1]))
    raise Missing("%s of %s" % (name, v[1]))


SINK, STREAM, FUSED = "futures_sink::Sink", "futures_core::stream::Stream", "futures_core::stream::FusedStream"
NULLID = "tower_lsp::jsonrpc::Id"


def receives(cl, rep, f):
    """A response reaches the first of those that wait under its id, and nothing else happens."""
    n = 0
    ss, _, _ = sinks(cl)
    resp = ("sym", "resp")
    for name, st, v in ss:
        body = trait_body(cl, SINK, v, "start_send")
        e = cl.sys.engine()
        s = st.fork()
        s.events = None
        r = e.alloc(s, v)
        for p in cl.drive(body, s, (r, resp)):
            n += 1
            w = p.at()
            if p.kind != "ret":
                rep.check(False, "a response never panics", "panic:%s:%s" % (name, f), "a response of the client makes the server panic: %s" % show(p.val)[:150], w)
                continue
            rep.check(p.e.variant(p.st, p.val) == 0, "responses are taken", "taken:%s:%s" % (name, f), "a response is refused", w)
            for x in p.events:
                if x.kind == "whole":
                    rep.check(x.name == "iter", "a response concerns one id", "whole:%s:%s:%s" % (x.name, name, f), "a response touches all requests that wait (`%s`)" % x.name, w)
            before, after = looked(p), table_after(p)
            rep.check(not p.waits, "a response lets nothing wait", "wait:%s:%s" % (name, f), "a response makes something wait", w)
            rep.check(len(before) <= 1, "a response concerns one id", "ids:%s:%s" % (name, f), "a response touches %d ids" % len(before), w)
            if not before:
                rep.check(not p.answers and null_id(p, resp), "a response with an id looks for its request", "lost:%s:%s" % (name, f), "a response with an id is thrown away", w)
                continue
            (k, (what, old)), = before.items()
            rep.check(resp_id(p, resp, k), "a response is looked up by its own id", "id:%s:%s" % (name, f), "a response is looked up by %s" % show(k)[:100], w)
            new = after.get(k)
            if what == "absent":
                rep.check(new is None and not p.answers, "a response that nobody waits for changes nothing", "unknown:%s:%s" % (name, f),
                          "a response to an unknown id has an effect", w)
                continue
            a, b = norm(old), norm(new)
            if null_id(p, resp):
                rep.check(not p.answers and norm(new) == norm(old), "a response with a null id answers nothing", "null:%s:%s" % (name, f),
                          "a response with a null id is given to something that waits", w)
                continue
            rep.check(not may_be_null(p, resp), "a response with a null id answers nothing", "null:%s:%s" % (name, f),
                      "a response is given to what waits without a look at whether its id is null", w)
            rep.check(len(p.answers) == 1 and p.answers[0][1].vals[0] == a[0][0] and p.answers[0][1].vals[1] == resp,
                      "the request that has waited longest gets the response", "first:%s:%s:%s" % (name, what, f),
                      "the response is not given, as it is, to the request that waited first: %s" % [show(x)[:60] for _, y in p.answers for x in y.vals], w)
            rep.check(b is not None and b == (a[0][1:],) + a[1:], "those that still wait go on waiting", "rest:%s:%s:%s" % (name, what, f),
                      "with %s waiting, a response leaves %s" % (what, show(new or ())[:120]), w)
            if what == "one":
                rep.check(new is None, "an id that nobody waits for any more is forgotten", "forget:%s:%s" % (name, f), "an id stays in the table without a request that waits", w)
    return n


def id_field(p, resp):
    """The part of the response that is its id."""
    cl = p.cl
    if not hasattr(cl, "_rid"):
        cl._rid = cl.sys.accessor("tower_lsp::jsonrpc::response::Response", "id")
    return ("fld", resp, cl._rid)


def resp_id(p, resp, k):
    i = id_field(p, resp)
    return k == i or p.e.snap(p.st, k) == i


def may_be_null(p, resp):
    adt = p.cl.F.adts.get(NULLID)
    names = [v["name"] for v in need(adt, "Id")["variants"]]
    t = ("discr", id_field(p, resp))
    return p.e.variant(p.st, id_field(p, resp)) is None and names.index("Null") not in p.st.facts.get(("!", t), ())


def null_id(p, resp):
    adt = p.cl.F.adts.get(NULLID)
    names = [v["name"] for v in need(adt, "Id")["variants"]]
    return p.e.variant(p.st, id_field(p, resp)) == names.index("Null")


# -------------------------------------------------------------------------------------------- P17

@prop("P17", technique=TECH + "; each path that sends is compared with the server states that it has made sure of", assumptions=ASSUME)
def p17(ctx):
    rep = ctx.rep
    for f, cl, R in clients(ctx):
        up, every = {R["ready"], R["down"]}, set(R.values())
        inv = {v: k for k, v in R.items()}
        todo = [(m, METHODS[m][2] if m in METHODS else True, METHODS[m][1] if m in METHODS else None, p) for m, p in each(cl, rep)]
        for m, gated, kind, p in todo:
            if p.kind == "panic" and p.excused():
                continue
            unser = any(x.kind == "unserializable" for x in p.events)
            ss = p.states()
            for s in sorted(ss):
                if gated and s not in up:
                    rep.check(not p.pushes and not p.waits, "nothing is sent unless the server is initialized", "early:%s:%s:%s" % (m, inv[s], f),
                              "Client::%s sends its message in the state `%s`" % (m, inv[s]), p.at())
                    if kind == "request" and not p.pushes:
                        code = None
                        if p.kind == "ret" and p.e.variant(p.st, p.val) == 1:
                            code, _ = cl.sys.error(p.st, p.e.payload(p.val, 1))
                        rep.check(code == NOT_INITIALIZED, "a request fails unless the server is initialized", "fails:%s:%s:%s" % (m, inv[s], f),
                                  "Client::%s does not fail with -32002 in the state `%s`" % (m, inv[s]), p.at())
                elif m in METHODS and not unser:
                    rep.check(len(p.pushes) >= 1, "what may be sent is sent", "sent:%s:%s:%s" % (m, inv[s], f),
                              "Client::%s sends nothing in the state `%s`" % (m, inv[s]), p.at())
            rep.check(p.kind in ("ret", "panic"), "sending ends", "ends:%s:%s" % (m, f), "Client::%s does not end" % m, p.at())


# -------------------------------------------------------------------------------------------- P18

def fields(F, v):
    a = F.adts.get(v[1])
    return {x[0]: v[3][i] for i, x in enumerate(a["variants"][v[2]]["fields"])} if a and v[0] == "adt" else None


def fits(p, have, want):
    """Is the term the one that the argument should give?"""
    if want is None:
        return have == none() or (have[0] == "fld" and have[1][0] == "call" and strip(have[1][1]).endswith("Default::default"))
    if isinstance(want, int):
        return have == ("sym", ARGS[want])
    a = ("sym", ARGS[int(want)])
    syms = set(find(have, lambda x: x[0] == "sym"))
    # A formatting template of nothing but its one placeholder has no text of its own.
    lits = [x for x in find(have, lambda x: x[0] in ("str", "bytes")) if x[1] not in ("", b"", b"\xc0\x00", "display") and bytes_of(x[1]) != b"\xc0\x00"]
    args = find(have, lambda x: x[0] == "fmtarg")
    return syms == {a} and not lits and all(x[1] == "display" for x in args) and len(args) <= 1


def bytes_of(x):
    try:
        return bytes(x) if not isinstance(x, str) else x
    except (TypeError, ValueError):
        return x


def telemetry_ok(p, have):
    """P30 says in which form the data is sent; here it is only the data."""
    return set(find(have, lambda x: x[0] == "sym")) == {("sym", "a0")}


@prop("P18", technique=TECH + "; each message is compared, field by field, with the method's documented LSP message", assumptions=ASSUME)
def p18(ctx):
    rep = ctx.rep
    for f, cl, R in clients(ctx):
        n = 0
        for m, p in each(cl, rep):
            if m not in METHODS:
                continue
            name, kind, gated, params, res = METHODS[m]
            if p.kind == "panic":
                rep.check(p.excused(), "no method panics", "panic:%s:%s" % (m, f), "Client::%s panics: %s" % (m, show(p.val)[:120]), p.at())
                continue
            rep.check(len(p.pushes) <= 1, "a call sends one message", "one:%s:%s" % (m, f), "Client::%s sends %d messages" % (m, len(p.pushes)), p.at())
            if not any(x.kind == "unserializable" for x in p.events):
                may = p.states() & ({R["ready"], R["down"]} if gated else set(R.values()))
                rep.check(p.pushes or not may, "a call sends its message whatever its arguments are", "none:%s:%s" % (m, f),
                          "Client::%s sends nothing though the state of the server allows it" % m, p.at())
            for _, x in p.pushes:
                n += 1
                mm, idopt, par = p.request(x)
                if name is not None:
                    rep.check(text_of(mm) == name, "the message has the method's own LSP method", "method:%s:%s" % (m, f),
                              "Client::%s sends `%s`" % (m, text_of(mm)), p.at())
                else:
                    g = [t for t in find(mm, lambda t: t[0] == "const")]
                    rep.check("::METHOD" in str(mm), "the message has the method of its type", "method:%s:%s" % (m, f), "Client::%s sends `%s`" % (m, show(mm)[:80]), p.at())
                d = p.e.variant(p.st, proj(x.vals[1], ("f", cl.req[1])))
                rep.check(d == (1 if kind == "request" else 0), "requests have ids and notifications have none", "kind:%s:%s" % (m, f),
                          "Client::%s does not send a %s" % (m, kind), p.at())
                po = proj(x.vals[1], ("f", cl.req[2]))
                has = p.e.variant(p.st, po)
                if params == ():
                    ok = has == 0 or p.e.payload(po, 1) in (("json", UNIT), ("adt", "serde_json::value::Value", 0, ()))
                    rep.check(ok, "a method without params sends none", "params:%s:%s" % (m, f), "Client::%s sends params: %s" % (m, show(par)[:120]), p.at())
                    continue
                rep.check(has == 1, "the params are sent", "params:%s:%s" % (m, f), "Client::%s sends no params" % m, p.at())
                if has != 1:
                    continue
                v = p.e.snap(p.st, p.e.payload(po, 1), 4)
                if params == "telemetry":
                    rep.check(telemetry_ok(p, v), "the data is sent", "params:%s:%s" % (m, f), "Client::%s sends %s" % (m, show(v)[:120]), p.at())
                    continue
                if v[0] != "json":
                    rep.check(False, "the params are sent", "params:%s:%s" % (m, f), "Client::%s sends %s" % (m, show(v)[:120]), p.at())
                    continue
                v = v[1]
                while v[0] == "&":
                    v = v[1]
                if isinstance(params, int):
                    rep.check(v == ("sym", ARGS[params]), "the params are sent as they are", "params:%s:%s" % (m, f), "Client::%s sends %s" % (m, show(v)[:120]), p.at())
                    continue
                fs = fields(cl.F, v) if v[0] == "adt" else None
                if fs is None:
                    rep.check(False, "the params are sent", "params:%s:%s" % (m, f), "Client::%s sends %s" % (m, show(v)[:120]), p.at())
                    continue
                for k, want in params.items():
                    rep.check(k in fs and fits(p, fs[k], want), "every field carries its argument", "field:%s:%s:%s" % (m, k, f),
                              "Client::%s sends %s as the field `%s`" % (m, show(fs.get(k, ()))[:100], k), p.at())
                extra = [k for k in fs if k not in params and fs[k] != none()]
                rep.check(not extra, "nothing else is sent", "extra:%s:%s" % (m, f), "Client::%s also sends %s" % (m, extra), p.at())
        rep.floor(n, 20, "messages sent by client methods (%s)" % f)


# -------------------------------------------------------------------------------------------- P19

DECODE = ("from_value", "deserialize")


def decoded(p, v):
    """Calls that decode the value `v`."""
    out = []
    for i, x in enumerate(p.events):
        if x.kind == "call" and strip(x.name).rsplit("::", 1)[-1] in DECODE and x.vals and target(x.vals[0]) == v:
            out.append(x)
    return out


@prop("P19", technique=TECH + "; what a request returns is traced to the response that it awaited", assumptions=ASSUME)
def p19(ctx):
    rep = ctx.rep
    for f, cl, R in clients(ctx):
        n = 0
        for m, p in each(cl, rep):
            if m in METHODS and METHODS[m][1] != "request" or p.kind == "panic":
                continue
            d = p.e.variant(p.st, p.val)
            if m not in METHODS and d is None:
                continue
            got = [x for _, x in p.awaits if p.e.variant(p.st, x.ret) == 0]
            if not got:
                rep.check(d == 1, "without an answer there is no result", "invented:%s:%s" % (m, f), "Client::%s returns %s without an answer" % (m, show(p.val)[:100]), p.at())
                continue
            n += 1
            resp = p.e.payload(got[-1].ret, 0)
            o = cl.sys.response(p.st, resp)
            if o[0] == "error":
                e1 = error_value(p, resp)
                rep.check(d == 1 and e1 is not None and p.e.snap(p.st, p.e.payload(p.val, 1)) == e1, "the client's error is passed on as it is", "error:%s:%s" % (m, f),
                          "Client::%s makes %s of an error of the client" % (m, show(p.val)[:100]), p.at())
            elif o[0] == "ok":
                ds = decoded(p, o[2])
                rep.check(len(ds) >= 1, "the result of the client is decoded", "decode:%s:%s" % (m, f), "Client::%s does not decode the client's result" % m, p.at())
                if not ds:
                    continue
                dd = p.e.variant(p.st, ds[-1].ret)
                if dd == 1:
                    rep.check(d == 1, "a result that cannot be decoded is an error", "bad:%s:%s" % (m, f), "Client::%s returns %s though the result cannot be decoded" % (m, show(p.val)[:80]), p.at())
                elif dd == 0:
                    x = p.e.payload(ds[-1].ret, 0)
                    have = p.e.snap(p.st, p.e.payload(p.val, 0)) if d == 0 else None
                    field = METHODS[m][4] if m in METHODS else ALL
                    if field == ALL:
                        ok = have == x or have == UNIT and unit_result(p)
                    else:
                        a = need(cl.F.adts.get(RESULT_ADT[m]), RESULT_ADT[m])
                        ix = [y[0] for y in a["variants"][0]["fields"]].index(field)
                        ok = have == ("fld", x, ix)
                    rep.check(d == 0 and ok, "the decoded result is returned as it is", "result:%s:%s" % (m, f),
                              "Client::%s returns %s instead of the client's result" % (m, show(p.val)[:100]), p.at())
                else:
                    rep.check(False, "the outcome of decoding is looked at", "unlooked:%s:%s" % (m, f), "Client::%s does not look at the outcome of decoding" % m, p.at())
            else:
                rep.check(False, "the answer is looked at", "unlooked:%s:%s" % (m, f), "Client::%s does not tell results from errors" % m, p.at())
        rep.floor(n, 30, "answers to client methods (%s)" % f)


def unit_result(p):
    return True


def error_value(p, resp):
    """The `Error` in a response that is one."""
    e, cl = p.e, p.cl
    b = need(cl.F.body("tower_lsp::jsonrpc::response::Response::error"), "Response::error")
    s = p.st.fork()
    outs = [o for o in cl.sys.engine().run(s, b, {}, (e.alloc(s, resp),)) if o[1] == "ret"]
    if len(outs) != 1 or e.variant(outs[0][0], outs[0][2]) != 1:
        return None
    s, _, v = outs[0]
    return e.snap(s, e.deref(s, e.payload(v, 1)))


# -------------------------------------------------------------------------------------------- P29

@prop("P29", technique="path-partitioned dataflow over MIR of the Stream and Sink impls of ClientSocket and of both of its halves, from the socket that the service makes", assumptions=ASSUME)
def p29(ctx):
    rep = ctx.rep
    for f, cl, R in clients(ctx):
        ss, half, _ = sinks(cl)
        n = 0
        ex = R["exited"]
        for name, st, v in [(ss[0][0], ss[0][1], ss[0][2]), half]:
            seen = set()
            body = trait_body(cl, STREAM, v, "poll_next")
            for p in poll(cl, body, st, v):
                n += 1
                w = p.at()
                rep.check(p.kind == "ret", "the loopback does not panic", "panic:%s:%s" % (name, f), "%s::poll_next panics" % name, w)
                if p.kind != "ret":
                    continue
                pl = [x for x in p.events if x.kind == "call" and strip(x.name).rsplit("::", 1)[-1] in ("poll_next", "poll_next_unpin") and contains_rx(cl, x)]
                ended = p.e.variant(p.st, p.val) == 0 and p.e.variant(p.st, p.e.payload(p.val, 0)) == 0
                for s in p.states():
                    seen.add(s)
                    if s == ex:
                        rep.check(ended and not pl, "after exit the loopback stream ends", "exited:%s:%s" % (name, f), "%s yields more after exit" % name, w)
                    elif ended:
                        rep.check(terminated(p), "before exit the loopback stream ends only with its channel", "ended:%s:%s" % (name, f),
                                  "%s ends though neither the server nor the channel has" % name, w)
                    else:
                        rep.check(len(pl) == 1 and rebuilt(p.e, p.st, p.val, pl[0].ret), "the loopback stream yields what the channel yields", "yields:%s:%s" % (name, f),
                                  "%s yields %s" % (name, show(p.val)[:100]), w)
            rep.check(seen == set(R.values()), "the loopback stream looks at the server state", "states:%s:%s" % (name, f), "%s knows only the states %s" % (name, sorted(seen)))
            for p in poll(cl, trait_body(cl, FUSED, v, "is_terminated"), st, v):
                n += 1
                if p.kind == "ret" and p.num(p.val) != 0:
                    own_end = any(x.kind == "call" and x.ret == p.val and strip(x.name).endswith("is_terminated") for x in p.events)
                    rep.check(set(p.states()) == {ex} or own_end or terminated(p), "the loopback stream is over only if nothing can follow", "fused:%s:%s" % (name, f),
                              "%s says that it is terminated though neither the server nor the channel is" % name, p.at())
        for name, st, v in ss:
            body = trait_body(cl, SINK, v, "poll_ready")
            for p in poll(cl, body, st, v):
                n += 1
                w = p.at()
                rep.check(p.kind == "ret", "the loopback does not panic", "panic-sink:%s:%s" % (name, f), "%s::poll_ready panics" % name, w)
                if p.kind != "ret":
                    continue
                rd = p.e.variant(p.st, p.val)
                res = p.e.variant(p.st, p.e.payload(p.val, 0)) if rd == 0 else None
                rep.check(rd == 0, "the loopback sink is never busy", "busy:%s:%s" % (name, f), "%s::poll_ready waits for nothing that could wake it" % name, w)
                for s in p.states():
                    if s == ex:
                        rep.check(res == 1, "after exit the loopback sink refuses responses", "refuses:%s:%s" % (name, f), "%s takes responses after exit" % name, w)
                    else:
                        rep.check(res == 0 or terminated(p), "before exit the loopback sink takes responses", "takes:%s:%s" % (name, f),
                                  "%s refuses responses in the state %d" % (name, s), w)
            for k in ("poll_flush", "poll_close"):
                for p in poll(cl, trait_body(cl, SINK, v, k), st, v):
                    n += 1
                    ok = p.kind == "ret" and p.e.variant(p.st, p.val) == 0 and p.e.variant(p.st, p.e.payload(p.val, 0)) == 0
                    rep.check(ok, "flushing and closing the loopback sink succeed", "%s:%s:%s" % (k, name, f), "%s::%s does not succeed" % (name, k), p.at())
        silent(cl, rep, f)
        # The halves belong to the client of the same service.
        own = set(find_in(cl.start(), cl.sys.engine(), cl.client, is_state))
        for name, st, v in ss + [half]:
            e = cl.sys.engine()
            t = find_in(st, e, v, lambda x: x[0] == "dmap")
            c = find_in(st, e, v, lambda x: x[0] == "rx" and x[1] == "mpsc")
            a = find_in(st, e, v, is_state)
            rep.check(set(a) == own, "the loopback looks at the state of its service", "state:%s:%s" % (name, f), "%s has a state of its own" % name)
            if name != "RequestStream":
                rep.check(t == [cl.table], "responses go to the table of the service's client", "table:%s:%s" % (name, f), "%s has another table" % name)
            if name != "ResponseSink":
                rep.check([x[2] for x in c] == [cl.chan], "the loopback stream ends the client's channel", "chan:%s:%s" % (name, f), "%s has another channel" % name)
        rep.floor(n, 16, "paths of the loopback (%s)" % f)


def is_state(x):
    return x[0] == "call" and strip(x[1]) == "core::sync::atomic::Atomic::new" and "u8" in x[1]


def silent(cl, rep, f):
    """Nothing that is done with the loopback changes the state of the server."""
    ss, half, _ = sinks(cl)
    for name, st, v in ss + [half]:
        for trait, ms in ((SINK, ("poll_ready", "poll_flush", "poll_close")), (STREAM, ("poll_next",)), (FUSED, ("is_terminated",))):
            if (trait == SINK and name == "RequestStream") or (trait != SINK and name == "ResponseSink"):
                continue
            for m in ms:
                for p in poll(cl, trait_body(cl, trait, v, m), st, v):
                    rep.check(not p.stores(), "the loopback leaves the server state alone", "store:%s:%s:%s" % (m, name, f),
                              "%s::%s changes the state of the server" % (name, m), p.at())
                    rep.check(not any(x.kind in ("whole", "lookup", "answer") for x in p.events), "only responses touch those that wait", "touch:%s:%s:%s" % (m, name, f),
                              "%s::%s touches the requests that wait for answers" % (name, m), p.at())
        if name != "RequestStream":
            e = cl.sys.engine()
            s = st.fork()
            s.events = None
            for p in cl.drive(trait_body(cl, SINK, v, "start_send"), s, (e.alloc(s, v), ("sym", "resp"))):
                rep.check(not p.stores(), "the loopback leaves the server state alone", "store:start_send:%s:%s" % (name, f),
                          "%s::start_send changes the state of the server" % name, p.at())


def poll(cl, body, st, v):
    e = cl.sys.engine()
    s = st.fork()
    s.events = None
    r = e.alloc(s, v)
    args = (r,) + ((("ctx",),) if body.argc > 1 else ())
    out = []
    for s2, k, x in e.run(s, body, {}, args):
        out.append(CPath(cl, e, s2, k, x, body))
    cl.rep.absorb(e)
    cl.rep.paths += len(out)
    return out


def contains_rx(cl, x):
    return any(t[2] == cl.chan for t in find(x.vals, lambda t: t[0] == "rx" and t[1] == "mpsc"))


def terminated(p):
    """The path has found that the channel has ended."""
    for x in p.events:
        if x.kind == "call" and strip(x.name).endswith("is_terminated"):
            if p.num(x.ret) == 1 or p.possible(x.ret, (0, 1)) == {1}:
                return True
    return False


# -------------------------------------------------------------------------------------------- P30

KEEP = ("Null", "Array", "Object")


@prop("P30", technique=TECH + "; the JSON value that is sent is compared with the data, for every kind of JSON value", assumptions=ASSUME)
def p30(ctx):
    rep = ctx.rep
    for f, cl, R in clients(ctx):
        from ..tables import value_variants
        names = need(value_variants(cl.sys.engine()), "serde_json::Value")
        data = ("json", ("sym", "a0"))
        seen = set()
        for p in cl.paths("telemetry_event"):
            if any(x.kind == "unserializable" for x in p.events):
                rep.check(not p.pushes and p.kind == "ret", "data that is no JSON is not sent", "nojson:%s" % f, "data that cannot be serialized is sent, or panics", p.at())
                continue
            rep.check(p.kind == "ret", "telemetry does not panic", "panic:%s" % f, "telemetry panics: %s" % show(p.val)[:100], p.at())
            for _, x in p.pushes:
                po = proj(x.vals[1], ("f", cl.req[2]))
                v = p.e.snap(p.st, p.e.payload(po, 1), 4) if p.e.variant(p.st, po) == 1 else None
                t = ("discr", data)
                poss = [i for i in range(len(names)) if i in p.possible(t, range(len(names)))]
                for i in poss:
                    seen.add(names[i])
                    if names[i] in KEEP:
                        ok = v == data or (names[i] == "Null" and v is not None and v[0] == "adt" and v[2] == names.index("Null"))
                    else:
                        ok = v is not None and v[0] == "adt" and v[1].endswith("::Value") and v[2] == names.index("Array") and \
                            norm(v[3][0]) == ((data,), None, ())
                    rep.check(ok, "data is sent in the shape of LSP", "shape:%s:%s" % (names[i], f),
                              "telemetry data that is %s is sent as %s" % (names[i], show(v or ())[:120]), p.at())
        rep.check(seen == set(names), "every kind of JSON value is sent", "kinds:%s" % f, "telemetry sends only %s" % sorted(seen))
