"""Rules about the language server service: lifecycle, dispatch, responses, cancellation.

Every rule is judged on all paths of one call of the service (`LspService as Service<Request>`) with
a request of a given method name and unknown id, params and server state, from the routing table
through the layers and the handler, driven until the future resolves.
"""
import os

from ..engine import *
from ..lib import LS, Path
from ..models import strip
from ..system import Missing, System, need
from . import prop

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = ("path-partitioned dataflow over MIR: every path of LspService::call -> router -> layers -> handler, "
        "per method name of the routing table that the registration code builds; typestate of the server state, "
        "effect order (state writes, handler calls, replies)")
ASSUME = ["tower's BoxService forwards calls, futures' Abortable, map and ready behave as documented",
          "the runtime polls the returned future; dropping a response future early is outside these rules"]


def methods():
    out = {}
    for line in open(os.path.join(HERE, "..", "..", "spec", "methods.txt")):
        if line.strip() and not line.startswith("#"):
            m, h, k = line.split()
            out[m] = (h, k)
    return out


SPEC = methods()
CANCEL, EXIT = "$/cancelRequest", "exit"
UNKNOWN = ("no/such/method", "$/noSuchMethod", "")
INVALID_REQUEST, METHOD_NOT_FOUND, INVALID_PARAMS, INTERNAL = -32600, -32601, -32602, -32603
NOT_INITIALIZED, CANCELLED = -32002, -32800


class CustomSystem(System):
    """A service to which custom methods were added through the builder."""

    def __init__(self, F, names, kind="request", **kw):
        System.__init__(self, F, **kw)
        self.names, self.kind_ = names, kind

    def build(self):
        st, b = System.build(self)
        n = "tower_lsp::service::LspServiceBuilder::<S>::custom_method"
        body = need(self.F.body(n), n)
        X, Y = ("adt", "user::Params", ()), ("adt", "user::Output", ())
        E = ("adt", "tower_lsp::jsonrpc::error::Error", ())
        R = ("adt", RESULT, (Y, E)) if self.kind_ == "request" else ("tuple", ())
        for name in self.names:
            e = self.engine()
            env = {"S": ("param", "S"), "P": ("tuple", (X,)), "R": R, "F": ("adt", "user::Callback", ())}
            outs = [o for o in e.run(st.fork(), body, env, (b, ("str", name), ("sym", "callback"))) if o[1] == "ret"]
            if len(outs) != 1:
                raise Limit("%d outcomes of custom_method" % len(outs))
            st, _, b = outs[0]
        return st, b


def roles(ctx, f):
    """The five server states, told apart by how the service uses them."""
    sys = ctx.sys[f]
    if hasattr(sys, "roles"):
        return sys.roles
    sys.make()
    r = {}
    inits = []
    for x in sys.builder_state.trace():
        n = strip(x.name) if x.kind == "call" else ""
        if n == "core::sync::atomic::Atomic::new" and "u8" in x.name:
            v = sys.eng.ev(sys.builder_state, x.vals[0])
            inits.append(v[1] if v[0] == "int" else None)
    if len(inits) != 1 or inits[0] is None:
        raise Missing("the one initial server state (found %r)" % (inits,))
    r["fresh"] = inits[0]
    ex = set()
    for p in sys.service_paths("no/such/method")[0]:
        if p.outcome()[0] == "exited":
            ex |= p.states()
    if len(ex) != 1:
        raise Missing("the exited state: %r" % sorted(ex))
    r["exited"] = ex.pop()
    start, done = set(), set()
    for p in sys.service_paths("initialize")[0]:
        hs = [i for i, n, _ in p.handlers() if n == "initialize"]
        if hs:
            start |= {n for i, op, a, n in p.stores() if i < hs[0]}
            if p.outcome()[0] == "ok":
                done |= {n for i, op, a, n in p.stores() if i > hs[0]}
    down = set()
    for p in sys.service_paths("shutdown")[0]:
        hs = [i for i, n, _ in p.handlers() if n == "shutdown"]
        if hs:
            down |= {n for i, op, a, n in p.stores() if i < hs[0]}
    for k, s in (("starting", start), ("ready", done), ("down", down)):
        if len(s) != 1 or None in s:
            raise Missing("the one value of the state `%s` (found %r)" % (k, sorted(map(str, s))))
        r[k] = s.pop()
    if len(set(r.values())) != 5:
        raise Missing("five distinct server states: %r" % r)
    sys.roles = r
    return r


def is_request(p):
    """True, False or None (either), from what the path knows about the message's id."""
    d = p.e.variant(p.st, p.rid)
    return None if d is None else d == 1


def kinds(p):
    k = is_request(p)
    return (True, False) if k is None else (k,)


def rid_value(p):
    return ("fld", ("as", p.rid, 1), 0)


def answers(p, code):
    """Does the path answer requests with `code` under the request's id, and notifications with nothing?"""
    o = p.outcome()
    for k in kinds(p):
        if k and not (o[0] == "error" and o[2] == code and o[1] == rid_value(p)):
            return False
        if not k and o[0] != "none":
            return False
    return True


def outcome_str(p):
    o = p.outcome()
    if o[0] == "error":
        return "error %s" % (o[2] if isinstance(o[2], int) else "of the handler")
    return o[0]


def kind_str(p):
    return {True: "request", False: "notification", None: "message"}[is_request(p)]


def key(f, name, p, what):
    return "%s:%s:%s:%s" % (what, name or "<empty>", kind_str(p), f)


def each(ctx, f, names):
    for n in names:
        ps, rid, par = ctx.sys[f].service_paths(n, ctx.rep)
        ctx.rep.floor(len(ps), 2, "paths of `%s`" % n)
        for p in ps:
            yield n, p


def features(ctx):
    for f in ctx.features:
        roles(ctx, f)
        yield f, ctx.sys[f], roles(ctx, f)


def consistent(p, s):
    """The path is one that a single-threaded observer sees in server state `s`."""
    return p.states() & s


def aborted(p):
    return any(x.kind == "await" and x.name == "abortable" for x in p.events)


# ------------------------------------------------------------------------- pending request table

TABLE = "dashmap::DashMap::"


def table_ops(p):
    """Accesses of concurrent maps: (event index, operation, map, key, event)."""
    out = []
    for i, x in enumerate(p.events):
        n = strip(x.name) if x.kind == "call" else ""
        if n.startswith("dashmap::DashMap::"):
            op = n[len("dashmap::DashMap::"):]
            k = x.vals[1] if len(x.vals) > 1 else None
            out.append((i, op, x.vals[0], pointee(p, k) if k else None, x))
        elif n.startswith("dashmap::mapref::entry::"):
            op = n[len("dashmap::mapref::entry::"):]
            src = entry_source(x.vals[0])
            if src:
                out.append((i, op, src[0], pointee(p, src[1]), x))
    return out


def pointee(p, v):
    if isinstance(v, tuple) and v and v[0] == "ref":
        try:
            return p.e.snap(p.st, p.e.deref(p.st, v))
        except Exception:
            return v
    if isinstance(v, tuple) and v and v[0] == "&":
        return v[1]
    return v


def entry_source(v):
    """The map and key that an entry value was looked up with."""
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] == "call" and strip(v[1]) == "dashmap::DashMap::entry":
        return v[2][0], v[2][1]
    for x in v:
        if isinstance(x, tuple):
            r = entry_source(x)
            if r:
                return r
    return None


def reservation(p):
    """How the path treated the id of the request in the table of requests in progress.

    Returns (known_absent, known_present, inserts, removes, table): event indices of insertions and
    removals for the request's id, and what the path knows about the id before it.
    """
    idv = rid_value(p)
    absent, present, ins, rem, maps = [], [], [], [], set()
    for i, op, m, k, x in table_ops(p):
        if k != idv:
            continue
        maps.add(strip_map(m))
        if op == "entry":
            d = p.e.variant(p.st, x.ret)
            (absent if d == 1 else present if d == 0 else []).append(i)
        elif op == "contains_key":
            d = p.num(x.ret)
            (absent if d == 0 else present if d == 1 else []).append(i)
        elif op in ("get", "get_mut", "view"):
            d = p.e.variant(p.st, x.ret)
            (absent if d == 0 else present if d == 1 else []).append(i)
        elif op == "insert":
            d = p.e.variant(p.st, x.ret)
            ins.append((i, x.vals[2]))
            (absent if d == 0 else present if d == 1 else []).append(i)
        elif op in ("VacantEntry::insert", "VacantEntry::insert_entry"):
            ins.append((i, x.vals[1]))
        elif op in ("Entry::or_insert", "Entry::or_insert_with", "Entry::insert", "Entry::insert_entry"):
            ins.append((i, x.vals[1]))
        elif op in ("OccupiedEntry::insert", "OccupiedEntry::replace_entry"):
            ins.append((i, x.vals[1]))
        elif op in ("remove", "remove_if", "remove_if_mut") or op.startswith("OccupiedEntry::remove"):
            rem.append(i)
    return absent, present, ins, rem, maps


def cells(p):
    """What the path accesses: the states ("u8" atomics) and the tables, by the places of the code where they were made."""
    states, tables = set(), set()
    for x in p.events:
        if x.kind != "call" or not x.vals:
            continue
        n = strip(x.name)
        if n.startswith("core::sync::atomic::Atomic::") and "u8" in x.name and not n.endswith("::new"):
            states |= set(made(x.vals[0], "core::sync::atomic::Atomic::new"))
        elif n.startswith("dashmap::DashMap::") and not n.endswith("::new"):
            tables |= set(made(x.vals[0], "dashmap::DashMap::new"))
    return states, tables


def made(v, how, d=0):
    if not isinstance(v, tuple) or not v or d > 8:
        return []
    if v[0] == "call" and len(v) > 3 and strip(v[1]) == how:
        return [v]
    return [y for x in v for y in made(x, how, d + 1)]


def shares(rep, f, sys, names, which, what, also=()):
    """Every method looks at the same one state, or at the same one table."""
    seen = {}
    for s, ns in ((sys, names),) + tuple(also):
        for n in ns:
            for p in s.service_paths(n, rep)[0]:
                for c in cells(p)[which]:
                    seen.setdefault(c, []).append((n, p.where()))
    main = max(seen, key=lambda c: len(seen[c]), default=None)
    for c, l in seen.items():
        for n, w in l if c != main else []:
            rep.check(False, "all methods share the one " + what, "shared:%s:%s:%s" % (what, n, f), "`%s` looks at a %s of its own" % (n, what), w)
    rep.check(main is not None, "all methods share the one " + what, "shared:%s:%s" % (what, f), "no method looks at the " + what)


def with_custom(ctx, f):
    """A service with a custom method, and its name."""
    return [(CustomSystem(ctx.F[f], ["custom/request"]), ["custom/request"])]


def strip_map(m):
    while isinstance(m, tuple) and m and m[0] in ("&", "ref") and isinstance(m[1], tuple) and m[0] == "&":
        m = m[1]
    return m


def duplicate(p):
    a, pr, ins, rem, maps = reservation(p)
    return bool(pr) and not (a and a[0] < pr[0])


# --------------------------------------------------------------------------- parameters of the call

def params_verdict(p, par, takes):
    """True: the params decode; False: they do not; None: the path does not know."""
    d = p.e.variant(p.st, par)
    if not takes:
        return None if d is None else d == 0
    val = ("fld", ("as", par, 1), 0)
    for i, x in enumerate(p.events):
        if x.kind != "call" or not x.vals:
            continue
        n = strip(x.name)
        if n.endswith(("::from_value", "::deserialize")) and contains(x.vals, val):
            v = p.e.variant(p.st, x.ret)
            if v is not None:
                return v == 0
    if d == 0:
        return False
    return None


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(contains(y, x) for y in t)
    return False


# ------------------------------------------------------------------------------------- lifecycle

@prop("P07", technique=TECH, assumptions=ASSUME)
def p07(ctx):
    """Nothing but initialize and exit is served before initialize has succeeded."""
    rep = ctx.rep
    for f, sys, R in features(ctx):
        shares(rep, f, sys, list(SPEC) + [EXIT], 0, "state of the server", with_custom(ctx, f))
        before = {R["fresh"], R["starting"]}
        poll_ready(ctx, f, sys, R, before)
        gated = [n for n in SPEC if n != "initialize"]
        custom = CustomSystem(ctx.F[f], ["custom/request"])
        custom_n = CustomSystem(ctx.F[f], ["custom/notification"], kind="notification")
        for s, names in ((sys, gated), (custom, ["custom/request"]), (custom_n, ["custom/notification"])):
            n_req = 0
            for n in names:
                ps, rid, par = s.service_paths(n, rep)
                seen = set()
                for p in ps:
                    for i, h, _ in p.handlers():
                        # Also on paths that race with another thread: the state must have been seen as ready.
                        ok = any(p.possible(t) == {R["ready"]} or (n == "shutdown" and p.possible(t) <= {R["ready"]})
                                 for j, t in p.loads if j < i)
                        rep.check(ok, "a handler runs only after the state was read as initialized", key(f, n, p, "handler-gate"),
                                  "`%s` reaches the handler `%s` without having seen the initialized state" % (n, h), p.where())
                    if not consistent(p, before):
                        continue
                    seen |= p.states() & before
                    n_req += 1
                    rep.check(answers(p, NOT_INITIALIZED), "requests before initialize are answered -32002, notifications dropped",
                              key(f, n, p, "gate"), "before initialize, a %s `%s` has the outcome: %s" % (kind_str(p), n, outcome_str(p)), p.where())
                    rep.check(not p.handlers(), "no handler runs before initialize", key(f, n, p, "no-handler"),
                              "before initialize, `%s` runs a handler" % n, p.where())
                    rep.check(not p.stores(), "messages before initialize do not change the server state", key(f, n, p, "no-store"),
                              "before initialize, `%s` changes the server state" % n, p.where())
                rep.check(seen == before, "both states before initialization are covered", "cover:%s:%s" % (n, f),
                          "`%s` has no path in the states %s" % (n, sorted(before - seen)))
            rep.floor(n_req, 2 * len(names), "gated paths")
        # The server does accept initialize and exit, and becomes ready by initialize alone.
        ps, _, _ = sys.service_paths("initialize", rep)
        rep.check(any(R["fresh"] in p.states() and p.handlers() for p in ps), "initialize is served in a fresh server",
                  "initialize-served:" + f, "no path of `initialize` on a fresh server reaches the handler")
        for n in list(SPEC) + [CANCEL, EXIT] + list(UNKNOWN):
            for p in sys.service_paths(n, rep)[0]:
                for i, op, old, new in p.stores():
                    rep.check(new != R["ready"] or n == "initialize", "only initialize makes the server ready", key(f, n, p, "ready"),
                              "`%s` makes the server ready" % n, p.where())
                    rep.check(new is not None, "state writes are constants", key(f, n, p, "const"), "`%s` writes an unknown state" % n, p.where())


@prop("P08", technique=TECH, assumptions=ASSUME)
def p08(ctx):
    """initialize: at most one at a time, at most one success, failures can be retried."""
    rep = ctx.rep
    for f, sys, R in features(ctx):
        ps, rid, par = sys.service_paths("initialize", rep)
        ran = okd = dup = 0
        for p in ps:
            w = p.where()
            st = p.stores()
            hs = [(i, x) for i, n, x in p.handlers() if n == "initialize"]
            rep.check(len(p.handlers()) == len(hs) <= 1, "at most one handler call per initialize", key(f, "initialize", p, "once"),
                      "initialize runs more than one handler", w)
            fresh = any(p.possible(t) == {R["fresh"]} for j, t in p.loads)
            cas = [(i, a, b) for i, op, a, b in st if op.startswith("compare_exchange") and a == R["fresh"] and b == R["starting"]]
            if hs:
                ran += 1
                i = hs[0][0]
                mark = [j for j, op, a, b in st if b == R["starting"] and j < i and j < p.returned]
                rep.check(bool(mark), "the server is marked as initializing before the handler runs, in the call itself",
                          key(f, "initialize", p, "mark"), "the initialize handler runs without the server being marked as initializing in `call`", w)
                rep.check(bool(cas) or fresh, "the handler runs only on a fresh server", key(f, "initialize", p, "fresh"),
                          "the initialize handler runs without the fresh state having been seen", w)
                if mark:
                    rep.check(any(j < mark[0] for j, t in p.loads if p.possible(t) == {R["fresh"]}) or bool(cas),
                              "the mark replaces the fresh state only", key(f, "initialize", p, "mark-fresh"),
                              "the server is marked as initializing without having been fresh", w)
            for j, op, a, b in st:
                rep.check(op != "compare_exchange_weak", "no change of the state is left to an exchange that may fail spuriously", key(f, "initialize", p, "weak"),
                          "initialize changes the state by a weak exchange whose result is not looked at", w)
            back = [(j, op, a, b) for j, op, a, b in p.stores(tried=True) if b == R["fresh"]]
            done = [(j, op, a, b) for j, op, a, b in p.stores(tried=True) if b == R["ready"]]
            if any(b == R["starting"] for j, op, a, b in st):
                o = p.outcome()
                if o[0] == "ok":
                    okd += 1
                    rep.check(len(done) == 1 and not back and hs and done[0][0] > hs[0][0], "success makes the server ready, after the handler and before the reply",
                              key(f, "initialize", p, "ready"), "a successful initialize does not make the server ready exactly once", w)
                else:
                    rep.check(bool(back) and not done, "failure makes the server fresh again", key(f, "initialize", p, "retry"),
                              "initialize ends with %s but the server does not become fresh again" % outcome_str(p), w)
                    if done:
                        rep.check(False, "failure never makes the server ready", key(f, "initialize", p, "ready-on-error"),
                                  "initialize ends with %s and the server becomes ready" % outcome_str(p), w)
                for j, op, a, b in back + done:
                    rep.check(op.startswith("compare_exchange") and a == R["starting"] or j < p.returned, "the result replaces the initializing state only",
                              key(f, "initialize", p, "cas"), "the end of initialize overwrites the state unconditionally", w)
            if consistent(p, {R["starting"], R["ready"], R["down"]}) and R["fresh"] not in p.states():
                dup += 1
                if is_request(p) is not False:
                    rep.check(answers(p, INVALID_REQUEST) or is_request(p) is None and p.outcome()[0] == "error" and p.outcome()[2] == INVALID_REQUEST,
                              "initialize on a server that is not fresh is answered -32600", key(f, "initialize", p, "dup"),
                              "initialize on a server that is not fresh has the outcome: %s" % outcome_str(p), w)
                else:
                    rep.check(p.outcome()[0] == "none", "notifications are not answered", key(f, "initialize", p, "dup-n"),
                              "an initialize notification is answered", w)
                rep.check(not hs and not st, "initialize on a server that is not fresh has no effect", key(f, "initialize", p, "dup-effect"),
                          "initialize on a server that is not fresh runs the handler or changes the state", w)
        rep.floor(ran, 3, "paths that run the initialize handler")
        rep.floor(okd, 1, "paths on which initialize succeeds")
        rep.floor(dup, 3, "paths of repeated initialize")
        # Only initialize may leave the fresh or the initializing state (exit apart).
        for n in list(SPEC) + [CANCEL] + list(UNKNOWN):
            for p in sys.service_paths(n, rep)[0]:
                for i, op, a, b in p.stores():
                    rep.check(n == "initialize" or b not in (R["fresh"], R["starting"], R["ready"]), "no other method rewinds the state",
                              key(f, n, p, "rewind"), "`%s` moves the server back to an earlier state" % n, p.where())


@prop("P09", technique=TECH, assumptions=ASSUME)
def p09(ctx):
    """After shutdown only exit is served."""
    rep = ctx.rep
    for f, sys, R in features(ctx):
        shares(rep, f, sys, list(SPEC) + [EXIT], 0, "state of the server", with_custom(ctx, f))
        down = {R["down"]}
        poll_ready(ctx, f, sys, R, down)
        custom = CustomSystem(ctx.F[f], ["custom/request"])
        for s, names in ((sys, list(SPEC)), (custom, ["custom/request"])):
            for n in names:
                ps, rid, par = s.service_paths(n, rep)
                k = 0
                for p in ps:
                    if p.states() != down:
                        continue
                    k += 1
                    rep.check(answers(p, INVALID_REQUEST), "after shutdown, requests are answered -32600 and notifications dropped",
                              key(f, n, p, "down"), "after shutdown, a %s `%s` has the outcome: %s" % (kind_str(p), n, outcome_str(p)), p.where())
                    rep.check(not p.handlers(), "after shutdown, no handler runs", key(f, n, p, "down-handler"), "after shutdown, `%s` runs a handler" % n, p.where())
                    rep.check(not p.stores(), "after shutdown, only exit changes the state", key(f, n, p, "down-store"), "after shutdown, `%s` changes the state" % n, p.where())
                rep.floor(k, 1, "paths of `%s` after shutdown" % n)
            for n in names:
                for p in s.service_paths(n, rep)[0]:
                    for i, op, a, b in p.stores():
                        if b not in (R["down"], R["exited"]):
                            rep.check(cannot_replace(p, i, op, a, R["down"]), "nothing but exit leaves the shut-down state", key(f, n, p, "leave"),
                                      "`%s` can put a server that is shut down back to another state (%s at event %d)" % (n, op, i), p.where())
        ran = 0
        for p in sys.service_paths("shutdown", rep)[0]:
            hs = [i for i, n, x in p.handlers()]
            if hs:
                ran += 1
                rep.check(len(hs) == 1 and p.handlers()[0][1] == "shutdown", "shutdown runs its handler once", key(f, "shutdown", p, "once"),
                          "shutdown runs %d handlers" % len(hs), p.where())
                m = [j for j, op, a, b in p.stores() if b == R["down"]]
                rep.check(bool(m) and m[0] < hs[0] and m[0] < p.returned, "the server is shut down in the call itself, before the handler",
                          key(f, "shutdown", p, "mark"), "the shutdown handler runs, but `call` returned without marking the server as shut down", p.where())
        rep.floor(ran, 1, "paths that run the shutdown handler")
        for n in list(SPEC) + [CANCEL] + list(UNKNOWN):
            for p in sys.service_paths(n, rep)[0]:
                for i, op, a, b in p.stores():
                    rep.check(b != R["down"] or n == "shutdown", "only shutdown shuts the server down", key(f, n, p, "other"),
                              "`%s` shuts the server down" % n, p.where())
                    rep.check(b != R["down"] or any(p.possible(t) <= {R["ready"]} for j, t in p.loads if j < i) or a == R["ready"],
                              "shutdown replaces the initialized state only", key(f, n, p, "down-from"), "shutdown is accepted in another state than initialized", p.where())


def cannot_replace(p, i, op, a, s):
    """The write does not replace the state `s`: it expects another one, or is done by the call itself after another one was seen."""
    if op.startswith("compare_exchange") and a is not None and a != s:
        return True
    if i > p.returned:
        return False
    return any(j < i and s not in p.possible(t) for j, t in p.loads) and not any(j < i and b == s for j, o, _, b in p.stores())


@prop("P10", technique=TECH, assumptions=ASSUME)
def p10(ctx):
    """exit is terminal."""
    rep = ctx.rep
    for f, sys, R in features(ctx):
        from . import client
        client.silent(client.Clients(ctx, f), rep, f)
        shares(rep, f, sys, list(SPEC) + [EXIT], 0, "state of the server", with_custom(ctx, f))
        X = R["exited"]
        k = 0
        for p in sys.service_paths(EXIT, rep)[0]:
            w = p.where("src/service/layers.rs")
            if p.states() == {X}:
                continue
            k += 1
            ends = [p.runs(s) for s in range(5) if s != X]
            rep.check(all(e <= {X} for e in ends) and any(ends) and all(b == X for i, op, a, b in p.stores() if i > p.returned), "exit marks the server as exited in the call itself",
                      key(f, EXIT, p, "mark"), "a call with `exit` returns without the server being marked as exited", w)
            rep.check(p.outcome()[0] in ("none", "exited"), "exit is not answered", key(f, EXIT, p, "answer"), "exit has the outcome %s" % outcome_str(p), w)
            close = [i for i, x in p.calls("mpsc::Sender::close_channel", "mpsc::UnboundedSender::close_channel", "mpsc::Sender::disconnect")]
            rep.check(bool(close) and close[0] < p.returned, "exit closes the channel of the client", key(f, EXIT, p, "close"),
                      "exit does not close the channel from the client to the transport", w)
            rep.check(not [h for h in p.handlers()], "exit runs no handler", key(f, EXIT, p, "handler"), "exit runs a handler", w)
        rep.floor(k, 3, "paths of exit")
        n_x = 0
        names = list(SPEC) + [CANCEL, EXIT] + list(UNKNOWN)
        custom = CustomSystem(ctx.F[f], ["custom/request"])
        for s, ns in ((sys, names), (custom, ["custom/request"])):
            for n in ns:
                for p in s.service_paths(n, rep)[0]:
                    first = p.loads[0] if p.loads else None
                    if p.states() == {X}:
                        n_x += 1
                        rep.check(p.outcome()[0] == "exited", "after exit, calls fail with ExitedError", key(f, n, p, "after"),
                                  "after exit, `%s` has the outcome: %s" % (n, outcome_str(p)), p.where())
                    if first is not None and p.possible(first[1]) == {X} or p.states() == {X}:
                        rep.check(not p.handlers() and not p.stores(), "after exit, calls have no effect", key(f, n, p, "after-effect"),
                                  "after exit, `%s` runs a handler or changes the state" % n, p.where())
                    for i, op, a, b in p.stores():
                        if b == X:
                            continue
                        rep.check(cannot_replace(p, i, op, a, X), "nothing leaves the exited state", key(f, n, p, "leave"),
                                  "`%s` can replace the exited state by another (%s at event %d)" % (n, op, i), p.where())
                ok = any(p.states() == {X} for p in s.service_paths(n)[0])
                rep.check(ok, "every method has a path on the exited server", "exited-path:%s:%s" % (n, f), "`%s` has no path that recognises the exited state" % n)
        rep.floor(n_x, len(names), "paths after exit")
        poll_ready(ctx, f, sys, R)


def poll_ready(ctx, f, sys, R, what=None):
    """`poll_ready` reports the exit, and is ready otherwise (`what`: in these states)."""
    rep = ctx.rep
    b = sys.service_impl("tower_lsp::service::LspService", "poll_ready")
    e = sys.engine()
    st = sys.svc_state.fork()
    st.events = None
    n = 0
    for s, k, v in e.run(st, b, {}, (sys.svc_ref, ("sym", "cx"))):
        p = Path(sys, e, s, k, v, None)
        x = p.states()
        d = e.variant(s, v)
        inner = e.payload(v, 0) if d == 0 else None
        res = e.variant(s, inner) if inner else None
        n += 1
        if what is not None:
            rep.check(not x & what or d == 1 or res == 0, "poll_ready succeeds before exit", "poll-ready:" + f, "poll_ready fails on a server that has not exited", p.where())
        elif R["exited"] in x:
            rep.check(x == {R["exited"]} and res == 1, "poll_ready fails after exit", "poll-ready-exited:" + f,
                      "poll_ready does not report ExitedError on the exited server", p.where())
        else:
            rep.check(d == 1 or res == 0, "poll_ready succeeds before exit", "poll-ready:" + f, "poll_ready fails on a server that has not exited", p.where())
    rep.absorb(e)
    rep.floor(n, 2, "paths of poll_ready")


# -------------------------------------------------------------------------------------- responses

def all_names():
    return list(SPEC) + [CANCEL, EXIT] + list(UNKNOWN)


def systems(ctx, f, sys):
    yield sys, all_names()
    yield CustomSystem(ctx.F[f], ["custom/request"]), ["custom/request"]
    yield CustomSystem(ctx.F[f], ["custom/notification"], kind="notification"), ["custom/notification"]


@prop("P11", technique=TECH, assumptions=ASSUME)
def p11(ctx):
    """One response per request, with the request's id; none for notifications."""
    rep = ctx.rep
    for f, sys, R in features(ctx):
        from . import transport
        transport.requests(ctx, rep, f)
        poll_ready(ctx, f, sys, R, set(range(5)) - {R["exited"]})
        for s, names in systems(ctx, f, sys):
            for n in names:
                ps, rid, par = s.service_paths(n, rep)
                live = 0
                for p in ps:
                    o, w = p.outcome(), p.where()
                    if o[0] == "exited":
                        rep.check(R["exited"] in p.states(), "a call fails only on an exited server", key(f, n, p, "exited"),
                                  "`%s` fails with ExitedError on a server that has not exited" % n, w)
                        continue
                    if p.kind == "panic":
                        rep.check(False, "calls do not panic", key(f, n, p, "panic"), "`%s` can panic: %s" % (n, show(p.val)[:80]), w)
                        continue
                    live += 1
                    rep.check(o[0] in ("ok", "error", "none"), "the outcome is a response or nothing", key(f, n, p, "shape"),
                              "`%s` has the outcome %s" % (n, o[0]), w)
                    for k in kinds(p):
                        if k and n != EXIT:
                            rep.check(o[0] in ("ok", "error"), "a request is answered", key(f, n, p, "answered"),
                                      "a request `%s` is not answered" % n, w)
                        if k and o[0] in ("ok", "error"):
                            rep.check(o[1] == rid_value(p), "the response carries the request's id", key(f, n, p, "id"),
                                      "the response to `%s` carries another id than the request: %s" % (n, show(o[1])[:80]), w)
                        if not k:
                            rep.check(o[0] == "none", "a notification is not answered", key(f, n, p, "silent"),
                                      "a notification `%s` is answered" % n, w)
                    if o[0] == "ok":
                        rep.check(result_of_handler(p, o[2]), "the result is what the handler returned, serialized", key(f, n, p, "result"),
                                  "the result of `%s` is not the one that the handler returned: %s" % (n, show(o[2])[:80]), w)
                    if o[0] == "error" and not isinstance(o[2], int):
                        rep.check(error_of_handler(p), "an error of the handler is passed on whole", key(f, n, p, "error"),
                                  "the error of `%s` is not the one that the handler returned" % n, w)
                    hs = p.handlers()
                    rep.check(len(hs) <= 1, "a message runs at most one handler", key(f, n, p, "handlers"), "`%s` runs %d handlers" % (n, len(hs)), w)
                    if hs and o[0] == "error" and isinstance(o[2], int) and not aborted(p):
                        ok = o[2] == INTERNAL and any(strip(x.name).endswith("to_value") and p.e.variant(p.st, x.ret) == 1 for x in p.events if x.kind == "call")
                        rep.check(ok, "after the handler succeeded, only a failure to serialize is an error", key(f, n, p, "replaced"),
                                  "the outcome of the handler of `%s` is replaced by error %d" % (n, o[2]), w)
                rep.floor(live, 2, "live paths of `%s`" % n)
                if n in SPEC and SPEC[n][1] == "request":
                    rep.check(any(p.outcome()[0] == "ok" for p in ps), "a request can succeed", "succeed:%s:%s" % (n, f), "no path of `%s` has a result" % n)


def handler_result(p):
    """What awaiting the handler gave, or None."""
    hs = p.handlers()
    if not hs:
        return None
    for x in p.events[hs[0][0] + 1:]:
        if x.kind == "await" and x.vals and contains(x.vals[0], hs[0][2].ret):
            return x.ret
    return hs[0][2].ret


def result_of_handler(p, v):
    r = handler_result(p)
    if r is None:
        return False
    okv = ("fld", ("as", r, 0), 0)
    for x in p.events:
        if x.kind == "call" and strip(x.name).endswith(("to_value", "::serialize")) and x.vals and pointee(p, x.vals[0]) == okv:
            return v == ("fld", ("as", x.ret, 0), 0)
    return False


def error_of_handler(p):
    """Is the error object in the response the one in the handler's result?"""
    r = handler_result(p)
    o = p.outcome()
    e = ("fld", ("as", r, 1), 0) if r is not None else None
    return r is not None and contains(p.val, e) and contains(o[2], e) and contains(o[3], e)


@prop("P12", technique=TECH, assumptions=ASSUME)
def p12(ctx):
    """Unknown methods, undecodable params and messages of the wrong kind never reach a handler."""
    rep = ctx.rep
    for f, sys, R in features(ctx):
        for n in UNKNOWN:
            ps, rid, par = sys.service_paths(n, rep)
            k = 0
            for p in ps:
                w = p.where("src/jsonrpc/router.rs")
                rep.check(not p.handlers() and not p.stores() and not table_ops(p), "an unknown method has no effect", key(f, n, p, "effect"),
                          "the unknown method `%s` has an effect" % n, w)
                if p.outcome()[0] == "exited":
                    continue
                k += 1
                rep.check(answers(p, METHOD_NOT_FOUND), "an unknown request is answered -32601, an unknown notification ignored", key(f, n, p, "unknown"),
                          "the unknown %s `%s` has the outcome: %s" % (kind_str(p), n, outcome_str(p)), w)
                o = p.outcome()
                if o[0] == "error":
                    rep.check(names_method(o[3], n), "the error names the method", key(f, n, p, "data"), "the data of the error does not name the unknown method", w)
            rep.floor(k, 2, "paths of unknown methods")
        tables = [(sys, {**SPEC, CANCEL: ("", "notification")})]
        tables.append((CustomSystem(ctx.F[f], ["custom/request"]), {"custom/request": ("<callback>", "request")}))
        tables.append((CustomSystem(ctx.F[f], ["custom/notification"], kind="notification"), {"custom/notification": ("<callback>", "notification")}))
        for s, spec in tables:
            for n, (h, kind) in spec.items():
                ps, rid, par = s.service_paths(n, rep)
                takes = takes_params(ctx.F[f], h)
                bad = wrong = good = 0
                okstates = {R["fresh"]} if n == "initialize" else {R["ready"]}
                for p in ps:
                    w = p.where()
                    hs = p.handlers()
                    v = params_verdict(p, par, takes)
                    ks = kinds(p)
                    want = kind == "request"
                    rep.check(not hs or (ks == (want,)), "the handler runs only for messages of its own kind", key(f, n, p, "kind"),
                              "the handler of the %s `%s` runs for a message that %s" % (kind, n, "may be of" if len(ks) > 1 else "is of the other kind"), w)
                    rep.check(not hs or v is True or not takes and v is not False, "the handler runs only if the params decode", key(f, n, p, "params"),
                              "the handler of `%s` runs although the params do not decode" % n, w)
                    if hs and takes and h != "<callback>":
                        rep.check(takes_decoded(p, hs[0][2], par), "the handler receives the decoded params", key(f, n, p, "arg"),
                                  "the handler of `%s` does not receive the decoded params" % n, w)
                    if takes:
                        dec = [y for y in p.events if y.kind == "call" and strip(y.name).endswith(("::from_value", "::deserialize")) and contains(y.vals, ("fld", ("as", par, 1), 0))]
                        rep.check(all(whole(tuple(pointee(p, a) for a in y.vals), ("fld", ("as", par, 1), 0)) for y in dec), "the params are decoded as they are",
                                  key(f, n, p, "as-is"), "the params of `%s` are changed before they are decoded" % n, w)
                    if n != CANCEL and not consistent(p, okstates):
                        continue
                    if n != CANCEL and p.states() != okstates:
                        continue
                    if p.outcome()[0] == "exited" or duplicate(p) or aborted(p):
                        continue
                    for k in ks:
                        if k != want:
                            wrong += 1
                            rep.check(not hs and (p.outcome()[0] == "none" if not k else p.outcome()[0] == "error" and p.outcome()[2] == INVALID_REQUEST),
                                      "a message of the wrong kind is refused", key(f, n, p, "wrong-kind"),
                                      "`%s` sent as a %s has the outcome: %s" % (n, "request" if k else "notification", outcome_str(p)), w)
                        elif v is False:
                            bad += 1
                            rep.check(not hs and (p.outcome()[0] == "none" if not k else p.outcome()[0] == "error" and p.outcome()[2] == INVALID_PARAMS),
                                      "undecodable params are answered -32602", key(f, n, p, "bad-params"),
                                      "a %s `%s` with undecodable params has the outcome: %s" % (kind, n, outcome_str(p)), w)
                        elif n != CANCEL:
                            good += 1
                            rep.check(len(hs) == 1, "a valid message reaches its handler", key(f, n, p, "delivered"),
                                      "a valid %s `%s` does not reach its handler (%s)" % (kind, n, outcome_str(p)), w)
                rep.floor(wrong, 1, "wrong-kind paths of `%s`" % n)
                rep.floor(bad, 1, "bad-params paths of `%s`" % n)
                if n != CANCEL:
                    rep.floor(good, 1, "valid paths of `%s`" % n)


# Calls that give something else than what they are given.
CHANGED = {"to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches",
           "trim_end_matches", "strip_prefix", "strip_suffix", "split", "rsplit", "split_once", "rsplit_once", "split_at", "len", "is_empty", "replace", "replacen",
           "get", "chars", "bytes", "remove", "pop", "swap_remove", "first", "last", "first_mut", "last_mut", "get_mut", "index", "index_mut", "nth", "next", "next_back",
           "pointer", "pointer_mut", "keys", "values", "drain", "truncate", "as_array", "as_object", "as_array_mut", "as_object_mut"}


def whole(t, x):
    """Is all of `x` in the term, not something computed from it?"""
    if t == x:
        return True
    if isinstance(t, tuple) and t:
        if t[0] == "call" and len(t) > 1 and isinstance(t[1], str) and strip(t[1]).rsplit("::", 1)[-1] in CHANGED:
            return False
        return any(whole(y, x) for y in t)
    return False


def names_method(data, n):
    return whole(data, n) or whole(data, ("str", n))


def takes_params(F, h):
    t = F.traits.get("tower_lsp::LanguageServer", {}).get(h)
    if h in ("<callback>", ""):
        return True
    if t is None:
        raise Missing("LanguageServer::" + h)
    return len(t["inputs"]) > 1


def takes_decoded(p, x, par):
    val = ("fld", ("as", par, 1), 0)
    for y in p.events:
        if y.kind == "call" and strip(y.name).endswith(("::from_value", "::deserialize")) and contains(y.vals, val):
            if x.vals[1] == ("fld", ("as", y.ret, 0), 0):
                return True
    return False


# ------------------------------------------------------------------------------- requests in flight

@prop("P13", technique=TECH, assumptions=ASSUME)
def p13(ctx):
    """The id of a request is reserved from acceptance to the answer; duplicates are refused."""
    rep = ctx.rep
    for f, sys, R in features(ctx):
        shares(rep, f, sys, [n for n in SPEC if SPEC[n][1] == "request"] + [CANCEL, EXIT], 1, "table of requests in progress", with_custom(ctx, f))
        tables = [(sys, [n for n in SPEC if SPEC[n][1] == "request"]), (CustomSystem(ctx.F[f], ["custom/request"]), ["custom/request"])]
        for s, names in tables:
            for n in names:
                ps, rid, par = s.service_paths(n, rep)
                res = dups = 0
                for p in ps:
                    w = p.where()
                    absent, present, ins, rem, maps = reservation(p)
                    hs = p.handlers()
                    polled = [i for i, x in enumerate(p.events) if x.kind == "await"]
                    dup = duplicate(p)
                    if hs and is_request(p):
                        rep.check(len(ins) == 1 and ins[0][0] < p.returned and ins[0][0] < hs[0][0], "the id is reserved in the call itself, before the handler",
                                  key(f, n, p, "reserve"), "the handler of `%s` runs without its request's id having been reserved in `call`" % n, w)
                    if ins:
                        res += 1
                        first = ins[0][0]
                        free = [i for i in absent if i <= first]
                        if not dup:
                            rep.check(bool(free), "an id is reserved only if it is free", key(f, n, p, "free"),
                                      "`%s` reserves an id without having seen that it is free" % n, w)
                        last = max(polled) if polled else p.returned
                        after = [i for i in rem if i > last]
                        if not dup:
                            rep.check(len(after) == 1 and len(rem) == 1, "the id is released once, after the handler has ended", key(f, n, p, "release"),
                                      "`%s` %s" % (n, "does not release the id after the handler has ended" if not after else "releases the id while it is in use"), w)
                        rep.check(all(handle_of(p, h) for _, h in ins), "the reservation holds the handle that aborts this request", key(f, n, p, "handle"),
                                  "`%s` is registered under a handle that does not abort its handler" % n, w)
                        rep.check(len(maps) == 1, "one table", key(f, n, p, "table"), "`%s` uses more than one table" % n, w)
                    else:
                        rep.check(not rem, "an id that is not reserved is not released", key(f, n, p, "foreign"),
                                  "`%s` releases an id that belongs to another request" % n, w)
                    if dup:
                        dups += 1
                        rep.check(not hs, "a duplicate does not run the handler", key(f, n, p, "dup-handler"), "`%s` with an id in use runs the handler" % n, w)
                        rep.check(answers(p, INVALID_REQUEST), "a duplicate is answered -32600", key(f, n, p, "dup-answer"),
                                  "`%s` with an id in use has the outcome: %s" % (n, outcome_str(p)), w)
                        rep.check(not ins and not rem and not p.calls("AbortHandle::abort"), "a duplicate leaves the first request alone", key(f, n, p, "dup-effect"),
                                  "`%s` with an id in use changes the reservation of the first request" % n, w)
                rep.floor(res, 1, "paths of `%s` that reserve the id" % n)
                rep.floor(dups, 1, "paths of `%s` with a duplicate id" % n)


def find_terms(t, tag, out):
    if isinstance(t, tuple):
        if t and t[0] == tag:
            out.append(t)
        for x in t:
            find_terms(x, tag, out)
    return out


def handle_of(p, h):
    """Is `h` the abort handle of the future that runs this request's handler?"""
    ids = find_terms(h, "abortid", [])
    if not ids:
        return False
    driven = []
    for x in p.events:
        if x.kind == "returned":
            driven = find_terms(p.e.snap(p.st, x.vals[0], 6), "abortid", [])
            find_terms(x.vals, "abortid", driven)
    return any(i in driven for i in ids)


@prop("P14", technique=TECH, assumptions=ASSUME)
def p14(ctx):
    """$/cancelRequest aborts the request with that id, and exit aborts them all."""
    rep = ctx.rep
    for f, sys, R in features(ctx):
        shares(rep, f, sys, [n for n in SPEC if SPEC[n][1] == "request"] + [CANCEL, EXIT], 1, "table of requests in progress", with_custom(ctx, f))
        # The table that requests reserve their ids in.
        maps = set()
        aborts = 0
        for n in ("textDocument/hover", "workspace/symbol", "shutdown", "initialize"):
            for p in sys.service_paths(n, rep)[0]:
                if reservation(p)[2]:
                    maps |= reservation(p)[4]
        for n in SPEC:
            if SPEC[n][1] != "request":
                continue
            for p in sys.service_paths(n, rep)[0]:
                if aborted(p):
                    aborts += 1
                    rep.check(answers(p, CANCELLED), "an aborted request is answered -32800", key(f, n, p, "cancelled"),
                              "an aborted `%s` has the outcome: %s" % (n, outcome_str(p)), p.where())
                    rep.check(not p.handlers(), "an aborted request runs its handler no further", key(f, n, p, "aborted-handler"),
                              "the handler of an aborted `%s` goes on" % n, p.where())
                else:
                    o = p.outcome()
                    rep.check(not (o[0] == "error" and o[2] == CANCELLED), "only aborted requests are answered -32800", key(f, n, p, "spurious"),
                              "`%s` is answered -32800 without having been aborted" % n, p.where())
        rep.floor(aborts, 10, "aborted paths")
        rep.check(len(maps) == 1, "one table of requests in progress", "table:" + f, "requests are reserved in %d tables" % len(maps))
        table = list(maps)[0] if maps else None
        # Every request can be aborted while its handler runs.
        ps, rid, par = sys.service_paths(CANCEL, rep)
        hit = miss = 0
        seen = set()
        for p in ps:
            w = p.where("src/service/pending.rs")
            ab = p.calls("AbortHandle::abort")
            if p.outcome()[0] == "exited":
                continue
            rep.check(not p.handlers() and not p.stores(), "cancelling runs no handler", key(f, CANCEL, p, "effect"), "$/cancelRequest runs a handler or changes the state", w)
            ids = cancel_target(p, par)
            for i, x in ab:
                src = lookup_of(p, x.vals[0])
                rep.check(src is not None and strip_map(src[0]) == table, "cancelling aborts a request in progress", key(f, CANCEL, p, "abort-table"),
                          "$/cancelRequest aborts something that is not a request in progress", w)
                rep.check(src is not None and ids is not None and src[1] == ids[1], "cancelling aborts the request with the given id", key(f, CANCEL, p, "abort-id"),
                          "$/cancelRequest aborts a request with another id: %s" % (show(src[1])[:80] if src else "?"), w)
            ops = [(i, op, m, k, x) for i, op, m, k, x in table_ops(p)]
            for i, op, m, k, x in ops:
                rep.check(not (op.startswith(("remove", "retain", "clear", "insert", "alter")) or "Entry::remove" in op or "Entry::insert" in op),
                          "a cancelled request keeps its id until it is answered", key(f, CANCEL, p, "keep"), "$/cancelRequest changes the table of requests in progress (%s)" % op, w)
            if is_request(p) is not True and params_verdict(p, par, True):
                seen.add(ids[0] if ids else None)
                found = [p.e.variant(p.st, x.ret) for i, op, m, k, x in ops if op in ("get", "get_mut", "entry") and ids and k == ids[1]]
                if op_found(ops, p, ids) is True:
                    hit += 1
                    rep.check(len(ab) == 1, "a request in progress is aborted", key(f, CANCEL, p, "hit"), "$/cancelRequest does not abort the request in progress", w)
                elif op_found(ops, p, ids) is False:
                    miss += 1
                    rep.check(not ab and p.outcome()[0] == "none", "an unknown id is ignored", key(f, CANCEL, p, "miss"), "$/cancelRequest for an unknown id has an effect", w)
                else:
                    rep.check(False, "the id is looked up", key(f, CANCEL, p, "lookup"), "$/cancelRequest does not look up the id that it was given", w)
        rep.floor(hit, 2, "paths that cancel a request")
        rep.floor(miss, 2, "paths that cancel nothing")
        rep.check(seen == {0, 1}, "numeric and string ids can be cancelled", "kinds:" + f, "$/cancelRequest handles the id kinds %s" % sorted(map(str, seen)))
        for s in (R["fresh"], R["starting"], R["ready"], R["down"]):
            rep.check(any(s in p.states() and p.calls("AbortHandle::abort") for p in ps), "requests can be cancelled in every state before exit",
                      "state%d:%s" % (s, f), "$/cancelRequest is not served in state %d" % s)
        # Nothing but those two cancels a request.
        for s, names in [(sys, list(SPEC))] + [(c, [n]) for c, n in ((CustomSystem(ctx.F[f], ["custom/request"]), "custom/request"),
                                                                   (CustomSystem(ctx.F[f], ["custom/notification"], kind="notification"), "custom/notification"))]:
            for n in names:
                if n in (EXIT, CANCEL):
                    continue
                for p in s.service_paths(n, rep)[0]:
                    got = [x for i, x in p.calls("AbortHandle::abort") if lookup_of(p, x.vals[0])]
                    swept = [op for i, op, m, k, x in table_ops(p) if op in ("retain", "clear", "alter_all", "iter_mut")]
                    rep.check(not got and not swept, "only $/cancelRequest and exit cancel requests", key(f, n, p, "cancels"),
                              "`%s` cancels requests in progress" % n, p.where())
        # exit.
        k = 0
        for p in sys.service_paths(EXIT, rep)[0]:
            if p.states() == {R["exited"]}:
                continue
            k += 1
            rep.check(all_aborted(ctx, f, p, table, sys._rounds.get(EXIT, ())), "exit aborts every request in progress", key(f, EXIT, p, "all"),
                      "exit does not abort all requests in progress", p.where("src/service/layers.rs"))
        rep.floor(k, 3, "paths of exit")


def op_found(ops, p, ids):
    if ids is None:
        return None
    for i, op, m, k, x in ops:
        if k != ids[1]:
            continue
        d = p.e.variant(p.st, x.ret)
        if op in ("get", "get_mut", "view") and d is not None:
            return d == 1
        if op == "entry" and d is not None:
            return d == 0
        if op == "contains_key":
            return p.num(x.ret) == 1
    return None


def cancel_target(p, par):
    """(kind, id) named by the params of $/cancelRequest: the number or the string in them, as an id."""
    val = ("fld", ("as", par, 1), 0)
    for x in p.events:
        if x.kind == "call" and strip(x.name).endswith(("::from_value", "::deserialize")) and contains(x.vals, val):
            c = ("fld", ("as", x.ret, 0), 0)
            nos = ("fld", c, 0)
            d = p.e.variant(p.st, nos)
            if d == 0:
                n = ("fld", ("as", nos, 0), 0)
                for t in (("cast", ("int", "i64"), n),):
                    pass
                return (0, id_number(p, n))
            if d == 1:
                return (1, ("adt", "tower_lsp::jsonrpc::Id", id_variant(p, "String"), (("fld", ("as", nos, 1), 0),)))
    return None


def id_variant(p, name):
    for path, a in p.sys.F.adts.items():
        if path.endswith("::Id") and path.startswith("tower_lsp"):
            for i, v in enumerate(a["variants"]):
                if v["name"] == name:
                    return i
    raise Missing("Id::" + name)


def id_number(p, n):
    """The term of `Id::Number(n as i64)`, as it appears among the lookups of the path."""
    path = "tower_lsp::jsonrpc::Id" if "tower_lsp::jsonrpc::Id" in p.sys.F.adts else next(k for k in p.sys.F.adts if k.startswith("tower_lsp") and k.endswith("::Id"))
    v = id_variant(p, "Number")
    for i, op, m, k, x in table_ops(p):
        if isinstance(k, tuple) and k[:3] == ("adt", path, v) and len(k[3]) == 1 and widened(k[3][0], n):
            return k
    return ("adt", path, v, (("widened", n),))


def widened(t, n):
    """Is the term `t` the number `n`, converted to a wider type without change?"""
    if t == n:
        return True
    if t[0] == "cast" and len(t) > 2 and t[-1] == n and str(t[1]) in ("i64", "('int', 'i64')", "('i64',)"):
        return True
    if t[0] == "call" and strip(t[1]).endswith(("From::from", "Into::into", ">::from", ">::into")) and t[2] and widened(t[2][0], n):
        return True
    return False


def lookup_of(p, v):
    """The table and the key that a reference into a table was looked up with."""
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] == "call" and strip(v[1]).startswith("dashmap::DashMap::"):
        if len(v[2]) > 1:
            return v[2][0], pointee(p, v[2][1])
        return v[2][0], None
    for x in v:
        if isinstance(x, tuple):
            r = lookup_of(p, x)
            if r:
                return r
    return None


PARTIAL = {"filter", "filter_map", "take", "take_while", "skip", "skip_while", "step_by", "find", "map_while", "nth", "last", "any", "all", "position", "find_map"}


def all_aborted(ctx, f, p, table, rounds=()):
    """Does the path abort everything in the table, by a visit of all entries?"""
    for i, x in enumerate(p.events):
        n = strip(x.name) if x.kind == "call" else ""
        if i > p.returned:
            break
        if n not in ("dashmap::DashMap::retain", "dashmap::DashMap::alter_all", "dashmap::DashMap::iter", "dashmap::DashMap::iter_mut") or strip_map(x.vals[0]) != table:
            continue
        if n.endswith(("retain", "alter_all")):
            if visits_abort(ctx, f, p, x.args[1], 2):
                return True
            continue
        after = [y for y in p.events[i + 1:p.returned] if y.kind == "call" or y.kind == "loop"]
        if any(y.kind == "call" and strip(y.name).rsplit("::", 1)[-1] in PARTIAL for y in after):
            continue
        nexts = [y for y in after if y.kind == "call" and strip(y.name).endswith("::next")]
        heads = [y.args for y in p.events[i + 1:p.returned] if y.kind == "loop"]
        if nexts and heads:
            # A loop: left when there is nothing more, and each round aborts.
            mine = [r for r in rounds if r.val == heads[-1]]
            if p.e.variant(p.st, nexts[-1].ret) == 0 and mine and all(round_aborts(r) for r in mine) and any(r.calls("AbortHandle::abort") for r in mine):
                return True
            continue
        for y in after:
            if y.kind == "call" and strip(y.name).rsplit("::", 1)[-1] == "for_each" and y.vals and y.vals[0] == x.ret and visits_abort(ctx, f, p, y.args[1], 1):
                return True
        if any(y.kind == "call" and strip(y.name).endswith("AbortHandle::abort") for y in after):
            return True
    return False


def round_aborts(r):
    """Does a round of a loop abort the request that it visits, or finds it gone?"""
    at = max(i for i, x in enumerate(r.events) if x.kind == "loop")
    for x in r.events[at:]:
        if x.kind == "call" and strip(x.name).endswith("AbortHandle::abort"):
            return True
        if x.kind == "call" and strip(x.name).endswith(("DashMap::remove", "DashMap::get", "DashMap::get_mut")) and r.e.variant(r.st, x.ret) == 0:
            return True
    return False


def visits_abort(ctx, f, p, clo, n):
    """Does a closure abort the handle of every entry it is given?"""
    e = p.e
    s = p.st.fork()
    s.events = None
    hd = e.alloc(s, ("sym", "handle"))
    outs = e.apply(s, clo, (("sym", "entry-key"), hd) if n == 2 else (("sym", "handle"),))
    n = 0
    for s2, k, v in outs:
        if k != "ret":
            return False
        n += 1
        ab = [y for y in s2.trace() if y.kind == "call" and strip(y.name).endswith("AbortHandle::abort") and contains(y.vals, ("sym", "handle"))]
        if not ab:
            return False
    return n > 0


@prop("P28", technique=TECH, assumptions=ASSUME)
def p28(ctx):
    """Custom methods are gated like built-in ones, and cannot replace them."""
    rep = ctx.rep
    for f, sys, R in features(ctx):
        builtin = [n for n in SPEC] + [CANCEL, EXIT]
        # Registered under the name of a built-in method, a callback is never run.
        shadow = CustomSystem(ctx.F[f], builtin)
        for n in builtin:
            ps, rid, par = shadow.service_paths(n, rep)
            for p in ps:
                for i, h, x in p.handlers():
                    rep.check(h != "<callback>", "a callback does not replace a built-in method", key(f, n, p, "shadow"),
                              "a callback registered as `%s` replaces the built-in method" % n, p.where())
            if n in SPEC:
                rep.check(any(h == SPEC[n][0] for p in ps for i, h, x in p.handlers()), "built-in methods stay in place", "kept:%s:%s" % (n, f),
                          "after a callback was registered as `%s`, the built-in handler is gone" % n)
        for kind, n in (("request", "custom/request"), ("notification", "custom/notification")):
            s = CustomSystem(ctx.F[f], [n], kind=kind)
            ps, rid, par = s.service_paths(n, rep)
            ran = 0
            for p in ps:
                for i, h, x in p.handlers():
                    ran += 1
                    rep.check(h == "<callback>", "a custom method runs its callback", key(f, n, p, "other"), "a custom method runs `%s`" % h, p.where())
                    rep.check(any(p.possible(t) == {R["ready"]} for j, t in p.loads if j < i), "callbacks run only on an initialized server",
                              key(f, n, p, "gate"), "the callback of a custom method runs on a server that is not initialized", p.where())
                rep.check(not p.stores(), "custom methods do not change the server state", key(f, n, p, "store"), "a custom method changes the server state", p.where())
            rep.floor(ran, 1, "paths that run the callback of a custom %s" % kind)
            shares(rep, f, sys, list(SPEC) + [EXIT], 0, "state of the server", [(s, [n])])
            shares(rep, f, sys, [n for n in SPEC if SPEC[n][1] == "request"] + [CANCEL, EXIT], 1, "table of requests in progress", [(s, [n])])
            names = s.registered()
            rep.check(sorted(names) == sorted(list(sys.registered()) + [n]), "registration adds just the one name", "names:%s:%s" % (n, f),
                      "registering `%s` changes other names of the routing table" % n)
