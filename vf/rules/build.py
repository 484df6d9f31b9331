"""Rules about what a service is made of: the one backend, and nothing that it shares with other services."""
from ..engine import *
from ..lib import Path
from ..models import strip
from ..system import Missing, need
from . import prop
from .service import CANCEL, EXIT, SPEC, CustomSystem

# Types whose contents may change though the static itself does not.
SHARED = ("Arc", "Rc", "Mutex", "RwLock", "Cell", "RefCell", "OnceCell", "OnceLock", "Atomic", "DashMap", "Sender", "Receiver",
          "UnboundedSender", "UnboundedReceiver", "Condvar", "Notify", "Semaphore", "UnsafeCell", "Weak")
HOLDS = {"Mutex", "RwLock", "Cell", "RefCell", "OnceCell", "OnceLock", "Atomic", "DashMap", "HashMap", "BTreeMap", "Slab", "AtomicWaker", "ReentrantLock"}


def types_in(t):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] in ("adt", "dyn", "param") and isinstance(t[1], str):
            yield t[1]
        for x in t:
            yield from types_in(x)


def lazily_constant(t):
    """A value that is computed at its first use, from nothing, and never changes."""
    if t[0] != "adt" or not strip(t[1]).endswith("::LazyLock"):
        return False
    names = [n for n in types_in(t[2][:1])]
    return not any(n.startswith("tower_lsp::") or n.rsplit("::", 1)[-1] in SHARED for n in names) and "dyn" not in str(t[2][:1])


def logging(t):
    return t[0] == "adt" and t[1].split("::", 1)[0] in ("tracing", "tracing_core", "log")


def heap(st, v, seen=None, cells=None):
    """The places on the heap, the channels and the objects with a state that can be reached from `v`."""
    if seen is None:
        seen, cells = set(), set()
    todo = [v]
    while todo:
        v = todo.pop()
        if not isinstance(v, tuple) or not v:
            continue
        if v[0] == "ref" and isinstance(v[1], tuple):
            if v[1] not in seen:
                seen.add(v[1])
                todo.append(st.store.get(v[1], ()))
            continue
        if v[0] in ("tx", "rx", "chan") and len(v) > 2:
            cells.add((v[0],) + v[1:])
            continue
        if v[0] == "call" and isinstance(v[1], str) and HOLDS & set(strip(v[1]).split("::")):
            cells.add(v)
            continue
        todo.extend(x for x in v if isinstance(x, tuple))
    return seen, cells


def name_of(c):
    return strip(c[1]) if c[0] == "call" else "%s of a channel" % c[0]


def state_of(cells):
    return {c for c in cells if c[0] == "call" and strip(c[1]).startswith("core::sync::atomic::Atomic::new") and "u8" in c[1]}


@prop("P36", technique="points-to analysis of what the registration code builds (heap cells, channels and objects with a state that the service, the socket and the "
      "client reach), and a query for statics and thread-locals whose contents can change",
      assumptions=["tracing's callsites hold no state of a service"])
def p36(ctx):
    rep = ctx.rep
    for f in ctx.features:
        F, S = ctx.F[f], ctx.sys[f]
        # Nothing is shared between services.
        n = 0
        for b in F.bodies.values():
            if not b.local or b.argc or not b.locals or b.kind.startswith(("Fn", "AssocFn", "Closure")):
                continue
            t = b.locals[0]
            n += 1
            if b.kind.startswith("Static"):
                ok = b.frozen or logging(t) or lazily_constant(t)
                rep.check(ok, "no global holds a state", "static:%s:%s" % (b.path, f), "%s is a global whose contents can change (%s)" % (b.path, t[1] if len(t) > 1 else t), b.span)
            else:
                ok = not any(strip(x).startswith("std::thread::") for x in types_in(t))
                rep.check(ok, "no state is kept per thread", "local:%s:%s" % (b.path, f), "%s is kept per thread" % b.path, b.span)
        rep.floor(n, 10, "constants and globals (%s)" % f)
        # The backend is made once, of the client that belongs to the socket.
        S.make()
        rep.absorb(S.eng)
        st = S.svc_state
        made = [x for x in S.builder_state.trace() if x.kind == "call" and x.name == "<dyn>" and x.args[:1] == (("sym", "init"),)]
        rep.check(len(made) == 1, "the backend is made once", "init:" + f, "the function that makes the backend is called %d times" % len(made), "LspService::build")
        if len(made) != 1:
            continue
        backend = made[0].ret
        _, socket = heap(st, S.socket)
        _, client = heap(S.builder_state, made[0].args[1:])
        _, service = heap(st, S.svc)
        rep.check(len(state_of(socket | client | service)) == 1 and all(state_of(x) for x in (socket, client, service)),
                  "service, socket and client follow one state", "state:" + f, "there are %d states: %s" % (
                      len(state_of(socket | client | service)), [len(state_of(x)) for x in (socket, client, service)]), "LspService::build")
        tx = {c[1:] for c in client if c[0] == "tx"}
        rx = {c[1:] for c in socket if c[0] == "rx"}
        rep.check(tx == rx and len(tx) == 1, "what the backend's client sends comes out of the socket", "channel:" + f,
                  "the client sends on %s, the socket receives from %s" % (sorted(tx), sorted(rx)), "LspService::build")
        rest = {c for c in socket if c[0] == "call"}
        rep.check(rest <= client and len(rest) >= 2, "the socket answers the requests of the backend's client", "answers:" + f,
                  "the socket holds what the client does not: %s" % [name_of(c) for c in rest - client], "LspService::build")
        # All methods work on the same.
        inner = need(F.body("tower_lsp::service::LspService::<S>::inner"), "LspService::inner")
        e = S.engine()
        outs = e.run(st.fork(), inner, {}, (S.svc_ref,))
        rep.absorb(e)
        for s, k, v in outs:
            rep.check(k == "ret" and e.deref(s, v) == backend, "inner() is the backend", "inner:" + f, "inner() returns %s" % show(v)[:120], inner.span)
        rep.floor(len(outs), 1, "outcomes of inner() (%s)" % f)
        custom = {k: CustomSystem(F, ["custom/method"], k) for k in ("request", "notification")}
        n = 0
        for sys_, names in [(S, sorted(SPEC))] + [(c, ["custom/method"]) for c in custom.values()]:
            for m in names:
                ps, _, _ = sys_.service_paths(m, rep)
                for p in ps:
                    for _, h, x in p.handlers():
                        vals = [a for a in x.vals if x.name != "<dyn>" or a != ("sym", "callback")]
                        if x.name == "<dyn>" and vals and vals[0][0] == "tuple":
                            vals = list(vals[0][1])
                        n += 1
                        rep.check(bool(vals) and is_backend(vals[0], p), "handlers run on the backend", "handler:%s:%s" % (m, f),
                                  "the handler of `%s` runs on %s" % (m, show(vals[0])[:120] if vals else None), x.site)
        rep.floor(n, 130, "calls of handlers (%s)" % f)
        base = {}
        for sys_, label in [(S, "own")] + list((c, k) for k, c in custom.items()):
            for m, v in routes(sys_.svc):
                cells = {c for c in heap(sys_.svc_state, v)[1] if c[0] == "call"}
                base[(label, m)] = {c for c in cells if "Atomic" not in name_of(c) or c in state_of(cells)}
        ref = base.get(("own", "textDocument/hover"))
        need(ref, "the route of textDocument/hover")
        for (label, m), cells in sorted(base.items()):
            if m == CANCEL:
                rep.check(len(cells) >= 1 and len(cells - ref) == 0, "cancellation works on the reservations of the service", "cells:%s:%s" % (m, f),
                          "`%s` works on %s" % (m, sorted(map(name_of, cells - ref))), "routes")
            elif m == EXIT:
                rep.check(ref <= cells, "exit works on the state and the reservations of the service", "cells:%s:%s" % (m, f),
                          "`%s` works on %s" % (m, sorted(map(name_of, cells))), "routes")
            else:
                rep.check(cells == ref if (label, m) != ("own", "textDocument/hover") else len(ref) >= 2, "all methods share the state and the reservations",
                          "cells:%s:%s:%s" % (label, m, f), "`%s` works on a state or on reservations of its own: %s" % (m, sorted(map(name_of, cells ^ ref))), "routes")
        rep.floor(len(base), 130, "routes (%s)" % f)


def is_backend(v, p):
    """Is `v` what the user's function made?"""
    for _ in range(3):
        if v[0] == "&":
            v = v[1]
    return v[0] == "call" and v[1] == "<dyn>" and v[2][:1] == (("sym", "init"),)


def routes(v, d=0):
    """The entries of the routing table."""
    if not isinstance(v, tuple) or d > 8:
        return
    if v and v[0] == "hmap":
        for k, x in v[1]:
            yield k[1], x
        return
    for x in v:
        yield from routes(x, d + 1)
