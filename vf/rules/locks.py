"""Locks: which guards are alive where, over the MIR of every function of the crate.

A guard is a value that keeps a lock until it is dropped: the references, entries and iterators of
DashMap and the guards of mutexes. A forward dataflow over move paths computes at each point which
guards may be alive; at each call that a guard survives, and in each closure that runs under a lock,
nothing may lock the same table, block, run code of the user, or suspend.
"""
from ..models import strip
from . import prop
from .service import ASSUME

MUTEX = {"MutexGuard", "RwLockReadGuard", "RwLockWriteGuard", "MappedMutexGuard", "MappedRwLockReadGuard", "MappedRwLockWriteGuard",
         "ReentrantLockGuard", "OwnedMutexGuard", "OwnedRwLockReadGuard", "OwnedRwLockWriteGuard", "OwnedMappedMutexGuard"}
LOCKS = {"Mutex", "RwLock", "ReentrantLock", "FairMutex"}
LOCKING = {"lock", "read", "write", "lock_owned", "read_owned", "write_owned", "blocking_lock", "blocking_read", "blocking_write", "lock_arc", "upgradable_read"}
FREE = {"new", "with_capacity", "with_hasher", "with_capacity_and_hasher", "with_shard_amount", "with_capacity_and_shard_amount", "default", "hasher", "hash_usize",
        "with_hasher_and_shard_amount", "with_capacity_and_hasher_and_shard_amount", "determine_shard", "determine_map", "from_iter", "into_iter", "into_read_only", "shards",
        "hash_u64"}
USER_TRAITS = ("core::future::", "core::ops::function::", "core::ops::async_function::", "tower_service::", "tower::", "futures_core::", "futures_sink::", "futures_util::",
               "tower_lsp::service::LanguageServer", "tower_lsp::LanguageServer", "tower_lsp::jsonrpc::router::", "tower_lsp::transport::")
BLOCKING = {"block_on", "park", "park_timeout", "sleep", "recv", "recv_timeout", "wait", "wait_while", "wait_timeout", "blocking_recv", "blocking_send", "block_in_place",
            "sleep_ms", "join"}
BLOCKERS = ("std::thread", "std::sync", "futures_executor", "tokio::", "std::sys", "<std::sync", "async_", "futures::executor")
KEEP = {"forget", "leak", "into_raw", "new_manually_drop"}
SHOWS = {"new_debug", "new_display", "debug", "display", "new_lower_hex"}


def adts(t):
    """All types of data inside of a type, references included; a guard names its table, but is not the table."""
    if isinstance(t, tuple):
        if t and t[0] == "adt":
            yield t
            if t[1].startswith(("dashmap::iter::", "dashmap::mapref::")):
                return
        for x in t:
            yield from adts(x)


def table_of(args):
    """The table that a type of DashMap's, or a lock, belongs to."""
    ps = [a for a in args if isinstance(a, tuple) and a and a[0] != "lifetime"]
    return ps[:2]


class Locks:
    def __init__(self, F):
        self.F = F
        self.upvars, self.bound = {}, {}
        self.memo = {}
        for b in F.bodies.values():
            for bl in b.blocks:
                for s in bl["s"]:
                    if s[0] == "assign" and s[2][0] == "agg" and s[2][1][0] in ("closure", "coroutine"):
                        self.upvars[s[2][1][1]] = (tuple(self.type_of(b, o) for o in s[2][2]), b)
        self.sums = {}

    # Types.

    def type_of(self, b, o):
        if o[0] in ("copy", "move"):
            return self.place_type(b, o[1])
        return o[1].get("ty") if isinstance(o[1], dict) else None

    def place_type(self, b, p):
        t = b.locals[p[0]]
        for e in p[1]:
            if e[0] == "deref":
                t = t[2] if t and t[0] in ("ref", "ptr") else t[2][0] if t and t[0] == "adt" and t[2] else None
            elif e[0] == "field":
                t = e[2] if len(e) > 2 else None
        return t

    def guard(self, t):
        """The table whose lock a value of this type keeps, if it is a guard itself."""
        if t[0] != "adt":
            return None
        n = t[1].rsplit("::", 1)[-1]
        if t[1].startswith("dashmap::") and (".mapref." in t[1] or "::mapref::" in t[1]) and n not in ("Entry",) or t[1].startswith("dashmap::iter::") and n in ("Iter", "IterMut") \
                or t[1].startswith("dashmap::") and n == "IterSet":
            return ("table",) + tuple(table_of(t[2]))
        if n in MUTEX:
            return ("lock",) + tuple(table_of(t[2])[:1])
        return None

    def leaves(self, t, depth=0):
        """The guards that a value of a type may own: [(path, table)]; a path is of (variant, field)."""
        if not isinstance(t, tuple) or not t or depth > 8:
            return ()
        k = ("leaves", t)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = ()
        out = []
        g = self.guard(t)
        if g:
            out = [((), g)]
        elif t[0] == "tuple":
            for i, x in enumerate(t[1]):
                out += [(((None, i),) + p, g) for p, g in self.leaves(x, depth + 1)]
        elif t[0] in ("array", "slice"):
            out += [((), g) for p, g in self.leaves(t[1], depth + 1)]
        elif t[0] in ("closure", "coroutine"):
            for i, x in enumerate(self.upvars.get(t[1], ((), None))[0]):
                out += [(((None, i),) + p, g) for p, g in self.leaves(x, depth + 1)]
        elif t[0] == "adt":
            n = t[1].rsplit("::", 1)[-1]
            if t[1].startswith("dashmap::mapref::") and n == "Entry":
                g = ("table",) + tuple(table_of(t[2]))
                out = [(((0, 0),), g), (((1, 0),), g)]
            elif t[1] == "core::option::Option" and t[2]:
                out = [(((1, 0),) + p, g) for p, g in self.leaves(t[2][0], depth + 1)]
            elif t[1] == "core::result::Result" and len(t[2]) > 1:
                out = [(((i, 0),) + p, g) for i in (0, 1) for p, g in self.leaves(t[2][i], depth + 1)]
            elif t[1] == "core::task::poll::Poll" and t[2]:
                out = [(((0, 0),) + p, g) for p, g in self.leaves(t[2][0], depth + 1)]
            elif "PhantomData" not in t[1] and n != "DashMap":
                a = self.F.adts.get(t[1])
                if a and a["local"]:
                    for vi, v in enumerate(a["variants"]):
                        for fi, fl in enumerate(v["fields"]):
                            out += [(((None if a["kind"] == "struct" else vi, fi),) + p, g) for p, g in self.leaves(subst(fl[1], a, t), depth + 1)]
                else:
                    gs = {g for x in t[2] for _, g in self.leaves(x, depth + 1)}
                    out = [((), g) for g in sorted(gs, key=str)]
        self.memo[k] = tuple(out)
        return self.memo[k]

    def local_drop(self, t, depth=0, seen=None):
        """Bodies of the crate that run when a value of this type is dropped."""
        seen = set() if seen is None else seen
        if not isinstance(t, tuple) or not t or t in seen or depth > 8:
            return
        seen.add(t)
        if t[0] in ("ref", "ptr", "fndef", "fnptr"):
            return
        if t[0] == "adt":
            for i in self.F.impls_by_trait.get("core::ops::drop::Drop", ()):
                if i["self"][0] == "adt" and i["self"][1] == t[1] and "drop" in i["items"]:
                    b = self.F.bodies.get(i["items"]["drop"].get("key"))
                    if b:
                        yield b
            a = self.F.adts.get(t[1])
            if a and a["local"]:
                for v in a["variants"]:
                    for fl in v["fields"]:
                        yield from self.local_drop(subst(fl[1], a, t), depth + 1, seen)
            for x in t[2]:
                yield from self.local_drop(x, depth + 1, seen)
        elif t[0] == "tuple":
            for x in t[1]:
                yield from self.local_drop(x, depth + 1, seen)
        elif t[0] in ("closure", "coroutine"):
            for x in self.upvars.get(t[1], ((), None))[0]:
                yield from self.local_drop(x, depth + 1, seen)

    # Effects of a call.

    def targets(self, fn, args_ty):
        """Bodies of the crate that a call may run."""
        F, out = self.F, []
        res = fn.get("res")
        if res and res.get("key") in F.bodies and F.bodies[res["key"]].local:
            out.append(F.bodies[res["key"]])
        for t in list(fn.get("args", ())) + list(args_ty):
            for c in closures(t):
                b = F.by_path.get(c)
                if b is not None and b.kind != "coroutine" and not b.coroutine:
                    out.append(b)
            if isinstance(t, tuple) and t and t[0] == "fndef" and t[2] in F.bodies:
                out.append(F.bodies[t[2]])
        if fn.get("name", fn["path"].rsplit("::", 1)[-1]) in SHOWS:
            for t in list(fn.get("args", ())) + list(args_ty):
                out += self.shown(t)
        return out

    def shown(self, t):
        """Bodies that print a value of a type."""
        out = []
        while isinstance(t, tuple) and t and t[0] in ("ref", "ptr"):
            t = t[2]
        for a in adts(t):
            for tr in ("core::fmt::Debug", "core::fmt::Display"):
                for i in self.F.impls_by_trait.get(tr, ()):
                    if i["self"] and i["self"][0] == "adt" and i["self"][1] == a[1] and "fmt" in i["items"]:
                        b = self.F.bodies.get(i["items"]["fmt"].get("key"))
                        if b:
                            out.append(b)
        return out

    def direct(self, fn, args_ty):
        """What a call does itself: [(kind, table or what)]."""
        res = fn.get("res") or {}
        path = strip(res.get("path") or fn["path"])
        name = path.rsplit("::", 1)[-1]
        gargs = tuple(res.get("args", ())) + tuple(fn.get("args", ()))
        out = []
        here = path.startswith(("dashmap::", "<dashmap::", "<&dashmap::", "<&mut dashmap::"))
        if here and name not in FREE and not name.startswith("try_") and "mapref" not in path and "iter::" not in path:
            for t in gargs + tuple(args_ty):
                for a in adts(t):
                    if a[1] in ("dashmap::DashMap", "dashmap::DashSet"):
                        out.append(("locks", ("table",) + tuple(table_of(a[2]))))
            if not out and ("DashMap" in path or "DashSet" in path):
                out.append(("locks", ("table",) + tuple(table_of(gargs))))
        elif not here and name in SHOWS | {"fmt", "clone"}:
            for t in gargs + tuple(args_ty):
                for a in adts(t):
                    if a[1] == "dashmap::DashMap" and not (name == "clone" and any(x[1].endswith(("::Arc", "::Rc")) for x in adts(t))):
                        out.append(("locks", ("table",) + tuple(table_of(a[2]))))
        if name in LOCKING:
            for t in (tuple(args_ty[:1]) or gargs):
                for a in adts(t):
                    if a[1].rsplit("::", 1)[-1] in LOCKS and ("sync" in a[1] or "lock" in a[1]):
                        out.append(("locks", ("lock",) + tuple(table_of(a[2])[:1])))
        if name in BLOCKING and path.startswith(BLOCKERS):
            out.append(("blocks", path))
        tr = fn.get("trait")
        if tr and not fn.get("res") and tr.startswith(USER_TRAITS):
            s = fn["args"][0] if fn.get("args") else None
            while isinstance(s, tuple) and s and s[0] in ("ref", "ptr"):
                s = s[2]
            if s and s[0] in ("param", "dyn", "alias"):
                out.append(("user", "%s of %s" % (fn["path"], s[1])))
        elif tr and tr.startswith(USER_TRAITS) and (name.startswith("poll") or name == "now_or_never") and owned_user(self.F, fn["args"][0], self.upvars) \
                and not (res.get("key") in self.F.bodies):
            out.append(("user", "%s of %s" % (fn["path"], "a future of the user")))
        return list(dict.fromkeys(out))

    def summary(self, b, stack=()):
        """Everything a body may do: {(kind, what): [sites]}."""
        if b.key in self.sums:
            return self.sums[b.key]
        if b.key in stack:
            return {}
        out = {}
        for i, bl in enumerate(b.blocks):
            if bl["c"]:
                continue
            for kind, sites in self.effects(b, i, stack + (b.key,)).items():
                out.setdefault(kind, sites)
        if not stack or not any(k in stack for k in callees(self, b)):
            self.sums[b.key] = out
        return out

    def effects(self, b, i, stack=()):
        t = b.blocks[i]["t"]
        out, bodies = {}, []
        if t["k"] == "call":
            fn = t["func"][1].get("fn") if t["func"][0] == "const" else None
            if fn is None:
                return {("user", "a function pointer"): (t["sp"],)} if t["func"][0] in ("copy", "move") else {}
            tys = [self.type_of(b, a) for a in t["args"]]
            for x in self.direct(fn, tys):
                out[x] = (t["sp"],)
            bodies = self.targets(fn, tys)
        elif t["k"] == "drop":
            bodies = list(self.local_drop(self.place_type(b, t["place"])))
        for s in b.blocks[i]["s"]:
            if s[0] == "assign" and s[2][0] == "cast" and "Unsize" in str(s[2][1]):
                to = s[2][3]
                if any(x in str(to) for x in ("core::fmt::Debug", "core::fmt::Display")):
                    ty = self.type_of(b, s[2][2])
                    bodies += self.shown(ty)
                    for a in adts(ty):
                        if a[1] == "dashmap::DashMap":
                            out[("locks", ("table",) + tuple(table_of(a[2])))] = (s[3],)
        for c in bodies:
            if c.coroutine:
                continue
            for k, sites in self.summary(c, stack).items():
                if k not in out:
                    out[k] = ((t.get("sp") or b.span) + " calls " + c.path,) + sites
        return out

    # Which guards are alive.

    def alive(self, b):
        """The guards that may be alive where each block starts; a move path is (local, path)."""
        entry = {0: frozenset()}
        # The arguments and captured values of a closure.
        start = set()
        for l in range(1, b.argc + 1):
            start |= {(l, p) for p, _ in self.leaves(b.locals[l])}
        entry[0] = frozenset(start)
        todo, out = [0], {}
        while todo:
            i = todo.pop()
            live = self.through(b, i, set(entry[i]))
            out[i] = live
            for j, x in self.edges(b, i, live):
                new = entry.get(j, frozenset()) | x
                if j not in entry or new != entry[j]:
                    entry[j] = frozenset(new)
                    todo.append(j)
        return entry

    def through(self, b, i, live):
        for s in b.blocks[i]["s"]:
            if s[0] == "dead":
                live = {x for x in live if x[0] != s[1]}
            elif s[0] == "assign":
                live = self.assign(b, live, s[1], s[2])
        return live

    def path_of(self, p):
        """The move path of a place, or nothing if it is behind a reference."""
        out, var = [], None
        for e in p[1]:
            if e[0] == "downcast":
                var = e[1]
            elif e[0] == "field":
                out.append((var, e[1]))
                var = None
            else:
                return None
        return (p[0], tuple(out))

    def take(self, live, p):
        """Moves what is at a place: (what is left, the paths below it that were alive)."""
        mp = self.path_of(p)
        if mp is None:
            return live, set()
        l, path = mp
        left, got = set(), set()
        for x in live:
            if x[0] == l and same(x[1][:len(path)], path):
                got.add(x[1][len(path):])
            elif x[0] == l and same(path[:len(x[1])], x[1]):
                got.add(())             # A part of an opaque value.
            else:
                left.add(x)
        return left, got

    def assign(self, b, live, dest, r):
        gen = set()
        mp = self.path_of(dest)
        if r[0] in ("use",) or r[0] == "cast":
            o = r[1] if r[0] == "use" else r[2]
            if o[0] == "move":
                live, got = self.take(live, o[1])
                gen = {p for p in got} if r[0] == "use" else ({()} if got else set())
        elif r[0] == "agg":
            var = r[1][2] if r[1][0] == "adt" else None
            if r[1][0] == "adt":
                a = self.F.adts.get(r[1][1])
                if a and a["kind"] == "struct":
                    var = None
            for i, o in enumerate(r[2]):
                if o[0] == "move":
                    live, got = self.take(live, o[1])
                    gen |= {((var, i),) + p for p in got}
        if mp is None:
            return live
        live = {x for x in live if not (x[0] == mp[0] and x[1][:len(mp[1])] == mp[1])}
        return live | {(mp[0], mp[1] + p) for p in gen}

    def edges(self, b, i, live):
        t = b.blocks[i]["t"]
        k = t["k"]
        if k == "call":
            if t["t"] is None:
                return
            for a in t["args"]:
                if a[0] == "move":
                    live, _ = self.take(live, a[1])
            mp = self.path_of(t["dest"])
            if mp is not None:
                live = {x for x in live if not (x[0] == mp[0] and x[1][:len(mp[1])] == mp[1])}
                live = live | {(mp[0], mp[1] + p) for p, _ in self.leaves(self.place_type(b, t["dest"]))}
            yield t["t"], frozenset(live)
        elif k == "drop":
            live, _ = self.take(live, t["place"])
            yield t["t"], frozenset(live)
        elif k == "switch":
            of = self.tested(b, i, t)
            for v, j in t["cases"]:
                yield j, frozenset(self.only(live, of, lambda x, v=v: x == v))
            vs = {v for v, _ in t["cases"]}
            yield t["otherwise"], frozenset(self.only(live, of, lambda x: x not in vs))
        else:
            for j in b.succ(i):
                yield j, frozenset(live)

    def tested(self, b, i, t):
        if t["op"][0] not in ("copy", "move") or t["op"][1][1]:
            return None
        l = t["op"][1][0]
        for s in reversed(b.blocks[i]["s"]):
            if s[0] == "assign" and s[1] == (l, ()):
                return self.path_of(s[2][1]) if s[2][0] == "discr" else None
        ds = [s[2] for bl in b.blocks for s in bl["s"] if s[0] == "assign" and s[1] == (l, ())]
        if len(ds) == 1 and ds[0][0] == "discr":
            return self.path_of(ds[0][1])
        return None

    def only(self, live, of, keep):
        if of is None:
            return live
        n = len(of[1])
        return {x for x in live if not (x[0] == of[0] and same(x[1][:n], of[1]) and len(x[1]) > n and x[1][n][0] is not None and not keep(x[1][n][0]))}

    def table(self, b, x):
        for p, g in self.leaves(b.locals[x[0]]):
            if p[:len(x[1])] == x[1] or x[1][:len(p)] == p:
                return g
        return ("?",)


def same(a, b):
    """The same fields, where a variant may be left out."""
    return len(a) == len(b) and all(x[1] == y[1] and (x[0] == y[0] or x[0] is None or y[0] is None) for x, y in zip(a, b))


def subst(t, a, of):
    """The type of a field for the arguments of its type."""
    ps = [g for g in a["generics"]]
    names = [g if isinstance(g, str) else g[0] if g else "" for g in ps]
    m = dict(zip(names[-len(of[2]):] if of[2] else (), of[2]))

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "param" and x[1] in m:
                return m[x[1]]
            return tuple(go(y) for y in x)
        return x
    return go(t)


def closures(t):
    if isinstance(t, tuple):
        if t and t[0] == "closure":
            yield t[1]
        for x in t:
            yield from closures(x)


def callees(L, b):
    out = set()
    for bl in b.blocks:
        t = bl["t"]
        if t["k"] == "call" and t["func"][0] == "const" and "fn" in t["func"][1]:
            out |= {c.key for c in L.targets(t["func"][1]["fn"], [L.type_of(b, a) for a in t["args"]])}
    return out


def owned_user(F, t, upvars, depth=0):
    """May polling a value of this type run a future of the user's?"""
    if not isinstance(t, tuple) or not t or depth > 8:
        return False
    if t[0] in ("param", "dyn", "alias"):
        return True
    if t[0] in ("coroutine", "closure"):
        return True
    return any(owned_user(F, x, upvars, depth + 1) for x in t[1:] if isinstance(x, tuple)) or any(
        owned_user(F, y, upvars, depth + 1) for x in t[1:] if isinstance(x, tuple) for y in x if isinstance(y, tuple))


def name(g):
    from ..show import ty
    return "%s of %s" % ("the table" if g[0] == "table" else "a lock", ", ".join(ty(x) for x in g[1:]))


FUTURES = ("core::future::future::Future", "futures_core::stream::Stream", "futures_sink::Sink", "tower_service::Service")


@prop("P24", technique="liveness of lock guards (entries, references and iterators of DashMap, guards of mutexes) over move paths of the MIR of every function, "
      "with summaries of what each call may lock, block on or run; at each point where a guard is alive nothing suspends, blocks, runs code of the user, or locks "
      "the same table; tables are locked in one order",
      assumptions=ASSUME + ["wakers and subscribers of tracing do not call back into the server", "a table is told apart from another by the types of its keys and values"])
def p24(ctx):
    rep = ctx.rep
    for f in ctx.features:
        L = Locks(ctx.F[f])
        order, guards, ops, tables = {}, 0, 0, set()
        under = {}
        for b in sorted((b for b in L.F.bodies.values() if b.local), key=lambda b: b.path):
            for i, bl in enumerate(b.blocks):
                if bl["c"]:
                    continue
                t = bl["t"]
                fn = t["func"][1].get("fn") if t["k"] == "call" and t["func"][0] == "const" else None
                if fn:
                    tys = [L.type_of(b, a) for a in t["args"]]
                    ds = [x for k, x in L.direct(fn, tys) if k == "locks"]
                    ops += len(ds)
                    tables |= set(ds)
                    # Closures given to an operation on a table run under its lock.
                    for g in ds:
                        for c in {c for ty in list(fn.get("args", ())) + tys for c in closures(ty)}:
                            cb = L.F.by_path.get(c)
                            if cb is not None and not cb.coroutine:
                                under.setdefault((cb.key, g), (t["sp"], cb))
                        if fn["path"].rsplit("::", 1)[-1] in ("retain", "clear"):
                            bad = users(L, g)
                            rep.check(not bad, "values dropped under a lock run no code of the user", "drops:%s:%s" % (b.path, f),
                                      "dropping the values of %s runs code of the user under its lock" % name(g), t["sp"])
            if not any(L.leaves(t) for t in b.locals):
                continue
            rep.functions[b.path] = f
            entry = L.alive(b)
            for i, live in sorted(entry.items()):
                bl = b.blocks[i]
                if bl["c"]:
                    continue
                live = L.through(b, i, set(live))
                if not live:
                    continue
                guards += 1
                rep.sites.add("%s#%d" % (b.path, i))
                rep.steps += 1
                held = {L.table(b, x): x for x in live}
                t = bl["t"]
                who = ", ".join(sorted(name(g) for g in held))
                if t["k"] == "yield":
                    rep.check(False, "no lock is held while suspended", "suspends:%s:%s" % (b.path, f), "the task is suspended while it holds a lock: %s" % who, "%s (%s)" % (t.get("sp") or b.span, b.path))
                    continue
                judge(rep, L, b, i, held, order, f)
        for (k, g), (site, cb) in sorted(under.items(), key=str):
            for kind, sites in L.summary(cb).items():
                one(rep, kind, sites, {g: None}, cb, site, order, f)
            rep.check(True, "what runs under a lock is followed", "closure:%s:%s" % (cb.path, f), "", cb.span)
        # Guards are not kept by values that outlive a call.
        for path, (tys, b) in sorted(L.upvars.items()):
            cb = L.F.by_path.get(path)
            if cb is not None and cb.coroutine:
                kept = [g for t in tys for _, g in L.leaves(t)]
                rep.check(not kept, "no future captures a lock", "captures:%s:%s" % (path, f), "a future captures a lock: %s" % ", ".join(name(g) for g in kept), cb.span)
        for tr in FUTURES:
            for im in L.F.impls_by_trait.get(tr, ()):
                if im["self"] and im["self"][0] == "adt" and (L.F.adts.get(im["self"][1]) or {}).get("local"):
                    kept = [g for _, g in L.leaves(im["self"])]
                    rep.check(not kept, "no future captures a lock", "captures:%s:%s" % (im["self"][1], f), "a future keeps a lock: %s" % ", ".join(name(g) for g in kept), im["self"][1])
        for b in sorted((b for b in L.F.bodies.values() if b.local), key=lambda b: b.path):
            for i, bl in enumerate(b.blocks):
                t = bl["t"]
                if t["k"] == "call" and not bl["c"] and t["func"][0] == "const" and "fn" in t["func"][1]:
                    p = t["func"][1]["fn"]["path"]
                    if p.endswith(("mem::forget", "ManuallyDrop::<T>::new", "::leak")) and any(L.leaves(L.type_of(b, a)) for a in t["args"]):
                        rep.check(False, "every lock is released", "forgets:%s:%s" % (b.path, f), "a lock is never released: %s" % p, "%s (%s)" % (t["sp"], b.path))
        # One order among the tables.
        for (a, c), site in sorted(order.items(), key=str):
            back = reaches(order, c, a)
            rep.check(not back, "tables are locked in one order", "order:%s:%s:%s" % (name(a), name(c), f),
                      "%s is locked while %s is (%s), and the other way round (%s)" % (name(c), name(a), site, back), site)
        rep.floor(ops, 4, "operations on tables (%s)" % f)
        rep.floor(len(tables), 1, "tables (%s)" % f)
        rep.notes.append("%s: %d operations on %d tables, %d points where a guard is alive, %d closures under a lock" % (f, ops, len(tables), guards, len(under)))


def users(L, g):
    def go(t, d=0):
        if not isinstance(t, tuple) or not t or d > 8:
            return False
        if t[0] in ("dyn", "param"):
            return True
        return any(go(x, d + 1) for x in t if isinstance(x, tuple))
    return [t for t in g[1:] if go(t)]


def judge(rep, L, b, i, held, order, f):
    t = b.blocks[i]["t"]
    site = t.get("sp") or b.span
    eff = L.effects(b, i)
    for kind, sites in eff.items():
        one(rep, kind, sites, held, b, site, order, f)
    rep.check(True, "what runs under a lock is followed", "point:%s:%s" % (b.path, f), "", "%s (%s)" % (site, b.path))


def one(rep, kind, sites, held, b, site, order, f):
    where = "%s (%s)" % (site, b.path)
    via = " > ".join(sites)[:400]
    k, x = kind
    if k == "locks":
        for g in held:
            if g == x:
                rep.check(False, "no table is accessed while it is locked", "nested:%s:%s" % (b.path, f), "%s is accessed while a lock of it is held: %s" % (name(g), via), where)
            else:
                order.setdefault((g, x), where)
    elif k == "user":
        rep.check(False, "no code of the user runs under a lock", "user:%s:%s" % (b.path, f), "code of the user runs while %s is locked: %s, at %s" % (", ".join(name(g) for g in held), x, via), where)
    elif k == "blocks":
        rep.check(False, "nothing blocks under a lock", "blocks:%s:%s" % (b.path, f), "%s blocks while %s is locked, at %s" % (x, ", ".join(name(g) for g in held), via), where)


def reaches(order, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for (p, q), site in order.items():
            if p == x:
                if q == b:
                    return site
                todo.append(q)
    return None
