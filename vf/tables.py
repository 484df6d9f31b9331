"""Models of the table of waiting requests: a concurrent map from ids to the channels that wait.

The table is a cell that remembers what the path did to each key; what it held before is unknown, so
that the first access to a key splits the path by whether the key was there, and by how many waited.
A vector is `("vec", items, rest, tail)`: known items, perhaps unknown ones (a name, or None), more
known items.
"""
from .engine import *
from .models import strip
from .streams import STREAMS

TABLES = {}
ENTRY = "dashmap::mapref::entry::Entry"
OTHER = ("sym", "others")


def tmodel(*names):
    def f(g):
        for n in names:
            TABLES[n] = g
        return g
    return f


# -------------------------------------------------------------------------------------- vectors

VEC, DEQUE = "alloc::vec::Vec::", "alloc::collections::vec_deque::VecDeque::"
UNINIT = ("uninit",)


@tmodel("alloc::boxed::Box::new_uninit")
def m_uninit(e, st, args, info):
    return ret(st, e.alloc(st, UNINIT))


@tmodel("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::into_vec", "alloc::slice::<impl [T]>::into_vec")
def m_into_vec(e, st, args, info):
    a = array(e.deref(st, args[0]))
    return ret(st, ("vec", a[1], None, ())) if a else None


def array(v, d=0):
    if isinstance(v, tuple) and v and d < 8:
        if v[0] == "array":
            return v
        if v[0] == "upd" and isinstance(v[2], tuple) and len(v[2]) == 1:
            return array(v[2][0][1], d + 1)
    return None


@tmodel(VEC + "new", VEC + "with_capacity", DEQUE + "new", DEQUE + "with_capacity")
def m_vnew(e, st, args, info):
    return ret(st, ("vec", (), None, ()))


@tmodel("core::default::Default::default")
def m_default(e, st, args, info):
    ty = info[4][0] if info[4] else None
    if ty and ty[0] == "adt" and ty[1] in (VEC[:-2], DEQUE[:-2]):
        return ret(st, ("vec", (), None, ()))
    if ty and ty[0] == "adt" and ty[1] == "dashmap::DashMap":
        return m_dnew(e, st, args, info)
    return None


@tmodel("core::convert::From::from", "core::convert::Into::into", "core::iter::traits::collect::FromIterator::from_iter")
def m_vfrom(e, st, args, info):
    ty = e.norm(info[7]) if info[7] else None
    v = args[0]
    if ty and ty[0] == "adt" and ty[1] in (VEC[:-2], DEQUE[:-2]):
        if v[0] == "vec":
            return ret(st, v)
        if array(v):
            return ret(st, ("vec", array(v)[1], None, ()))
    f = STREAMS.get(strip(info[0]))
    return f(e, st, args, info) if f else None


def vec_at(e, st, ref):
    r, p = e.pointee(ref)
    for _ in range(4):
        v = e.read(st, r, p)
        if v[0] == "ref":
            r, p = e.pointee(v)
        else:
            break
    return (r, p, v) if v[0] == "vec" else None


def length(st, v):
    if v[2] is None:
        return ("int", len(v[1]) + len(v[3]))
    n = len(v[1]) + len(v[3])
    t = ("call", "len", (v[2], ("int", n)), 0)
    st.facts.setdefault(("b", t), (n, None))
    return t


def known(v):
    return v if v[2] is not None else ("vec", v[1] + v[3], None, ())


def panics(e, st, what, info):
    if e.watch:
        e.watch.diverges(e, st, what, (), info[5]["sp"], info[6])
    return [(st, "panic", ("call", what, (), info[5]["sp"], info[6].path if info[6] else ""))]


def vecop(op):
    def m(e, st, args, info):
        loc = vec_at(e, st, args[0])
        if loc is None:
            return None
        r, p, v = loc
        v = known(v)
        put_ = lambda s, x: e.write(s, r, p, known(x))
        if op == "len":
            return ret(st, length(st, v))
        if op == "is_empty":
            return ret(st, ("int", int(v[2] is None and not v[1])))
        if op in ("reserve", "shrink_to_fit"):
            return ret(st, UNIT)
        if op in ("push", "push_back"):
            if v[2] is None:
                put_(st, ("vec", v[1] + (args[1],), None, ()))
            else:
                put_(st, ("vec", v[1], v[2], v[3] + (args[1],)))
            st.log(Event("wait", op, (args[1],), (args[1],), None, info[5]["sp"]))
            return ret(st, UNIT)
        if op in ("remove", "pop_front", "swap_remove"):
            if op != "pop_front" and e.ev(st, args[1]) != ("int", 0):
                raise Limit("%s of %s" % (op, show(args[1])))
            opt = op == "pop_front"
            if v[1]:
                x, rest = v[1][0], v[1][1:]
                if op == "swap_remove" and (rest or v[2] is not None):
                    raise Limit("swap_remove changes the order")
                put_(st, ("vec", rest, v[2], v[3]))
                return ret(st, some(x) if opt else x)
            if v[2] is None:
                return ret(st, none()) if opt else panics(e, st, op + " of an empty vector", info)
            raise Limit("the front of an unknown vector")
        if op in ("pop", "pop_back"):
            if v[2] is None:
                if not v[1]:
                    return ret(st, none())
                put_(st, ("vec", v[1][:-1], None, ()))
                return ret(st, some(v[1][-1]))
            if v[3]:
                put_(st, ("vec", v[1], v[2], v[3][:-1]))
                return ret(st, some(v[3][-1]))
            # The last one of those unknown.
            n = ("sym", "last of " + v[2][1])
            put_(st, ("vec", v[1], ("sym", v[2][1] + " but one"), ()))
            return ret(st, some(n))
        if op in ("clear",):
            put_(st, ("vec", (), None, ()))
            return ret(st, UNIT)
        if op in ("first", "front"):
            if v[1]:
                return ret(st, some(e.alloc(st, v[1][0])))
            if v[2] is None:
                return ret(st, none())
        if op == "insert":
            if e.ev(st, args[1]) == ("int", 0):
                put_(st, ("vec", (args[2],) + v[1], v[2], v[3]))
                st.log(Event("wait", op, (args[2],), (args[2],), None, info[5]["sp"]))
                return ret(st, UNIT)
        if op == "push_front":
            put_(st, ("vec", (args[1],) + v[1], v[2], v[3]))
            st.log(Event("wait", op, (args[1],), (args[1],), None, info[5]["sp"]))
            return ret(st, UNIT)
        raise Limit("`%s` of a vector of waiting requests" % op)
    return m


for _n in ("len", "is_empty", "reserve", "push", "remove", "swap_remove", "pop", "clear", "first", "insert", "shrink_to_fit"):
    TABLES[VEC + _n] = vecop(_n)
    TABLES["core::slice::" + _n] = vecop(_n)
    TABLES["core::slice::<impl [T]>::" + _n] = vecop(_n)
for _n in ("len", "is_empty", "reserve", "push_back", "push_front", "pop_front", "pop_back", "clear", "front", "shrink_to_fit"):
    TABLES[DEQUE + _n] = vecop(_n)


# ------------------------------------------------------------------------------------- the table

@tmodel("dashmap::DashMap::new", "dashmap::DashMap::with_capacity", "dashmap::DashMap::with_shard_amount")
def m_dnew(e, st, args, info):
    return ret(st, ("dmap", e.alloc(st, ("entries", ()))))


def table(e, st, ref):
    v = e.deref(st, ref) if ref[0] == "ref" else ref
    for _ in range(4):
        if v[0] == "ref":
            v = e.deref(st, v)
    return v[1] if v[0] == "dmap" else None


def initial(info):
    """What a key that is there can hold: [(name, value)]."""
    g = info[4]
    ty = g[1] if len(g) > 1 else None
    w = lambda n: ("tx", "oneshot", n, 0)
    if ty and ty[0] == "adt" and ty[1] in (VEC[:-2], DEQUE[:-2]):
        return [("one", ("vec", (w("w1"),), None, ())), ("two", ("vec", (w("w1"), w("w2")), None, ())),
                ("more", ("vec", (w("w1"), w("w2"), w("w3")), OTHER, ()))]
    if ty and ty[0] == "adt" and ty[1].endswith("oneshot::Sender"):
        return [("one", w("w1"))]
    return [("some", ("sym", "entry"))]


def lookup(e, st, cell, key, info):
    """Splits by what the table holds for the key: [(state, key, ref to the value or None)]."""
    key = e.snap(st, e.deref(st, key) if key[0] == "ref" else key)
    es = e.deref(st, cell)[1]
    for k, v in es:
        if k == key:
            return [(st, key, v)]
    if es:
        raise Limit("two different keys of one table: %s, %s" % (show(es[0][0])[:80], show(key)[:80]))
    out = []
    for name, x in [("absent", None)] + initial(info):
        s = st.fork()
        v = None if x is None else e.alloc(s, x)
        store(e, s, cell, key, v)
        s.log(Event("lookup", name, (key,), (key, v if x is None else x), ("str", name), info[5]["sp"]))
        out.append((s, key, v))
    return out


def store(e, st, cell, key, ref):
    es = tuple((k, v) for k, v in e.deref(st, cell)[1] if k != key)
    e.write(st, cell[1], cell[2], ("entries", es + ((key, ref),)))


def contents(e, st, cell):
    """{key: value or None} of what the path has touched."""
    return {k: (None if v is None else e.deref(st, v)) for k, v in e.deref(st, cell)[1]}


def waiting(e, st, v, info):
    """A value put into the table: the channels in it now wait."""
    for t in find(v, lambda x: x[0] == "tx" and x[1] == "oneshot"):
        st.log(Event("wait", "insert", (t,), (t,), None, info[5]["sp"]))


def find(v, p, d=0):
    if not isinstance(v, tuple) or not v or d > 12:
        return []
    if isinstance(v[0], str) and p(v):
        return [v]
    return [y for x in v for y in find(x, p, d + 1)]


def tableop(op):
    def m(e, st, args, info):
        c = table(e, st, args[0])
        if c is None:
            return None
        if op in ("len", "is_empty", "iter", "iter_mut", "clear", "retain"):
            if op in ("clear", "retain", "iter_mut"):
                st.log(Event("whole", op, args, (c,), None, info[5]["sp"]))
            return None
        out = []
        for s, k, v in lookup(e, st, c, args[1], info):
            if op == "entry":
                x = ("adt", ENTRY, 0 if v else 1, (("dent", c, k),))
            elif op == "contains_key":
                x = ("int", int(v is not None))
            elif op in ("get", "get_mut"):
                x = none() if v is None else some(("dguard", v))
            elif op in ("remove", "insert"):
                x = none() if v is None else some(e.deref(s, v) if op == "insert" else ("tuple", (k, e.deref(s, v))))
                if op == "insert":
                    waiting(e, s, args[2], info)
                    store(e, s, c, k, e.alloc(s, args[2]))
                else:
                    store(e, s, c, k, None)
            elif op == "remove_if" and v is None:
                x = none()
            elif op == "remove_if":
                for s2, kd, y in e.apply(s, args[2], (e.alloc(s, k), v)):
                    if kd != "ret":
                        out.append((s2, kd, y))
                        continue
                    for n in (0, 1):
                        s3 = s2.fork()
                        if not e.assume(s3, y, n):
                            continue
                        z = some(("tuple", (k, e.deref(s3, v)))) if n else none()
                        if n:
                            store(e, s3, c, k, None)
                        out.append((s3, "ret", z))
                continue
            else:
                raise Limit("`%s` of the table of waiting requests" % op)
            out.append((s, "ret", x))
        return out
    return m


for _n in ("entry", "get", "get_mut", "remove", "insert", "contains_key", "remove_if", "remove_if_mut", "len", "is_empty", "iter", "iter_mut",
           "clear", "retain", "alter", "view", "try_entry", "try_get", "try_get_mut", "insert_and_get"):
    TABLES["dashmap::DashMap::" + _n] = tableop(_n)


def handle(e, st, v):
    for _ in range(4):
        if v[0] == "ref":
            v = e.deref(st, v)
    return v if v[0] == "dent" else None


def entryop(op):
    def m(e, st, args, info):
        h = handle(e, st, args[0])
        if h is None:
            return None
        _, c, k = h
        v = next((y for x, y in e.deref(st, c)[1] if x == k), None)
        if op in ("insert", "insert_entry"):
            old = None if v is None else e.deref(st, v)
            waiting(e, st, args[1], info)
            b = e.alloc(st, args[1])
            store(e, st, c, k, b)
            return ret(st, ("dguard", b) if old is None else old)
        if op == "key":
            return ret(st, e.alloc(st, k))
        if v is None:
            raise Limit("an entry that was removed")
        if op in ("get", "get_mut", "into_ref"):
            return ret(st, ("ref", v[1], v[2], op == "get_mut") if op != "into_ref" else ("dguard", v))
        if op in ("remove", "remove_entry"):
            old = e.deref(st, v)
            store(e, st, c, k, None)
            return ret(st, old if op == "remove" else ("tuple", (k, old)))
        raise Limit("`%s` of an entry" % op)
    return m


for _n in ("insert", "insert_entry", "get", "get_mut", "into_ref", "remove", "remove_entry", "key"):
    TABLES["dashmap::mapref::entry::OccupiedEntry::" + _n] = entryop(_n)
    TABLES["dashmap::mapref::entry::VacantEntry::" + _n] = entryop(_n)


@tmodel(ENTRY + "::or_insert_with", ENTRY + "::or_insert", ENTRY + "::or_default")
def m_or_insert(e, st, args, info):
    v = args[0]
    if v[0] != "adt" or v[3][0][0] != "dent":
        return None
    _, c, k = v[3][0]
    cur = next((y for x, y in e.deref(st, c)[1] if x == k), None)
    if cur is not None:
        return ret(st, ("dguard", cur))
    op = info[3] or strip(info[0]).rsplit("::", 1)[-1]
    if op == "or_default":
        outs = [(st, "ret", ("vec", (), None, ()))]
    elif op == "or_insert":
        outs = [(st, "ret", args[1])]
    else:
        outs = e.call_value(st, args[1], UNIT, info[5], info[6])
    out = []
    for s, kd, x in outs:
        if kd == "ret":
            waiting(e, s, x, info)
            b = e.alloc(s, x)
            store(e, s, c, k, b)
            x = ("dguard", b)
        out.append((s, kd, x))
    return out


@tmodel(ENTRY + "::and_modify")
def m_and_modify(e, st, args, info):
    v = args[0]
    if v[0] != "adt" or v[3][0][0] != "dent":
        return None
    _, c, k = v[3][0]
    cur = next((y for x, y in e.deref(st, c)[1] if x == k), None)
    if cur is None:
        return ret(st, v)
    return [(s, kd, v if kd == "ret" else y) for s, kd, y in e.apply(st, args[1], (("ref", cur[1], cur[2], True),))]


@tmodel("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::borrow::Borrow::borrow", "core::convert::AsRef::as_ref",
        VEC + "as_slice", "core::borrow::BorrowMut::borrow_mut")
def m_guard(e, st, args, info):
    v = e.deref(st, args[0]) if args[0][0] == "ref" else args[0]
    if v[0] == "ref":
        w = e.deref(st, v)
        if w[0] in ("dguard", "vec"):
            v, args = w, (v,)
    if v[0] == "dguard":
        return ret(st, ("ref", v[1][1], v[1][2], "mut" in info[0]))
    if v[0] == "vec":
        return ret(st, args[0])
    f = STREAMS.get(strip(info[0]))
    return f(e, st, args, info) if f else None


@tmodel("dashmap::mapref::one::RefMut::value_mut", "dashmap::mapref::one::RefMut::value", "dashmap::mapref::one::Ref::value")
def m_guard_value(e, st, args, info):
    return m_guard(e, st, args, info)


# ------------------------------------------------------------------------------------- one answer

@tmodel("futures_channel::oneshot::channel")
def m_oneshot(e, st, args, info):
    n = st.fresh()
    return ret(st, ("tuple", (("tx", "oneshot", n, 0), ("rx", "oneshot", n))))


@tmodel("futures_channel::oneshot::Sender::send")
def m_answer(e, st, args, info):
    tx = args[0]
    if tx[0] == "ref":
        tx = e.deref(st, tx)
    v = e.snap(st, args[1])
    st.log(Event("answer", "", (tx, v), (tx, v), None, info[5]["sp"]))
    s = st.fork()
    return [(st, "ret", ok(UNIT)), (s, "ret", err(args[1]))]


@tmodel("futures_channel::oneshot::Sender::is_canceled")
def m_canceled(e, st, args, info):
    r, p = e.pointee(args[0])
    return ret(st, ("call", "canceled", (e.read(st, r, p),), 0))


# ------------------------------------------------------------------------------------ the client

VALUE = "serde_json::value::Value"
LSP = "lsp_types::"


@tmodel("serde_json::value::to_value", "serde_json::to_value")
def m_to_value(e, st, args, info):
    ty = e.norm(info[4][0]) if info[4] else None
    v = e.snap(st, args[0])
    while ty and ty[0] == "ref":
        ty = ty[2]
        v = v[1] if v[0] == "&" else v
    if ty and ty[0] == "adt" and ty[1] == VALUE:
        return ret(st, ok(v))
    if ty and (ty == ("tuple", ()) or ty[0] == "adt" and ty[1].startswith(LSP)):
        return ret(st, ok(("json", v)))
    s = st.fork()
    s.log(Event("unserializable", "", (v,), (v,), None, info[5]["sp"]))
    return [(st, "ret", ok(("json", v))), (s, "ret", err(("sym", "not serializable")))]


@tmodel("core::sync::atomic::Atomic::load", "core::sync::atomic::Atomic::fetch_add")
def m_u32(e, st, args, info):
    if "u32" not in info[1]:
        return None
    outs = e.opaque_call(st, info[1], args, info[5], info[6], info[7], info[4], info[0])
    for s, k, v in outs:
        if k == "ret":
            s.facts[("b", v)] = (0, 2 ** 32 - 1)
    return outs


TESTS = {"is_null": ("Null",), "is_array": ("Array",), "is_object": ("Object",), "is_string": ("String",), "is_number": ("Number",), "is_boolean": ("Bool",)}


def value_test(names):
    def m(e, st, args, info):
        v = e.deref(st, args[0]) if args[0][0] == "ref" else args[0]
        d = value_variants(e)
        if v[0] == "vec" or d is None:
            return None
        out = []
        for s, n in e.split(st, v, len(d)):
            out.append((s, "ret", ("int", int(d[n] in names))))
        return out
    return m


def value_variants(e):
    a = e.F.adts.get(VALUE)
    return [x["name"] for x in a["variants"]] if a else None


for _n, _v in TESTS.items():
    TABLES[VALUE + "::" + _n] = value_test(_v)

PDP = "lsp_types::PublishDiagnosticsParams"


@tmodel(PDP + "::new")
def m_pdp(e, st, args, info):
    a = e.F.adts.get(PDP)
    if not a:
        return None
    names = [f[0] for f in a["variants"][0]["fields"]]
    d = dict(zip(("uri", "diagnostics", "version"), args))
    return ret(st, ("adt", PDP, 0, tuple(d.get(n, ("sym", "?" + n)) for n in names)))


CLIENT = {**STREAMS, **TABLES}
