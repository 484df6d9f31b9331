"""Models of the library types that the crate is built from: maps, boxed services, channels, atomics."""
import functools

from .engine import *
from . import engine, seqs

HENTRY = "std::collections::hash::map::Entry"
SVC = "tower_service::Service"


@functools.lru_cache(None)
def strip(path):
    """Drops generic arguments written into a path: `A::<T>::f` becomes `A::f`."""
    out, i, d = [], 0, 0
    while i < len(path):
        if d == 0 and path.startswith("::<", i) and not path.startswith("::<impl", i):
            d = 1
            i += 3
            continue
        c = path[i]
        if d:
            if c == "<":
                d += 1
            elif c == ">" and path[i - 1] != "-":
                d -= 1
        else:
            out.append(c)
        i += 1
    return "".join(out)


SMODELS = {}


def smodel(*names):
    def f(g):
        for n in names:
            SMODELS[n] = g
        return g
    return f


_strip_cache = {}


def lookup(self, path, rpath):
    for p in (rpath, path):
        k = _strip_cache.get(p)
        if k is None:
            k = _strip_cache[p] = strip(p)
        m = SMODELS.get(k)
        if m:
            return m
    return None


Engine.model_by_suffix = lookup
Engine.strip = staticmethod(strip)


# ------------------------------------------------------------------------------------- hash maps

def key_of(e, st, v):
    for _ in range(4):
        if v[0] == "ref":
            v = e.read(st, v[1], v[2])
        elif v[0] == "deref":
            v = v[1]
        else:
            break
    return v


def hmap(e, st, ref):
    r, p = e.pointee(ref)
    m = e.read(st, r, p)
    return (r, p, m) if m[0] == "hmap" else None


def concrete(m, k):
    return k[0] in ("str", "int") and all(x[0] in ("str", "int") for x, _ in m[1])


@smodel("std::collections::hash::map::HashMap::new", "std::collections::hash::map::HashMap::with_capacity")
def m_hnew(e, st, args, info):
    return ret(st, ("hmap", ()))


@smodel("std::collections::hash::map::HashMap::entry")
def m_hentry(e, st, args, info):
    m = hmap(e, st, args[0])
    k = key_of(e, st, args[1])
    if not m or not concrete(m[2], k):
        return None
    h = ("hentry", m[0], m[1], k)
    return ret(st, ("adt", HENTRY, 0 if any(x == k for x, _ in m[2][1]) else 1, (h,)))


def hset(e, st, h, v):
    _, r, p, k = h
    m = e.read(st, r, p)
    box = e.alloc(st, v)
    items = tuple((x, y) for x, y in m[1] if x != k) + ((k, box),)
    e.write(st, r, p, ("hmap", items))
    return box


def hget(e, st, h):
    _, r, p, k = h
    return next((y for x, y in e.read(st, r, p)[1] if x == k), None)


@smodel("std::collections::hash::map::Entry::or_insert_with", "std::collections::hash::map::Entry::or_insert")
def m_orinsert(e, st, args, info):
    v = args[0]
    if v[0] != "adt" or v[3][0][0] != "hentry":
        return None
    if v[2] == 0:
        return ret(st, hget(e, st, v[3][0]))
    if info[3] == "or_insert":
        return ret(st, hset(e, st, v[3][0], args[1]))
    out = []
    for s, k, x in e.call_value(st, args[1], UNIT, info[5], info[6]):
        out.append((s, k, hset(e, s, v[3][0], x) if k == "ret" else x))
    return out


@smodel("std::collections::hash::map::VacantEntry::insert", "std::collections::hash::map::OccupiedEntry::insert")
def m_vinsert(e, st, args, info):
    h = args[0] if args[0][0] == "hentry" else e.deref(st, args[0])
    if h[0] != "hentry":
        return None
    old = hget(e, st, h)
    box = hset(e, st, h, args[1])
    return ret(st, e.deref(st, old) if old is not None else box)


@smodel("std::collections::hash::map::HashMap::insert")
def m_hinsert(e, st, args, info):
    m = hmap(e, st, args[0])
    k = key_of(e, st, args[1])
    if not m or not concrete(m[2], k):
        return None
    h = ("hentry", m[0], m[1], k)
    old = hget(e, st, h)
    hset(e, st, h, args[2])
    return ret(st, none() if old is None else some(e.deref(st, old)))


@smodel("std::collections::hash::map::HashMap::get_mut", "std::collections::hash::map::HashMap::get",
        "std::collections::hash::map::HashMap::contains_key", "std::collections::hash::map::HashMap::remove")
def m_hget(e, st, args, info):
    m = hmap(e, st, args[0])
    k = key_of(e, st, args[1])
    if not m or not concrete(m[2], k):
        return None
    name = info[3] or strip(info[0]).rsplit("::", 1)[-1]
    h = ("hentry", m[0], m[1], k)
    old = hget(e, st, h)
    if name == "contains_key":
        return ret(st, ("int", int(old is not None)))
    if name == "remove":
        items = tuple((x, y) for x, y in m[2][1] if x != k)
        e.write(st, m[0], m[1], ("hmap", items))
        return ret(st, none() if old is None else some(e.deref(st, old)))
    return ret(st, none() if old is None else some(("ref", old[1], old[2], name == "get_mut")))


# --------------------------------------------------------------------------------- boxed services

@smodel("tower::util::boxed::sync::BoxService::new", "tower::util::boxed::unsync::UnsyncBoxService::new")
def m_boxsvc(e, st, args, info):
    ty = e.norm(info[4][-1])
    # `BoxService::<T, U, E>::new::<S>(inner)`
    return ret(st, ("boxsvc", ty, e.alloc(st, args[0])))


@smodel(SVC + "::call", SVC + "::poll_ready")
def m_svc(e, st, args, info):
    path, rpath, trait, name, gargs, t, body, dty = info
    if args[0][0] != "ref":
        return None
    v = e.read(st, args[0][1], args[0][2])
    if v[0] != "boxsvc":
        return None
    callee = (SVC + "::" + name, "", SVC, name, None)
    return e.call_fn(st, callee, (v[1],) + tuple(gargs[1:] if len(gargs) > 1 else ()), (v[2],) + args[1:], t, body, dty)


MODELS[SVC + "::call"] = m_svc
MODELS[SVC + "::poll_ready"] = m_svc


# --------------------------------------------------------------------------------------- numbers

@smodel("core::cmp::Ord::min", "core::cmp::Ord::max", "core::cmp::min", "core::cmp::max", "core::intrinsics::integer_min", "core::intrinsics::integer_max")
def m_minmax(e, st, args, info):
    if len(args) != 2 or not info[7] or info[7][0] != "int":
        return None
    a, b = args
    if "max" in info[0].rsplit("::", 1)[-1]:
        a, b = b, a
    # `a` if it is the smaller one.
    out = []
    le = ("bin", "Le", a, b)
    for n, v in ((1, args[0]), (0, args[1])):
        s = st.fork()
        if e.assume(s, le, n):
            out.append((s, "ret", v))
    return out


# --------------------------------------------------------------------------------------- atomics

@smodel("core::sync::atomic::Atomic::load", "core::sync::atomic::Atomic::swap", "core::sync::atomic::Atomic::compare_exchange",
        "core::sync::atomic::Atomic::compare_exchange_weak")
def m_aload(e, st, args, info):
    outs = e.opaque_call(st, info[1], args, info[5], info[6], info[7], info[4], info[0])
    hi = e.atomic_max
    if hi is not None and "u8" in info[1]:
        for s, k, v in outs:
            if k != "ret":
                continue
            if "compare_exchange" in info[1]:
                for i in (0, 1):
                    s.facts[("b", e.payload(v, i))] = (0, hi)
            else:
                s.facts[("b", v)] = (0, hi)
                s.facts[("dom", v)] = frozenset(range(hi + 1))
    return outs


Engine.atomic_max = None


@smodel("core::sync::atomic::Atomic::fetch_update", "core::sync::atomic::Atomic::try_update", "core::sync::atomic::Atomic::update")
def m_fetch_update(e, st, args, info):
    """A retried compare-exchange: the closure is evaluated at every value that the atomic may have."""
    path, rpath, trait, name, gargs, t, body, dty = info
    if len(args) != 4:
        return None
    name = rpath.rsplit("::", 1)[-1]
    if e.atomic_max is None or "u8" not in rpath:
        return update_any(e, st, args, info, name)
    if name == "update":
        return None
    to = {}
    for n in range(e.atomic_max + 1):
        outs = [o for o in e.call_value(st.fork(), args[3], ("tuple", (("int", n),)), t, body) if o[1] == "ret"]
        if len(outs) != 1 or any(x.kind != "drop" for x in outs[0][0].trace()[len(st.trace()):]):
            return None
        s, _, v = outs[0]
        d = e.variant(s, v)
        x = e.ev(s, e.payload(v, 1)) if d == 1 else None
        if d not in (0, 1) or d == 1 and x[0] != "int":
            return None
        to[n] = x
    some = [n for n in to if to[n] is not None]

    def cas(s, n):
        return e.call_fn(s, (path.replace(name, "compare_exchange"), rpath.replace(name, "compare_exchange"), trait, "compare_exchange", None),
                         gargs, (args[0], ("int", n), to[n], args[1], args[2]), t, body, dty)

    if len(some) == 1:
        return cas(st, some[0])
    out = []
    for n in to:
        for s, k, v in e.opaque_call(st.fork(), rpath.replace(name, "load"), (args[0], args[2]), t, body, dty, gargs, path.replace(name, "load")):
            s.facts[("=", v)] = n
            if n in some:
                for s2, k2, _ in cas(s, n):
                    out.append((s2, k2, ("adt", RESULT, 0, (("int", n),))))
            else:
                out.append((s, k, ("adt", RESULT, 1, (("int", n),))))
    return out


def update_any(e, st, args, info, name):
    """The last round of the retries: the value that the closure was given is the one that is replaced."""
    path, rpath, trait, _, gargs, t, body, dty = info
    swap = lambda p: p.replace("::" + name, "::compare_exchange")
    out = []
    for s, k, v in e.opaque_call(st, rpath.replace("::" + name, "::load"), (args[0], args[2]), t, body, None, None, path.replace("::" + name, "::load")):
        for s2, k2, x in e.call_value(s, args[3], ("tuple", (v,)), t, body):
            if k2 != "ret":
                out.append((s2, k2, x))
                continue
            for s3, d in e.split(s2, x) if name != "update" else [(s2, 1)]:
                if d == 0:
                    out.append((s3, "ret", ("adt", RESULT, 1, (v,))))
                    continue
                new = e.payload(x, 1) if name != "update" else x
                for s4, k4, r in e.opaque_call(s3, swap(rpath), (args[0], v, new, args[1], args[2]), t, body, None, None, swap(path)):
                    s4.facts[("=", ("discr", r))] = 0
                    out.append((s4, "ret", ("adt", RESULT, 0, (v,)) if name != "update" else v))
    return out


# -------------------------------------------------------------------------------------- channels

@smodel("futures_channel::mpsc::channel", "futures_channel::oneshot::channel", "futures_channel::mpsc::unbounded")
def m_channel(e, st, args, info):
    n = st.fresh()
    kind = "oneshot" if "oneshot" in info[0] else "mpsc"
    t = info[5]
    st.log(Event("call", strip(info[0]), args, args, ("chan", kind, n), t["sp"], info[6].path if info[6] else ""))
    return ret(st, ("tuple", (("tx", kind, n), ("rx", kind, n))))


# ------------------------------------------------------------------------------------- cow, boxes

COW = "alloc::borrow::Cow"


@smodel("core::ops::deref::Deref::deref", "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow")
def m_cow(e, st, args, info):
    v = e.deref(st, args[0])
    if v[0] == "adt" and v[1] == COW:
        if v[2] == 0:
            return ret(st, v[3][0])
        return ret(st, ("ref", args[0][1], args[0][2] + (("v", 1), ("f", 0)), False))
    return m_deref(e, st, args, info)


for n in ("core::ops::deref::Deref::deref", "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow"):
    MODELS[n] = m_cow


@smodel("tower_layer::identity::Identity::new")
def m_identity(e, st, args, info):
    return ret(st, ("identity",))


@smodel("tower_layer::Layer::layer")
def m_layer(e, st, args, info):
    v = e.deref(st, args[0])
    return ret(st, args[1]) if v[0] == "identity" else None


MODELS["tower_layer::Layer::layer"] = m_layer
