"""Models of iterators over arrays whose elements are known: the analysis follows every step.

An iterator is `("seq", items, ops)`: the items that are left, and what is applied to each (`("map", f)`, `("filter", f)`).
"""
from .engine import *

LIMIT = 24
EQ = ("core::cmp::PartialEq::eq", "", "core::cmp::PartialEq", "eq", None)


def array_of(e, st, v):
    """The elements of the array that `v` refers to."""
    for _ in range(4):
        if v[0] == "ref":
            v = e.read(st, v[1], v[2])
        elif v[0] == "deref" and v[1][0] == "ref":
            v = e.read(st, v[1][1], v[1][2])
        else:
            break
    return v[1] if v[0] == "array" and len(v[1]) <= LIMIT else None


def seq_at(e, st, v):
    """The iterator that `v` is or refers to: (place, iterator)."""
    place = None
    for _ in range(3):
        if v[0] != "ref":
            break
        place = (v[1], v[2])
        v = e.read(st, v[1], v[2])
    return (place, v) if v[0] == "seq" else (None, None)


def seq(items, ops=()):
    return ("seq", tuple(items), tuple(ops))


def step(e, st, it):
    """The next item: (state, kind, item or None, the rest)."""
    out, todo = [], [(st, it[1])]
    while todo:
        s, items = todo.pop()
        if not items:
            out.append((s, "ret", None, seq((), it[2])))
            continue
        rest = items[1:]
        cur = [(s, items[0])]
        for op, f in it[2]:
            nxt = []
            for s1, x in cur:
                if x is None:
                    nxt.append((s1, None))
                    continue
                arg = x if op == "map" else e.alloc(s1, x)
                for s2, k, y in e.apply(s1, f, (arg,)):
                    if k != "ret":
                        out.append((s2, k, y, seq(rest, it[2])))
                    elif op == "map":
                        nxt.append((s2, y))
                    else:
                        for s3, good in yes_no(e, s2, y):
                            nxt.append((s3, x if good else None))
            cur = nxt
        for s1, x in cur:
            if x is None:
                todo.append((s1, rest))
            else:
                out.append((s1, "ret", x, seq(rest, it[2])))
    return out


def yes_no(e, st, c):
    out = []
    for want in (1, 0):
        s = st.fork()
        if e.assume(s, c, want):
            out.append((s, bool(want)))
    return out


def items(e, st, args, info):
    """`iter` and `into_iter` of an array."""
    if not args:
        return None
    if args[0][0] == "seq":
        return ret(st, args[0])
    if args[0][0] == "array":
        return ret(st, seq(args[0][1])) if len(args[0][1]) <= LIMIT else None
    a = array_of(e, st, args[0]) if args[0][0] == "ref" else None
    if a is None or info[3] == "into_iter" and args[0][3]:
        return None
    return ret(st, seq(e.alloc(st, x)[:3] + (False,) for x in a))


def next_(e, st, args, info):
    place, it = seq_at(e, st, args[0])
    if it is None or place is None:
        return None
    out = []
    for s, k, x, rest in step(e, st.fork(), it):
        if k == "ret":
            e.write(s, place[0], place[1], rest)
            out.append((s, k, none() if x is None else some(x)))
        else:
            out.append((s, k, x))
    return out


def search(e, st, args, info):
    name = info[3]
    place, it = seq_at(e, st, args[0])
    if it is None:
        return None
    out, todo = [], [(st.fork(), it, 0)]
    end = {"find": none(), "find_map": none(), "position": none(), "any": FALSE, "all": TRUE, "for_each": UNIT}[name]

    def done(s, rest, v):
        if place:
            e.write(s, place[0], place[1], rest)
        out.append((s, "ret", v))
    while todo:
        s, it, n = todo.pop()
        for s1, k, x, rest in step(e, s, it):
            if k != "ret":
                out.append((s1, k, x))
                continue
            if x is None:
                done(s1, rest, end)
                continue
            arg = e.alloc(s1, x) if name == "find" else x
            for s2, k2, v in e.apply(s1, args[1], (arg,)):
                if k2 != "ret":
                    out.append((s2, k2, v))
                elif name == "for_each":
                    todo.append((s2, rest, n + 1))
                elif name == "find_map":
                    for s3, d in e.split(s2, v):
                        if d == 1:
                            done(s3, rest, v)
                        else:
                            todo.append((s3, rest, n + 1))
                else:
                    for s3, good in yes_no(e, s2, v):
                        if name == "all" and not good:
                            done(s3, rest, FALSE)
                        elif name != "all" and good:
                            done(s3, rest, {"find": some(x), "position": some(("int", n)), "any": TRUE}[name])
                        else:
                            todo.append((s3, rest, n + 1))
        if len(out) + len(todo) > 200:
            raise Limit("iteration over an array")
    return out


def fold(e, st, args, info):
    _, it = seq_at(e, st, args[0])
    if it is None:
        return None
    out, todo = [], [(st.fork(), it, args[1])]
    while todo:
        s, it, acc = todo.pop()
        for s1, k, x, rest in step(e, s, it):
            if k != "ret":
                out.append((s1, k, x))
            elif x is None:
                out.append((s1, "ret", acc))
            else:
                for s2, k2, v in e.apply(s1, args[2], (acc, x)):
                    if k2 != "ret":
                        out.append((s2, k2, v))
                    else:
                        todo.append((s2, rest, v))
        if len(out) + len(todo) > 200:
            raise Limit("iteration over an array")
    return out


def adapt(e, st, args, info):
    name, it = info[3], args[0]
    if it[0] != "seq":
        return None
    if name in ("map", "filter"):
        return ret(st, seq(it[1], it[2] + ((name, args[1]),)))
    if it[2]:
        return None
    if name in ("copied", "cloned"):
        return ret(st, seq(e.deref(st, x) for x in it[1]))
    if name == "rev":
        return ret(st, seq(it[1][::-1]))
    if name == "enumerate":
        return ret(st, seq(("tuple", (("int", n), x)) for n, x in enumerate(it[1])))
    if name in ("skip", "take") and args[1][0] == "int":
        return ret(st, seq(it[1][args[1][1]:] if name == "skip" else it[1][:args[1][1]]))
    if name in ("chain", "zip"):
        other = args[1]
        if other[0] != "seq":
            o = items(e, st, (other,), info[:3] + ("into_iter",) + info[4:])
            if o is None:
                return None
            other = o[0][2]
        if other[2]:
            return None
        return ret(st, seq(it[1] + other[1] if name == "chain" else (("tuple", x) for x in zip(it[1], other[1]))))
    return ret(st, it) if name in ("into_iter", "fuse", "by_ref") else None


def contains(e, st, args, info):
    a = array_of(e, st, args[0]) if args[0][0] == "ref" else None
    if a is None or not info[4]:
        return None
    out, todo = [], [(st.fork(), a)]
    while todo:
        s, left = todo.pop()
        if not left:
            out.append((s, "ret", FALSE))
            continue
        for s1, k, v in e.call_fn(s, EQ, (info[4][0], info[4][0]), (e.alloc(s, left[0])[:3] + (False,), args[1]), info[5], info[6]):
            if k != "ret":
                out.append((s1, k, v))
                continue
            for s2, good in yes_no(e, s1, v):
                if good:
                    out.append((s2, "ret", TRUE))
                else:
                    todo.append((s2, left[1:]))
    return out


def get(e, st, args, info):
    a = array_of(e, st, args[0]) if args[0][0] == "ref" else None
    if a is None or info[4][1:2] and info[4][1] != ("int", "usize"):
        return None
    i = e.ev(st, args[1])
    if i[0] in ("adt", "tuple"):
        return None
    out = []
    for n, x in enumerate(a):
        s = st.fork()
        if e.assume(s, e.binop(s, "Eq", i, ("int", n)), 1):
            out.append((s, "ret", some(("ref",) + e.pointee(args[0])[:1] + (e.pointee(args[0])[1] + (("i", ("int", n)),), False))))
    s = st.fork()
    if e.assume(s, e.binop(s, "Lt", i, ("int", len(a))), 0):
        out.append((s, "ret", none()))
    return out


def size(e, st, args, info):
    a = array_of(e, st, args[0]) if args[0][0] == "ref" else None
    if a is None:
        return None
    return ret(st, ("int", len(a)) if info[3] == "len" else FALSE if a else TRUE)


ITER = {"next": next_, "fold": fold, "into_iter": items}
for _n in ("find", "find_map", "position", "any", "all", "for_each"):
    ITER[_n] = search
for _n in ("map", "filter", "copied", "cloned", "rev", "enumerate", "skip", "take", "chain", "zip", "fuse", "by_ref"):
    ITER[_n] = adapt
SLICE = {"iter": items, "contains": contains, "get": get, "len": size, "is_empty": size}


def model_of(path, trait, name):
    if trait in ("core::iter::traits::iterator::Iterator", "core::iter::traits::collect::IntoIterator"):
        return ITER.get(name)
    if path.startswith("core::slice::<impl [T]>::"):
        return SLICE.get(path[len("core::slice::<impl [T]>::"):])
    return None


Engine.sequences = staticmethod(model_of)
