"""A forward, path-partitioned dataflow analysis over MIR.

Abstract values are finite terms which record where a value comes from (a parameter, a field of it,
the result of a call that is not entered, an aggregate of such values). Branches on unknown values
split the state and leave a fact about the scrutinised term; loops are widened at their heads until
the state is stable; calls into the crate, into closures and into the small `Option`/`Result`
helpers of `core` are entered; other calls are logged as events. Nothing is executed and no solver
is asked: facts are only compared syntactically.
"""
import sys

sys.setrecursionlimit(20000)

UNIT = ("tuple", ())
TRUE, FALSE = ("int", 1), ("int", 0)
MOVED = ("moved",)
OPTION = "core::option::Option"
RESULT = "core::result::Result"
POLL = "core::task::poll::Poll"


WIDTH = {"u8": 8, "i8": 7, "u16": 16, "i16": 15, "u32": 32, "i32": 31, "u64": 64, "i64": 63, "usize": 64, "isize": 63, "u128": 128, "i128": 127}


def none():
    return ("adt", OPTION, 0, ())


def some(x):
    return ("adt", OPTION, 1, (x,))


def ok(x):
    return ("adt", RESULT, 0, (x,))


def err(x):
    return ("adt", RESULT, 1, (x,))


def ready(x):
    return ("adt", POLL, 0, (x,))


PENDING = ("adt", POLL, 1, ())


BOOLS = frozenset((0, 1))


class Limit(Exception):
    """The analysis gave up; the check has no answer."""


# ------------------------------------------------------------------------------------------ types

_OPEN = {}


def is_open(t):
    """Does the type mention a parameter?"""
    r = _OPEN.get(t)
    if r is None:
        r = bool(t) and t[0] == "param" or any(isinstance(x, tuple) and is_open(x) for x in t)
        _OPEN[t] = r
    return r


def subst(t, env):
    if not env or not isinstance(t, tuple) or not is_open(t):
        return t
    if t and t[0] == "param":
        return env.get(t[1], t)
    if t and t[0] in ("adt", "fndef", "alias", "closure", "coroutine", "ref", "ptr", "tuple", "slice", "array"):
        return tuple(subst(x, env) if isinstance(x, tuple) else x for x in t)
    if t and isinstance(t[0], tuple):
        return tuple(subst(x, env) for x in t)
    return t


def unify(pat, t, b):
    """Matches the impl's type `pat` against `t`."""
    if isinstance(pat, tuple) and pat and pat[0] == "param":
        if pat[1] in b:
            return b[pat[1]] == t
        b[pat[1]] = t
        return True
    if isinstance(pat, tuple) and isinstance(t, tuple):
        if pat and pat[0] == "alias":
            return True
        if len(pat) != len(t):
            return False
        return all(unify(p, x, b) for p, x in zip(pat, t))
    return pat == t


def ty_str(t):
    from .show import ty
    return ty(t)


# ------------------------------------------------------------------------------------------ state

# What follows from the outcome of a call: {stripped path: function(engine, state, call, variant)}.
IMPLIED = {}


class Event:
    __slots__ = ("kind", "name", "args", "vals", "ret", "site", "fn", "info")

    def __init__(self, kind, name, args=(), vals=(), ret=None, site="", fn="", info=None):
        self.kind, self.name, self.args, self.vals = kind, name, args, vals
        self.ret, self.site, self.fn, self.info = ret, site, fn, info

    def __repr__(self):
        return "%s %s(%s) -> %s @%s" % (self.kind, self.name, ", ".join(show(v) for v in self.vals),
                                        show(self.ret), self.site)


class State:
    __slots__ = ("store", "facts", "events", "ctr", "stack")

    def __init__(self):
        self.store, self.facts, self.events, self.ctr, self.stack = {}, {}, None, [0], ()

    def fork(self):
        s = State.__new__(State)
        s.store, s.facts = dict(self.store), dict(self.facts)
        s.events, s.ctr, s.stack = self.events, [self.ctr[0]], self.stack
        return s

    def fresh(self):
        self.ctr[0] += 1
        return self.ctr[0]

    def log(self, e):
        self.events = (self.events, e)

    def trace(self):
        out, e = [], self.events
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


def show(t, d=0):
    if t is None:
        return "?"
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if d > 12:
        return "…"
    f = lambda x: show(x, d + 1)
    if k == "int":
        return str(t[1])
    if k == "str":
        return repr(t[1])
    if k == "bytes":
        return repr(bytes(t[1]))
    if k == "adt":
        return "%s#%d(%s)" % (t[1].split("::")[-1], t[2], ", ".join(f(x) for x in t[3]))
    if k in ("tuple", "array"):
        return "(%s)" % ", ".join(f(x) for x in t[1])
    if k == "ref":
        r = t[1]
        n = {"L": "L%s" % (r[1:],), "H": "H%s" % (r[1],)}.get(r[0]) or f(r[1])
        return "&%s%s%s" % ("mut " if t[3] else "", "*" if r[0] == "D" else "", n) + "".join(".%s" % (p[1],) for p in t[2])
    if k == "sym":
        return t[1]
    if k == "call":
        return "%s(%s)%s" % (t[1].split("::")[-1], ", ".join(f(x) for x in t[2]), "#%s" % t[3] if t[3] else "")
    if k == "fld":
        return "%s.%s" % (f(t[1]), t[2])
    if k == "as":
        return "(%s as %s)" % (f(t[1]), t[2])
    if k == "deref":
        return "*" + f(t[1])
    if k == "discr":
        return "discr(%s)" % f(t[1])
    if k == "bin":
        return "%s(%s, %s)" % (t[1], f(t[2]), f(t[3]))
    if k in ("clo", "cor"):
        return "%s[%s]{%s}" % (k, t[4].split("::")[-2:], ", ".join(f(x) for x in t[2]))
    if k == "fn":
        return "fn " + t[1]
    if k == "&":
        return "&" + f(t[1])
    if k == "fut":
        return "fut %s(%s)" % (t[1], ", ".join(f(x) for x in t[2:]))
    return "%s(%s)" % (k, ", ".join(f(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


# ------------------------------------------------------------------------------------------ places

def proj(v, e):
    """Projects the value `v` by one place element."""
    k = v[0]
    if k == "upd":
        for el, x in v[2]:
            if el == e:
                return x
        if e[0] == "v":
            # A downcast of a partially written symbolic value.
            sub = tuple((el[2], x) for el, x in v[2] if el[0] == "vf" and el[1] == e[1])
            base = proj(v[1], e)
            return ("upd", base, sub) if sub else base
        return proj(v[1], e)
    if e[0] == "f":
        i = e[1]
        if k == "adt" or k == "variant":
            return v[3][i] if i < len(v[3]) else ("bad",)
        if k in ("tuple", "array"):
            return v[1][i] if i < len(v[1]) else ("bad",)
        if k in ("clo", "cor"):
            return v[2][i] if i < len(v[2]) else ("bad",)
        if k == "moved":
            return MOVED
        return ("fld", v, i)
    if e[0] == "v":
        if k == "adt":
            return v if v[2] == e[1] else ("bad",)
        if k == "moved":
            return MOVED
        return ("as", v, e[1])
    if e[0] == "i":
        idx = e[1]
        if k in ("array",) and isinstance(idx, tuple) and idx[0] == "int" and idx[1] < len(v[1]):
            return v[1][idx[1]]
        return ("idx", v, idx)
    return ("proj", v, e)


def put(v, path, x):
    if not path:
        return x
    e, rest = path[0], path[1:]
    k = v[0]
    if e[0] == "v" and k == "adt":
        if v[2] == e[1]:
            return put(v, rest, x)
        return ("adt", v[1], e[1], ()) if not rest else v
    if e[0] == "f" and k == "adt" and e[1] < len(v[3]):
        f = list(v[3])
        f[e[1]] = put(f[e[1]], rest, x)
        return ("adt", v[1], v[2], tuple(f))
    if e[0] == "f" and k in ("tuple", "array") and e[1] < len(v[1]):
        f = list(v[1])
        f[e[1]] = put(f[e[1]], rest, x)
        return (k, tuple(f))
    if e[0] == "f" and k in ("clo", "cor") and e[1] < len(v[2]):
        f = list(v[2])
        f[e[1]] = put(f[e[1]], rest, x)
        return v[:2] + (tuple(f),) + v[3:]
    if e[0] == "i" and k == "array" and e[1][0] == "int" and e[1][1] < len(v[1]):
        f = list(v[1])
        f[e[1][1]] = put(f[e[1][1]], rest, x)
        return (k, tuple(f))
    # A symbolic value, partially overwritten.
    base, ov = (v[1], dict(v[2])) if k == "upd" else (v, {})
    if e[0] == "v" and rest:
        key = ("vf", e[1], rest[0])
        cur = ov.get(key)
        if cur is None:
            cur = proj(proj(base, e), rest[0])
        ov[key] = put(cur, rest[1:], x)
    else:
        cur = ov.get(e)
        if cur is None:
            cur = proj(base, e)
        ov[e] = put(cur, rest, x)
    return ("upd", base, tuple(sorted(ov.items(), key=repr)))


NEG = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le"}
COMMUTE = {"Eq": "Eq", "Ne": "Ne", "Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}


class Engine:
    watch = None             # told about everything that may panic (see rules/panics.py)

    def __init__(self, facts, opaque=(), models=None, max_paths=6000, max_depth=40, skip_tracing=True, extra=None):
        self.F = facts
        self.extra = extra or {}
        self._stripped = {}
        self.unrolling = 0
        self.rounds, self.nested, self.width = 3, 2, 6   # how far loops are followed before they are widened
        self.refuted = set()     # limits of widened values that a round exceeds
        self.widened = {}        # casts that keep every value of what they convert
        self.inits = {}          # what a widened value was when its loop was entered
        self.opaque = opaque if callable(opaque) else (lambda b, _o=frozenset(opaque): b.key in _o or b.path in _o)
        self.models = dict(MODELS)
        if models:
            self.models.update(models)
        self.max_paths, self.max_depth = max_paths, max_depth
        self.skip_tracing = skip_tracing
        self.functions = {}      # functions analysed, by path -> span
        self.steps = 0
        self.callsites = set()
        self.skipped = set()

    # ------------------------------------------------------------------------------------- memory

    def default(self, root):
        if root[0] == "D":
            return ("deref", root[1])
        return ("uninit",)

    def read(self, st, root, path):
        v = st.store.get(root)
        if v is None:
            v = self.default(root)
        for e in path:
            v = proj(v, e)
        return v

    def write(self, st, root, path, x):
        v = st.store.get(root)
        if v is None:
            v = self.default(root)
        st.store[root] = put(v, path, x)

    def pointee(self, v):
        """Where the pointer value `v` points to."""
        if v[0] == "ref":
            return v[1], v[2]
        return ("D", v), ()

    def loc(self, st, fid, p):
        root, path = ("L", fid, p[0]), ()
        for e in p[1]:
            if e[0] == "deref":
                root, path = self.pointee(self.read(st, root, path))
            elif e[0] == "field":
                path += (("f", e[1]),)
            elif e[0] == "downcast":
                path += (("v", e[1]),)
            elif e[0] == "index":
                path += (("i", self.ev(st, self.read(st, ("L", fid, e[1]), ()))),)
            elif e[0] == "cindex":
                path += (("i", ("int", -e[1] if e[2] else e[1])),)
            elif e[0] == "subslice":
                path += (("sub", e[1], e[2], e[3]),)
            else:
                path += (("o",),)
        # A downcast followed by a field of a known variant is just the field.
        return root, path

    def deref(self, st, v):
        r, p = self.pointee(v)
        return self.read(st, r, p)

    def snap(self, st, v, depth=2):
        """The value, with references replaced by what they refer to."""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == "ref":
            if depth == 0:
                return v
            return ("&", self.snap(st, self.read(st, v[1], v[2]), depth - 1))
        if v[0] == "adt" and v[3]:
            return ("adt", v[1], v[2], tuple(self.snap(st, x, depth) for x in v[3]))
        if v[0] in ("tuple", "array") and v[1]:
            return (v[0], tuple(self.snap(st, x, depth) for x in v[1]))
        return v

    def alloc(self, st, v):
        h = ("H", st.fresh())
        st.store[h] = v
        return ("ref", h, (), True)

    # -------------------------------------------------------------------------------------- facts

    def discr_of(self, v):
        """The discriminant of `v`, if the value is known."""
        if v[0] == "upd":
            v = v[1]
        if v[0] == "adt":
            a = self.F.adts.get(v[1])
            if a and a["variants"] and v[2] < len(a["variants"]) and a["variants"][v[2]]["discr"] is not None:
                return ("int", a["variants"][v[2]]["discr"])
            return ("int", v[2])
        return ("discr", v)

    def ev(self, st, t):
        """Simplifies a scalar term with the facts of the path."""
        if t[0] == "discr":
            t = self.discr_of(t[1])
        if t[0] == "int":
            return t
        x = st.facts.get(("=", t))
        if x is not None:
            return ("int", x)
        if t[0] == "bin" and t[1] in ("Eq", "Ne"):
            # A truth value compared with a constant is that truth value or its negation.
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if y[0] == "int" and y[1] in (0, 1) and x[0] == "bin" and x[1] in NEG:
                    if (t[1] == "Eq") != bool(y[1]):
                        x = ("bin", NEG[x[1]]) + x[2:]
                    return self.ev(st, x)
        if t[0] == "bin" and t[1] in NEG:
            x = self.truth(st, t)
            if x is not None:
                return TRUE if x else FALSE
        if t[0] == "un" and t[1] == "Not":
            x = self.ev(st, t[2])
            if x[0] == "int":
                return ("int", 0 if x[1] else 1)
        if t[0] == "ovf" and t[1] == "Add":
            # A sum of bounded numbers, one of them widened to a type that holds it.
            w = max((WIDTH.get(x[1], 7) for x in t[2:] if x[0] == "cast"), default=7)
            hi, lo = [self.bounds(st, x)[1] for x in t[2:]], [self.bounds(st, x)[0] for x in t[2:]]
            if None not in hi and None not in lo and min(lo) >= 0 and sum(hi) < 2 ** w:
                return FALSE
        return t

    def bounds(self, st, t):
        if t[0] == "int":
            return t[1], t[1]
        r = st.facts.get(("b", t))
        if r is not None:
            return r
        if t[0] == "cast" and t[1] in WIDTH:
            a = self.bounds(st, t[2])
            if a[0] is not None and a[1] is not None and 0 <= a[0] and a[1] < 2 ** WIDTH[t[1]]:
                return a
        if t[0] == "bin" and t[1] == "Add":
            # No wrapping: additions are checked, or of lengths in memory.
            a, b = self.bounds(st, t[2]), self.bounds(st, t[3])
            return (a[0] + b[0] if a[0] is not None and b[0] is not None else None,
                    a[1] + b[1] if a[1] is not None and b[1] is not None else None)
        return (None, None)

    def truth(self, st, t):
        r = self.truth_(st, t)
        if r is None and t[1] in ("Lt", "Le", "Gt", "Ge"):
            # a + 1 <= b is a < b, for sums that do not wrap.
            _, op, a, b = t
            if op in ("Gt", "Ge"):
                op, a, b = COMMUTE[op], b, a
            if op == "Le" and a[0] == "bin" and a[1] == "Add" and a[3] == ("int", 1):
                return self.truth_(st, ("bin", "Lt", a[2], b))
            if op == "Lt" and b[0] == "bin" and b[1] == "Add" and b[3] == ("int", 1):
                return self.truth_(st, ("bin", "Le", a, b[2]))
        return r

    def truth_(self, st, t):
        _, op, a, b = t
        a, b = self.ev(st, a), self.ev(st, b)
        if a[0] == "int" and b[0] == "int":
            return {"Eq": a[1] == b[1], "Ne": a[1] != b[1], "Lt": a[1] < b[1], "Le": a[1] <= b[1],
                    "Gt": a[1] > b[1], "Ge": a[1] >= b[1]}[op]
        if a == b and (a[0] != "call" or not a[3]):
            return op in ("Eq", "Le", "Ge")
        if op in ("Eq", "Ne"):
            for x, y in ((a, b), (b, a)):
                if y[0] == "int" and y[1] in st.facts.get(("!", x), ()):
                    return op == "Ne"
            r = st.facts.get(("c", "Eq", a, b), st.facts.get(("c", "Eq", b, a)))
            if r is not None:
                return r if op == "Eq" else not r
        else:
            r = st.facts.get(("c", "Lt", a, b))     # a < b
            s = st.facts.get(("c", "Lt", b, a))     # b < a
            if op == "Lt" and r is not None: return r
            if op == "Ge" and r is not None: return not r
            if op == "Gt" and s is not None: return s
            if op == "Le" and s is not None: return not s
            if op in ("Le",) and r: return True
            if op in ("Ge",) and s: return True
            if op == "Gt" and r: return False
            if op == "Lt" and s: return False
        la, ha = self.bounds(st, a)
        lb, hb = self.bounds(st, b)
        if ha is not None and lb is not None:
            if op == "Lt" and ha < lb: return True
            if op == "Le" and ha <= lb: return True
            if op == "Gt" and ha <= lb: return False
            if op == "Ge" and ha < lb: return False
            if op == "Eq" and ha < lb: return False
            if op == "Ne" and ha < lb: return True
        if la is not None and hb is not None:
            if op == "Gt" and la > hb: return True
            if op == "Ge" and la >= hb: return True
            if op == "Lt" and la >= hb: return False
            if op == "Le" and la > hb: return False
            if op == "Eq" and la > hb: return False
            if op == "Ne" and la > hb: return True
        return None

    def mirror(self, st, c):
        """What is known of a cast that keeps every value is known of what it converts."""
        v = self.widened.get(c)
        if v is None:
            return
        for k in ("=", "!", "b"):
            x = st.facts.get((k, c))
            if x is None:
                continue
            if k == "!":
                x = x | st.facts.get((k, v), frozenset())
            elif k == "b":
                (lo, hi), (a, b) = x, self.bounds(st, v)
                x = (a if lo is None else lo if a is None else max(lo, a), b if hi is None else hi if b is None else min(hi, b))
            st.facts[(k, v)] = x
        self.mirror(st, v)

    def assume(self, st, t, n):
        """Assumes that the scalar term `t` has the value `n`; False if that is contradictory."""
        v = self.ev(st, t)
        if v[0] == "int":
            return v[1] == n
        if n in st.facts.get(("!", v), ()):
            return False
        lo, hi = self.bounds(st, v)
        if (lo is not None and n < lo) or (hi is not None and n > hi):
            return False
        dom = st.facts.get(("dom", v))
        if dom is not None and n not in dom:
            return False
        st.facts[("=", v)] = n
        self.mirror(st, v)
        self.implied(st, v, n)
        if v[0] == "bin" and v[1] in NEG:
            self.assume_cmp(st, v, bool(n))
        elif v[0] == "un" and v[1] == "Not":
            return self.assume(st, v[2], 0 if n else 1)
        elif v[0] == "bin" and v[1] == "BitAnd" and n == 1:
            return self.assume(st, v[2], 1) and self.assume(st, v[3], 1)
        elif v[0] == "bin" and v[1] == "BitOr" and n == 0:
            return self.assume(st, v[2], 0) and self.assume(st, v[3], 0)
        return True

    def assume_cmp(self, st, t, val):
        _, op, a, b = t
        a, b = self.ev(st, a), self.ev(st, b)
        if not val:
            op = NEG[op]
        if op in ("Eq", "Ne"):
            st.facts[("c", "Eq", a, b)] = op == "Eq"
            for x, y in ((a, b), (b, a)):
                if y[0] == "int" and x[0] != "int":
                    if op == "Eq":
                        if x[0] == "bin" and x[1] in NEG and y[1] in (0, 1) and ("=", x) not in st.facts:
                            self.assume_cmp(st, x, bool(y[1]))
                        st.facts[("=", x)] = y[1]
                    else:
                        st.facts[("!", x)] = st.facts.get(("!", x), frozenset()) | {y[1]}
                        self.last_one(st, x)
                        lo, hi = self.bounds(st, x)
                        if lo is not None and lo == y[1]:
                            st.facts[("b", x)] = (lo + 1, hi)
                    self.mirror(st, x)
            return
        if op == "Lt": st.facts[("c", "Lt", a, b)] = True
        if op == "Ge": st.facts[("c", "Lt", a, b)] = False
        if op == "Gt": st.facts[("c", "Lt", b, a)] = True
        if op == "Le": st.facts[("c", "Lt", b, a)] = False
        for x, y, o in ((a, b, op), (b, a, COMMUTE[op])):
            if y[0] == "int" and x[0] != "int":
                lo, hi = self.bounds(st, x)
                n = y[1]
                if o == "Lt": hi = n - 1 if hi is None else min(hi, n - 1)
                if o == "Le": hi = n if hi is None else min(hi, n)
                if o == "Gt": lo = n + 1 if lo is None else max(lo, n + 1)
                if o == "Ge": lo = n if lo is None else max(lo, n)
                st.facts[("b", x)] = (lo, hi)
                self.mirror(st, x)

    def exclude(self, st, t, ns):
        v = self.ev(st, t)
        if v[0] == "int":
            return v[1] not in ns
        st.facts[("!", v)] = st.facts.get(("!", v), frozenset()) | frozenset(ns)
        if v[0] == "bin" and v[1] in NEG and 0 in ns:
            self.assume_cmp(st, v, True)
            st.facts[("=", v)] = 1
        elif v[0] == "bin" and v[1] in NEG and 1 in ns:
            self.assume_cmp(st, v, False)
            st.facts[("=", v)] = 0
        else:
            self.last_one(st, v)
        self.mirror(st, v)
        return True

    def last_one(self, st, v):
        """If only one value of the domain is left, that is the value."""
        dom = st.facts.get(("dom", v))
        if dom is not None:
            left = dom - st.facts[("!", v)]
            if len(left) == 1:
                st.facts[("=", v)] = n = next(iter(left))
                self.implied(st, v, n)

    def implied(self, st, v, n):
        """What the models know to follow from the outcome of a call."""
        if v[0] == "discr" and v[1][0] == "call":
            h = IMPLIED.get(v[1][1].split("::<", 1)[0])
            if h:
                h(self, st, v[1], n)

    def variant(self, st, v):
        """The index of the variant that `v` is known to be, or None."""
        if v[0] == "upd":
            v = v[1]
        if v[0] == "adt":
            return v[2]
        x = self.ev(st, ("discr", v))
        return x[1] if x[0] == "int" else None

    # ----------------------------------------------------------------------------------- operands

    def const(self, st, c, env, fid):
        t = subst(tupl(c["ty"]), env)
        if "fn" in c:
            f = c["fn"]
            return ("fn", f["path"], f["key"], subst(tupl(f["args"]), env), freeze_callee(f, env))
        if "promoted" in c:
            b = self.F.promoted.get((c["key"], c["promoted"]))
            if b is None:
                return ("const", c.get("def"), c["promoted"])
            e2 = env
            out = [o for o in self.run(st, b, e2, ()) if o[1] == "ret"]
            if len(out) != 1:
                raise Limit("promoted constant of %s" % b.path)
            s2, _, v = out[0]
            st.store, st.ctr = s2.store, s2.ctr
            return v
        if "val" in c:
            v = tupl(c["val"])
            if v is not None and v[0] == "static":
                b = self.F.bodies.get(v[2])
                root = ("S", v[2])
                if v[3] and b is not None and root not in st.store:
                    out = [o for o in self.run(st.fork(), b, {}, ()) if o[1] == "ret"]
                    if len(out) == 1:
                        st.store, st.ctr = out[0][0].store, out[0][0].ctr
                        st.store[root] = out[0][2]
                return ("ref", root, (), False) if root in st.store else ("const", v[1], ())
            return self.const_val(c["val"], t)
        if "def" in c:
            # An associated constant: look at the implementation, if the type is known.
            args = subst(tupl(c["args"]), env)
            for path, impls in self.F.impls_by_trait.items():
                if c["def"].startswith(path + "::"):
                    name = c["def"][len(path) + 2:]
                    for i in impls:
                        b = {}
                        if unify(i["args"], args, b) and name in i["items"] and "val" in i["items"][name]:
                            return self.const_val(tupl(i["items"][name]["val"]), t)
            b = self.F.bodies.get(c["key"])
            if b is not None and b.argc == 0 and b.kind in ("Const", "AssocConst", "InlineConst"):
                out = [o for o in self.run(st.fork(), b, dict(env), ()) if o[1] == "ret"]
                if len(out) == 1:
                    st.store, st.ctr = out[0][0].store, out[0][0].ctr
                    return out[0][2]
            return ("const", c["def"], args)
        return ("const", ty_str(t), ())

    def const_val(self, v, t):
        v = tupl(v)
        if v is None:
            return ("const", ty_str(t), ())
        if v[0] == "int":
            if t[0] == "adt":
                # A niche-encoded `None`, or a fieldless enum.
                if t[1] == OPTION and v[1] == 0:
                    return none()
                a = self.F.adts.get(t[1])
                if a and a["kind"] == "enum" and all(not x["fields"] for x in a["variants"]):
                    for i, x in enumerate(a["variants"]):
                        if x["discr"] == v[1]:
                            return ("adt", t[1], i, ())
                return ("const", ty_str(t), (v[1],))
            return ("int", v[1])
        if v[0] == "str":
            return ("str", v[1])
        if v[0] == "bytes":
            return ("bytes", tuple(v[1]))
        if v[0] == "zst":
            if t[0] == "tuple":
                return UNIT
            if t[0] == "adt":
                return ("adt", t[1], 0, ())
            return ("zst", t)
        if v[0] == "destruct":
            fields = tuple(self.const_val(x[0], x[1]) for x in v[2])
            if t[0] == "adt":
                return ("adt", t[1], v[1] or 0, fields)
            return ("tuple", fields)
        return ("const", ty_str(t), ())

    def operand(self, st, fid, env, o):
        if o[0] == "const":
            return self.const(st, o[1], env, fid)
        if o[0] in ("copy", "move"):
            root, path = self.loc(st, fid, o[1])
            v = self.read(st, root, path)
            if o[0] == "move":
                if v[0] not in ("int", "fn"):
                    self.write(st, root, path, MOVED)
            return v
        return ("runtime", o[1])

    def rvalue(self, st, fid, env, r, body):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, env, r[1])
        if k in ("ref", "rawptr"):
            root, path = self.loc(st, fid, r[2])
            return ("ref", root, path, bool(r[1]))
        if k == "discr":
            root, path = self.loc(st, fid, r[1])
            d = self.discr_of(self.read(st, root, path))
            if d[0] != "int":
                ty = subst(tupl(r[2]), env)
                a = self.F.adts.get(ty[1]) if ty[0] == "adt" else None
                if a and a["kind"] == "enum" and ("dom", d) not in st.facts:
                    st.facts[("dom", d)] = frozenset(
                        i if v["discr"] is None else v["discr"] for i, v in enumerate(a["variants"]))
            return self.ev(st, d)
        if k == "agg":
            ops = tuple(self.operand(st, fid, env, o) for o in r[2])
            a = r[1]
            if a[0] == "tuple":
                return ("tuple", ops)
            if a[0] == "array":
                return ("array", ops)
            if a[0] == "adt":
                return ("adt", a[1], a[2], ops)
            if a[0] == "closure":
                return ("clo", a[2], ops, tuple(sorted(env.items())), a[1])
            if a[0] == "coroutine":
                return ("cor", a[2], ops, tuple(sorted(env.items())), a[1])
            return ("agg", tupl(a), ops)
        if k == "cast":
            v = self.operand(st, fid, env, r[2])
            t = tupl(r[3])
            kind = r[1]
            if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "Subtype") or "Deref" in kind:
                return v
            if kind == "IntToInt":
                if v[0] == "int":
                    return ("int", wrap(v[1], t))
                c = ("cast", t[1] if len(t) > 1 else t[0], v)
                if r[2][0] in ("copy", "move") and not r[2][1][1] and lossless(subst(body.locals[r[2][1][0]], env), t):
                    self.widened[c] = v
                return c
            return ("cast", str(t), v)
        if k == "bin":
            a, b = self.operand(st, fid, env, r[2]), self.operand(st, fid, env, r[3])
            return self.binop(st, r[1], a, b)
        if k == "un":
            v = self.operand(st, fid, env, r[2])
            if v[0] == "int":
                if r[1] == "Not":
                    # The type tells booleans from integers.
                    return ("int", 1 - v[1]) if v[1] in (0, 1) and is_bool(r[2], body) else ("un", r[1], v)
                if r[1] == "Neg":
                    return ("int", -v[1])
            if r[1] == "Not" and v[0] == "bin" and v[1] in NEG:
                return ("bin", NEG[v[1]], v[2], v[3])
            if r[1] == "PtrMetadata":
                a = self.read(st, v[1], v[2]) if v[0] == "ref" else v
                if a[0] == "array":
                    return ("int", len(a[1]))
                return ("call", "len", (self.snap(st, v),), 0)
            return ("un", r[1], v)
        if k == "repeat":
            return ("repeat", self.operand(st, fid, env, r[1]), r[2])
        return ("rv", str(r))

    def binop(self, st, op, a, b):
        a, b = self.ev(st, a), self.ev(st, b)
        if op.endswith("WithOverflow"):
            return ("tuple", (self.binop(st, op[:3], a, b), ("ovf", op[:3], a, b)))
        op = {"AddUnchecked": "Add", "SubUnchecked": "Sub", "MulUnchecked": "Mul"}.get(op, op)
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            f = {"Add": x + y, "Sub": x - y, "Mul": x * y, "Eq": int(x == y), "Ne": int(x != y),
                 "Lt": int(x < y), "Le": int(x <= y), "Gt": int(x > y), "Ge": int(x >= y),
                 "BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}
            if op in f:
                return ("int", f[op])
        if op == "Add" and b == ("int", 0):
            return a
        if op == "Add" and a == ("int", 0):
            return b
        for x, y in ((a, b), (b, a)) if op == "Add" else ():
            if x[0] == "bin" and x[1] == "Sub" and x[3] == y:
                return x[2]         # The subtraction has not overflowed.
        return ("bin", op, a, b)

    # -------------------------------------------------------------------------------------- bodies

    def run(self, st, body, env, args):
        """All outcomes of the body: a list of (state, kind, value)."""
        fid = st.fresh()
        if len(st.stack) > self.max_depth:
            raise Limit("call depth in %s" % body.path)
        old = st.stack
        st.stack = st.stack + (body.key,)
        self.functions[body.path] = body.span
        for i, a in enumerate(args):
            st.store[("L", fid, i + 1)] = a
        out = []
        for s, kind, v in self.walk(st, body, env, fid, 0, ()):
            if kind == "back":
                raise Limit("irreducible loop in %s" % body.path)
            s.stack = old
            if kind == "ret":
                v = s.store.get(("L", fid, 0), UNIT)
                if v == ("uninit",):
                    v = UNIT
            out.append((s, kind, v))
        if len(out) > self.max_paths:
            raise Limit("too many paths in %s" % body.path)
        return out

    def walk(self, st, body, env, fid, bb, active):
        heads = body.loop_heads()
        if bb in heads and bb not in active:
            return self.loop(st, body, env, fid, bb, active)
        out, work = [], [(st, bb, True)]
        while work:
            st, bb, first = work.pop()
            if bb in heads and not first:
                if bb in active:
                    out.append((st, "back", bb))
                else:
                    out.extend(self.loop(st, body, env, fid, bb, active))
                continue
            if len(out) + len(work) > self.max_paths:
                raise Limit("too many paths in %s" % body.path)
            for nst, nbb, kind, val in self.block(st, body, env, fid, bb):
                if kind is None:
                    work.append((nst, nbb, False))
                else:
                    out.append((nst, kind, val))
        return out

    def loop(self, st, body, env, fid, head, active):
        exact = self.unroll(st, body, env, fid, head, active)
        if exact is not None:
            return exact
        cur = st
        for _ in range(12):
            start = cur.fork()
            start.log(Event("loop", "head", (body.key, head), fn=body.path, site=body.blocks[head]["t"]["sp"]))
            res = self.walk(start, body, env, fid, head, active + (head,))
            backs = [s for s, k, v in res if k == "back" and v == head]
            if not backs:
                # Not iterated at all: no need for the marker.
                return self.walk(st.fork(), body, env, fid, head, active + (head,))
            new, changed = self.widen(cur, backs, (fid, body.key), head)
            if not changed:
                return [(s, "loop" if k == "back" and v == head else k, (body.key, head) if k == "back" and v == head else v)
                        for s, k, v in res]
            cur = new
        raise Limit("loop in %s does not stabilise" % body.path)

    def unroll(self, st, body, env, fid, head, active):
        """The outcomes of a loop that ends after a few rounds, whatever happens; else None."""
        if self.unrolling >= self.nested:
            return None
        self.unrolling += 1
        try:
            out, todo = [], [st]
            for _ in range(self.rounds):
                backs = []
                for s in todo:
                    for s2, k, v in self.walk(s.fork(), body, env, fid, head, active + (head,)):
                        if k == "back" and v == head:
                            backs.append(s2)
                        else:
                            out.append((s2, k, v))
                if not backs:
                    return out
                if len(backs) > self.width:
                    return None
                todo = backs
            return None
        finally:
            self.unrolling -= 1

    def widen(self, cur, backs, fid, head):
        new = cur.fork()
        changed = False
        for b in backs:
            for root, v in b.store.items():
                if root not in new.store and root[0] != "D":
                    continue
                a = new.store.get(root)
                if a is None:
                    a = self.default(root)
                w = self.join(a, v, (fid, head, root))
                if w != a:
                    changed = True
                    new.store[root] = w
                    if w[0] == "havoc" and a[0] != "havoc":
                        new.facts[("init", w)] = a
                if self.keep_bounds(cur, b, new, a, v, w):
                    changed = True
        if self.keep_limits(cur, backs, new):
            changed = True
        return new, changed

    def keep_limits(self, cur, backs, new):
        """Finds and keeps upper limits of widened numbers: what a round compares them with, if no round exceeds it."""
        changed = False
        for root, w in cur.store.items():
            if w[0] != "havoc" or new.store.get(root) != w:
                continue
            have = [k for k, x in cur.facts.items() if k[0] == "c" and k[1] == "Lt" and k[3] == w and x is False]
            seen = {k[3] for b in backs for k, x in b.facts.items() if k[0] == "c" and k[1] == "Lt" and k[2] == w and x is True and k not in cur.facts}
            for x in [k[2] for k in have] + [x for x in seen if ("c", "Lt", x, w) not in cur.facts]:
                old = ("c", "Lt", x, w) in cur.facts
                i = cur.facts.get(("init", w))
                if x == w or i is None or (x, w) in self.refuted or root[0] == "D":
                    continue
                if self.truth(cur, ("bin", "Le", i, x)) is True and all(self.truth(b, ("bin", "Le", b.store.get(root, w), x)) is True for b in backs):
                    if not old:
                        new.facts[("c", "Lt", x, w)] = False
                        changed = True
                elif old:
                    self.refuted.add((x, w))
                    del new.facts[("c", "Lt", x, w)]
                    changed = True
        return changed

    def keep_bounds(self, cur, back, new, a, v, w):
        """Keeps the lower bound of a widened number as long as every iteration respects it."""
        if w[0] in ("adt", "tuple", "array") and a[0] == w[0] == v[0]:
            i = 3 if w[0] == "adt" else 1
            if len(a[i]) == len(v[i]) == len(w[i]):
                return any([self.keep_bounds(cur, back, new, x, y, z) for x, y, z in zip(a[i], v[i], w[i])])
            return False
        if w[0] != "havoc":
            return False
        key = ("b", w)
        if a != w:
            lo = self.bounds(cur, a)[0]
            if lo is not None and lo >= 0:
                new.facts[key] = (lo, None)
            return False
        lo = new.facts.get(key, (None, None))[0]
        if lo is None:
            return False
        low = self.bounds(back, v)[0]
        if low is None or low < lo:
            del new.facts[key]
            return True
        return False

    def join(self, a, b, label):
        if a == b:
            return a
        if a[0] == "havoc" and a[1][:2] == label[:2]:
            return a
        if a[0] == "adt" and b[0] == "adt" and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
            return a[:3] + (tuple(self.join(x, y, label + (i,)) for i, (x, y) in enumerate(zip(a[3], b[3]))),)
        if a[0] in ("tuple", "array") and a[0] == b[0] and len(a[1]) == len(b[1]):
            return (a[0], tuple(self.join(x, y, label + (i,)) for i, (x, y) in enumerate(zip(a[1], b[1]))))
        if a[0] in ("clo", "cor") and a[:2] == b[:2] and len(a[2]) == len(b[2]):
            return a[:2] + (tuple(self.join(x, y, label + (i,)) for i, (x, y) in enumerate(zip(a[2], b[2]))),) + a[3:]
        if a[0] == "upd" or b[0] == "upd":
            ba, oa = (a[1], dict(a[2])) if a[0] == "upd" else (a, {})
            bb_, ob = (b[1], dict(b[2])) if b[0] == "upd" else (b, {})
            if ba == bb_:
                ov = {}
                for e in sorted(set(oa) | set(ob), key=repr):
                    if e[0] == "vf":
                        d = proj(proj(ba, ("v", e[1])), e[2])
                    else:
                        d = proj(ba, e)
                    ov[e] = self.join(oa.get(e, d), ob.get(e, d), label + (e,))
                return ("upd", ba, tuple(sorted(ov.items(), key=repr)))
        self.inits.setdefault(label, a)
        return ("havoc", label)

    def tracing(self, t):
        return any(x.startswith(("tracing::", "tracing_core::")) for x in t.get("exp", ()))

    def block(self, st, body, env, fid, bb):
        """Analyses one block; yields (state, next block, None, None) or (state, None, kind, value)."""
        self.steps += 1
        if self.steps > 3000000:
            raise Limit("too many steps")
        bl = body.blocks[bb]
        for s in bl["s"]:
            if s[0] == "assign":
                v = self.rvalue(st, fid, env, s[2], body)
                root, path = self.loc(st, fid, s[1])
                self.write(st, root, path, v)
                if root[0] == "D" and self.note_write(root, path):
                    st.log(Event("write", "", (root, path), (v,), site=s[3] if len(s) > 3 else "", fn=body.path))
            elif s[0] == "setdiscr":
                root, path = self.loc(st, fid, s[1])
                v = self.read(st, root, path)
                p = v[1] if v[0] == "adt" else "?"
                self.write(st, root, path, ("adt", p, s[2], v[3] if v[0] == "adt" else ()))
            elif s[0] == "intrinsic" and s[1].startswith("Assume"):
                pass
        t = bl["t"]
        k = t["k"]
        if self.skip_tracing and k in ("call", "switch") and self.tracing(t):
            j = body.ipdom().get(bb)
            if j is not None and j < len(body.blocks) and not (self.watch and self.watch.enters(self, body, bb, j)):
                self.skipped.add((body.path, t["sp"]))
                return [(st, j, None, None)]
        if k == "goto":
            return [(st, t["t"], None, None)]
        if k == "return":
            return [(st, None, "ret", None)]
        if k == "unreachable":
            return []
        if k == "switch":
            v = self.ev(st, self.operand(st, fid, env, t["op"]))
            if v[0] != "int" and t["ty"] and t["ty"][0] == "bool":
                st.facts[("dom", v)] = BOOLS
                v = self.ev(st, v)
            if v[0] == "int":
                for n, b in t["cases"]:
                    if n == v[1]:
                        return [(st, b, None, None)]
                return [(st, t["otherwise"], None, None)]
            if v[0] == "bad":
                return []
            out = []
            for n, b in t["cases"]:
                s = st.fork()
                if self.assume(s, v, n):
                    out.append((s, b, None, None))
            ns = [n for n, _ in t["cases"]]
            # Does the switch cover the type?
            if self.covered(st, v, ns, t):
                return out
            s = st.fork()
            if self.exclude(s, v, ns):
                rest = self.remaining(s, v)
                if rest is not None and len(rest) == 1:
                    if not self.assume(s, v, rest[0]):
                        return out
                elif rest is not None and not rest:
                    return out
                out.append((s, t["otherwise"], None, None))
            return out
        if k == "drop":
            root, path = self.loc(st, fid, t["place"])
            v = self.read(st, root, path)
            outs = [st]
            if v not in (MOVED, ("uninit",)):
                outs = self.drop(st, v, subst(tupl(t["ty"]), env), t["sp"], body, (root, path))
            res = []
            for s in outs:
                if not t.get("replace"):
                    self.write(s, root, path, MOVED)
                res.append((s, t["t"], None, None))
            return res
        if k == "assert":
            c = self.ev(st, self.operand(st, fid, env, t["cond"]))
            exp = 1 if t["expected"] else 0
            ops = tuple(self.operand(st, fid, env, o) for o in t["ops"])
            out = []
            bad = st.fork()
            if c[0] != "int" and self.assume(bad, c, 1 - exp) or c[0] == "int" and c[1] != exp:
                if self.watch:
                    self.watch.asserts(self, bad, c, ops, t, body)
                out.append((bad, None, "panic", ("assert", t["msg"], ops, t["sp"], body.path)))
            if not self.assume(st, c, exp):
                return out
            if t["msg"] == "bounds" and ops[0][0] == "int" and ops[0][1] <= 16 and self.ev(st, ops[1])[0] != "int":
                # An element of an array of known length: one path for each.
                for n in range(ops[0][1]):
                    s = st.fork()
                    if self.assume(s, self.binop(s, "Eq", ops[1], ("int", n)), 1):
                        out.append((s, t["t"], None, None))
                return out
            return out + [(st, t["t"], None, None)]
        if k == "yield":
            root, path = self.loc(st, fid, t["arg"])
            st.log(Event("yield", "", site=t["sp"], fn=body.path))
            self.write(st, root, path, ("ctx",))
            return [(st, t["t"], None, None)]
        if k == "call":
            return self.call_term(st, body, env, fid, t)
        return [(st, None, "div", (k, t["sp"]))]

    def note_write(self, root, path):
        return True

    def remaining(self, st, v):
        """The discriminants that `v` may still have, if its type is known to be a small enum."""
        if v[0] == "bin" and v[1] in NEG:
            dom = (0, 1)
        else:
            dom = st.facts.get(("dom", v))
            if dom is None:
                return None
        ex = st.facts.get(("!", v), ())
        lo, hi = self.bounds(st, v)
        return [n for n in dom if n not in ex and (lo is None or n >= lo) and (hi is None or n <= hi)]

    def covered(self, st, v, ns, t):
        ty = tupl(t["ty"])
        if ty[0] == "bool":
            return set(ns) >= {0, 1}
        return False

    def drop(self, st, v, ty, site, body, where):
        """Drops a value; enters local `Drop` impls."""
        impl = None
        if ty[0] == "adt":
            for i in self.F.impls_by_trait.get("core::ops::drop::Drop", ()):
                if i["self"][0] == "adt" and i["self"][1] == ty[1]:
                    impl = i
        st.log(Event("drop", ty[1] if len(ty) > 1 and isinstance(ty[1], str) else ty[0], (ty,), (v,), site=site, fn=body.path))
        if impl:
            b = self.F.bodies.get(impl["items"]["drop"]["key"])
            bind = {}
            unify(impl["self"], ty, bind)
            outs = self.run(st, b, bind, (("ref", where[0], where[1], True),))
            return [s for s, k, _ in outs if k == "ret"]
        return [st]

    # --------------------------------------------------------------------------------------- calls

    def call_term(self, st, body, env, fid, t):
        f = self.operand(st, fid, env, t["func"])
        args = tuple(self.operand(st, fid, env, a) for a in t["args"])
        # Pointers whose target is not known become references to "what it points to".
        args = tuple(self.as_ref(a, o, body) for a, o in zip(args, t["args"]))
        self.callsites.add((body.path, t["sp"], callee_name(f)))
        out = []
        for s, kind, v in self.call(st, f, args, t, body, subst(tupl(t["dty"]), env)):
            if kind == "ret":
                if t["t"] is None:
                    out.append((s, None, "div", (callee_name(f), t["sp"])))
                    continue
                root, path = self.loc(s, fid, t["dest"])
                self.write(s, root, path, v)
                out.append((s, t["t"], None, None))
            else:
                out.append((s, None, kind, v))
        return out

    def as_ref(self, v, o, body):
        if v[0] in ("ref", "int", "str", "bytes", "adt", "tuple", "fn", "clo", "cor", "fut", "moved"):
            return v
        if o[0] in ("copy", "move") and not o[1][1]:
            ty = body.locals[o[1][0]]
            if ty[0] == "ref":
                return ("ref", ("D", v), (), ty[1] == "mut")
        return v

    def call(self, st, f, args, t, body, dty=None):
        """All outcomes of calling the function value `f`."""
        site = t["sp"]
        if f[0] == "fn":
            name, key, gargs, callee = f[1], f[2], f[3], f[4]
            return self.call_fn(st, callee, gargs, args, t, body, dty)
        if f[0] in ("clo",):
            return self.call_closure(st, f, args, t, body)
        return self.opaque_call(st, "<dyn>", (f,) + args, t, body, dty)

    def call_fn(self, st, callee, gargs, args, t, body, dty=None):
        F = self.F
        path, key, trait, name, res = callee
        # Constructors of structs and enum variants.
        c = self.ctor(path, args)
        if c is not None:
            return [(st, "ret", c)]
        target, env = None, None
        rpath = path
        if res is not None and res[2] == "item" and not res[4]:
            rpath = res[0]
            target = F.bodies.get(res[1])
            env = dict(zip(F.generics.get(res[1], ()), res[3]))
        if res is None and trait:
            sel = self.select(trait, name, gargs)
            if sel:
                target, env, rpath = sel
        info = (path, rpath, trait, name, gargs, t, body, dty)
        if self.watch:
            self.watch.calls(self, st, args, info, target)
        m = self.sequences(path, trait, name) if args and args[0][0] in ("ref", "seq", "array") else None
        if m is not None:
            r = m(self, st, args, info)
            if r is not None:
                return r
        if self.extra:
            m = self.extra_model(path, rpath, trait, name)
            if m is not None:
                r = m(self, st, args, info)
                if r is not None:
                    return r
        m = self.models.get(rpath) or self.models.get(path) or (self.models.get(trait + "::" + name) if trait else None)
        if m is None:
            m = self.model_by_suffix(path, rpath)
        if m is not None:
            r = m(self, st, args, info)
            if r is not None:
                return r
        if trait in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn"):
            return self.call_value(st, args[0], args[1], t, body, dty)
        if target is not None and not self.opaque(target):
            if st.stack.count(target.key) < (3 if target.local else 6):
                if len(args) != target.argc:
                    raise Limit("arity of %s" % target.path)
                return self.run(st, target, env, args)
            return self.opaque_call(st, "rec:" + rpath, args, t, body, dty, gargs)
        return self.opaque_call(st, rpath, args, t, body, dty, gargs, path)

    def ctor(self, path, args):
        a = self.F.adts.get(path)
        if a and a["kind"] == "struct":
            return ("adt", path, 0, args)
        if "::" in path:
            base, v = path.rsplit("::", 1)
            a = self.F.adts.get(base)
            if a and a["kind"] == "enum":
                for i, x in enumerate(a["variants"]):
                    if x["name"] == v:
                        return ("adt", base, i, args)
        return None

    def model_by_suffix(self, path, rpath):
        return None

    def extra_model(self, path, rpath, trait, name):
        """The models that only this analysis uses, by path without generic arguments."""
        for p in (rpath, path):
            k = self._stripped.get(p)
            if k is None:
                k = self._stripped[p] = self.strip(p)
            m = self.extra.get(k)
            if m:
                return m
        return self.extra.get(trait + "::" + name) if trait else None

    strip = staticmethod(lambda p: p)
    sequences = staticmethod(lambda path, trait, name: None)

    def select(self, trait, name, gargs):
        """Selects the implementation of a trait's method."""
        F = self.F
        gargs = tuple(self.norm(x) for x in gargs)
        best = None
        for i in F.impls_by_trait.get(trait, ()):
            b = {}
            n = len(i["args"])
            if unify(i["args"], gargs[:n], b):
                blanket = i["args"][0][0] == "param"
                if gargs[0][0] in ("param", "alias") and not (blanket and gargs[0][0] == "param" and False):
                    continue
                if best is None or (best[1] and not blanket):
                    best = (i, blanket, b)
        if best:
            i, _, b = best
            it = i["items"].get(name)
            if it:
                body = F.bodies.get(it["key"])
                if body:
                    g = F.generics.get(it["key"], ())
                    own = gargs[len(i["args"]):]
                    env = dict(b)
                    names = [x for x in g if x not in b]
                    env.update(zip(names, own))
                    return body, env, body.path
            else:
                d = F.traits.get(trait, {}).get(name)
                if d and d["default"]:
                    body = F.bodies.get(d["key"])
                    if body:
                        return body, dict(zip(F.generics.get(d["key"], ()), gargs)), body.path
        return None

    def norm(self, t, depth=0):
        """Normalises associated types of local impls."""
        if not isinstance(t, tuple) or not t or depth > 8:
            return t
        if t[0] == "alias":
            args = tuple(self.norm(x, depth + 1) for x in t[3])
            for tr, impls in self.F.impls_by_trait.items():
                if t[1].startswith(tr + "::"):
                    name = t[1][len(tr) + 2:]
                    for i in impls:
                        b = {}
                        if args and args[0][0] not in ("param", "alias") and unify(i["args"], args[:len(i["args"])], b):
                            it = i["items"].get(name)
                            if it and "ty" in it:
                                return self.norm(subst(it["ty"], b), depth + 1)
            if t[1].endswith("::Layer::Service") and len(args) > 1 and args[0][0] == "adt" and args[0][1].endswith("::Identity"):
                return args[1]
            return t[:3] + (args,)
        if isinstance(t[0], tuple):
            return tuple(self.norm(x, depth) for x in t)
        return tuple(self.norm(x, depth) if isinstance(x, tuple) else x for x in t)

    def call_value(self, st, f, argtuple, t, body, dty=None):
        """Calls a closure or function value, given or by reference, with a tuple of arguments."""
        v, ref = f, None
        for _ in range(4):
            if v[0] == "ref":
                ref, v = v, self.read(st, v[1], v[2])
            else:
                break
        args = argtuple[1] if argtuple[0] == "tuple" else tuple(proj(argtuple, ("f", i)) for i in range(1))
        if v[0] == "clo":
            return self.call_closure(st, v, args, t, body, ref)
        if v[0] == "fn":
            return self.call_fn(st, v[4], v[3], args, t, body, dty)
        return self.opaque_call(st, "<dyn>", (v,) + tuple(args), t, body, dty)

    def call_closure(self, st, v, args, t, body, ref=None):
        b = self.F.bodies.get(v[1])
        if b is None:
            return self.opaque_call(st, "closure:" + v[4], args, t, body)
        self_ty = b.locals[1]
        if self_ty[0] == "ref":
            if ref is None:
                ref = self.alloc(st, v)
            first = ("ref", ref[1], ref[2], self_ty[1] == "mut")
        else:
            first = v
        if b.argc != 1 + len(args):
            raise Limit("arity of closure %s" % b.path)
        if st.stack.count(b.key) >= 3:
            return self.opaque_call(st, "rec:" + b.path, args, t, body)
        return self.run(st, b, dict(v[3]), (first,) + tuple(args))

    def apply(self, st, f, args):
        """Applies a function value from a rule or a model."""
        t = {"sp": "", "k": "call"}
        return self.call_value(st, f, ("tuple", tuple(args)), t, None)

    def opaque_call(self, st, name, args, t, body, dty=None, gargs=(), tname=None):
        if dty == ("never",) or (t.get("k") == "call" and t.get("t", 0) is None):
            vals = tuple(self.snap(st, a) for a in args)
            if self.watch:
                self.watch.diverges(self, st, name, vals, t["sp"], body)
            return [(st, "panic", ("call", name, vals, t["sp"], body.path if body else ""))]
        vals = tuple(self.snap(st, a) for a in args)
        pure = self.is_pure(name, tname)
        uid = 0 if pure else st.fresh()
        key = tuple(("&", x[1]) if isinstance(x, tuple) and x and x[0] == "&" else x for x in vals)
        if dty == UNIT_TY:
            ret = UNIT
        else:
            ret = ("call", name, key, uid)
            if pure and not args:
                ret = ("call", name, (("str", ",".join(ty_str(g) for g in gargs)),), uid)
        st.log(Event("call", name, args, vals, ret, t["sp"], body.path if body else "", (gargs, tname)))
        if not pure:
            self.havoc(st, args, name, uid)
        return [(st, "ret", ret)]

    def is_pure(self, name, tname=None):
        last = name.rsplit("::", 1)[-1]
        return last in PURE or name in PURE

    def havoc(self, st, args, name, uid, depth=0):
        """Forgets what a called function may have written through mutable references."""
        for i, a in enumerate(args):
            for n, r in enumerate(mut_refs(a)):
                old = self.read(st, r[1], r[2])
                if depth < 3:
                    self.havoc(st, (old,), name, uid, depth + 1)
                self.write(st, r[1], r[2], ("after", name, uid, (i, n, depth), old))

    # -------------------------------------------------------------------------------------- futures

    def drive(self, st, v, t, body):
        """Awaits the future value `v`: a list of (state, kind, output)."""
        for _ in range(6):
            if v[0] == "ref":
                v = self.read(st, v[1], v[2])
            else:
                break
        site = t["sp"]
        fn = body.path if body else ""
        if v[0] == "cor":
            b = self.F.bodies.get(v[1])
            if b is None:
                raise Limit("no body for %s" % v[4])
            if self.opaque(b):
                ret = ("call", "await:" + b.path, (v,), st.fresh())
                st.log(Event("await", b.path, (v,), (v,), ret, site, fn))
                return [(st, "ret", ret)]
            if st.stack.count(b.key) >= 2:
                ret = ("call", "await:rec", (v,), st.fresh())
                return [(st, "ret", ret)]
            return self.run(st, b, dict(v[3]), (v, ("ctx",)))
        if v[0] == "adt" and v[1].endswith("::either::Either"):
            return self.drive(st, v[3][0], t, body)
        if v[0] == "fut":
            k = v[1]
            if "<drive>" in self.extra:
                outs = self.extra["<drive>"](self, st, v, t, body)
                if outs is not None:
                    return outs
            if k == "ready":
                return [(st, "ret", v[2])]
            if k == "map":
                return self.then(self.drive(st, v[2], t, body), lambda s, x: self.apply(s, v[3], (x,)))
            if k == "then":
                return self.then(self.then(self.drive(st, v[2], t, body), lambda s, x: self.apply(s, v[3], (x,))),
                                 lambda s, x: self.drive(s, x, t, body))
            if k in ("map_err", "map_ok", "and_then", "or_else", "unwrap_or_else"):
                return self.then(self.drive(st, v[2], t, body), lambda s, x: self.try_map(s, k, x, v[3], t, body))
            if k == "abortable":
                a = st.fork()
                a.log(Event("await", "abortable", (v,), (v,), ("str", "aborted"), site, fn))
                out = [(a, "ret", err(("adt", "futures_util::abortable::Aborted", 0, ())))]
                for s, kind, x in self.drive(st, v[2], t, body):
                    out.append((s, kind, ok(x) if kind == "ret" else x))
                return out
            if k == "poll_fn":
                out = []
                for s, kind, x in self.apply(st, v[2], (("ctx",),)):
                    if kind != "ret":
                        out.append((s, kind, x))
                        continue
                    d = self.variant(s, x)
                    if d == 1:
                        s.log(Event("suspend", "poll_fn", (v,), site=site, fn=fn))
                        continue
                    if d is None:
                        if not self.assume(s, ("discr", x), 0):
                            continue
                    out.append((s, "ret", proj(proj(x, ("v", 0)), ("f", 0))))
                return out
            if k == "pending":
                return []
            if k == "join":
                outs = [(st, "ret", ("tuple", ()))]
                for sub in v[2]:
                    outs = self.then(outs, lambda s, acc, sub=sub: [
                        (s2, kd, ("tuple", acc[1] + (x,)) if kd == "ret" else x) for s2, kd, x in self.drive(s, sub, t, body)])
                return outs
        if v[0] == "adt" and v[1] == OPTION:
            pass
        uid = st.fresh()
        ret = ("call", "await", (v,), uid)
        st.log(Event("await", "", (v,), (self.snap(st, v),), ret, site, fn))
        self.havoc(st, (v,), "await", uid)
        return [(st, "ret", ret)]

    def then(self, outs, f):
        res = []
        for s, kind, x in outs:
            if kind == "ret":
                res.extend(f(s, x))
            else:
                res.append((s, kind, x))
        return res

    def split(self, st, x, n=2):
        """Splits the state by the variant of `x`: (state, variant index)."""
        d = self.variant(st, x)
        if d is not None:
            return [(st, d)]
        out = []
        for i in range(n):
            s = st.fork()
            if self.assume(s, ("discr", x), i):
                out.append((s, i))
        return out

    def payload(self, x, variant, i=0):
        return proj(proj(x, ("v", variant)), ("f", i))

    def try_map(self, st, k, x, f, t, body):
        out = []
        for s, d in self.split(st, x):
            p = self.payload(x, d)
            if k in ("map_err", "or_else", "unwrap_or_else") and d == 1 or k in ("map_ok", "and_then") and d == 0:
                for s2, kind, y in self.apply(s, f, (p,)):
                    if kind != "ret":
                        out.append((s2, kind, y))
                    elif k == "map_err":
                        out.append((s2, "ret", err(y)))
                    elif k == "map_ok":
                        out.append((s2, "ret", ok(y)))
                    elif k == "unwrap_or_else":
                        out.append((s2, "ret", y))
                    else:
                        out.extend(self.drive(s2, y, t, body))
            elif k == "unwrap_or_else":
                out.append((s, "ret", p))
            else:
                out.append((s, "ret", x))
        return out

    # ------------------------------------------------------------------------------------- entries

    def entry(self, body, env=None, names=None, st=None):
        """Runs `body` on symbolic parameters, named after the source."""
        st = st or State()
        args = []
        for i in range(1, body.argc + 1):
            n = next((x[0] for x in body.names if x[1] == (i, ())), "arg%d" % i)
            if names and i - 1 < len(names) and names[i - 1] is not None:
                n = names[i - 1]
            v = n if isinstance(n, tuple) else ("sym", n)
            ty = body.locals[i]
            if ty[0] == "ref" and v[0] == "sym":
                v = ("ref", ("D", v), (), ty[1] == "mut")
            args.append(v)
        return self.run(st, body, dict(env or {}), tuple(args))

    def entry_driven(self, body, env=None, names=None):
        """As `entry`, then drives the returned future to its end."""
        out = []
        for s, kind, v in self.entry(body, env, names):
            if kind != "ret":
                out.append((s, kind, v))
                continue
            s.log(Event("returned", body.path, (v,), (v,), v))
            out.extend(self.drive(s, v, {"sp": body.span}, body))
        return out


UNIT_TY = ("tuple", ())


def tupl(x):
    return x if type(x) is not list else tuple(tupl(y) for y in x)


def wrap(n, t):
    bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64,
            "u128": 128, "i128": 128}.get(t[1] if len(t) > 1 else "", None)
    if bits is None:
        return n
    n &= (1 << bits) - 1
    if t[1].startswith("i") and n >> (bits - 1):
        n -= 1 << bits
    return n


def lossless(a, b):
    """Whether the integer type `b` holds every value of the integer type `a`."""
    a, b = (x[-1] for x in (a, b))
    if a not in WIDTH or b not in WIDTH or a[0] == "i" and b[0] == "u":
        return False
    return WIDTH[b] >= WIDTH[a]


def is_bool(o, body):
    if o[0] in ("copy", "move") and not o[1][1]:
        return body.locals[o[1][0]] == ("bool",)
    return True


def freeze_callee(f, env):
    r = f.get("res")
    res = None
    if r:
        res = (r["path"], r["key"], r["kind"], subst(tupl(r["args"]), env), r["closure"])
    return (f["path"], f["key"], f.get("trait"), f.get("name"), res)


def callee_name(f):
    if f[0] == "fn":
        c = f[4]
        return c[4][0] if c[4] else c[0]
    return f[0]


def mut_refs(v, out=None, depth=0):
    if out is None:
        out = []
    if not isinstance(v, tuple) or not v or depth > 10:
        return out
    if v[0] == "ref":
        if v[3]:
            out.append(v)
        return out
    if v[0] in ("call", "after", "havoc", "deref", "fld", "as", "sym", "discr", "bin", "fn"):
        return out
    for x in v[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], tuple):
                for y in x:
                    mut_refs(y, out, depth + 1)
            else:
                mut_refs(x, out, depth + 1)
    return out


# ------------------------------------------------------------------------------------------ models

PURE = {
    "len", "is_empty", "as_str", "as_bytes", "from_utf8", "parse", "to_string", "eq", "ne", "cmp", "partial_cmp", "lt", "le",
    "trim", "starts_with", "strip_prefix", "find_header", "Into::into", "into", "from", "new_display", "new_debug", "to_owned",
    "is_data", "is_notification", "is_syntax", "is_eof", "is_io", "format", "as_ref", "borrow", "find", "to_vec", "index", "must_use",
    "classify", "from_static", "default", "as_i64", "ends_with", "contains", "is_object", "is_array", "is_null", "id",
}

MODELS = {}


def model(*names):
    def f(g):
        for n in names:
            MODELS[n] = g
        return g
    return f


def ret(st, v):
    return [(st, "ret", v)]


@model("core::clone::Clone::clone")
def m_clone(e, st, args, info):
    return ret(st, e.deref(st, args[0]))


@model("alloc::borrow::ToOwned::to_owned")
def m_to_owned(e, st, args, info):
    # The blanket implementation for what can be cloned.
    g = info[4]
    return ret(st, e.deref(st, args[0])) if g and g[0][0] == "adt" else None


@model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref",
       "core::borrow::Borrow::borrow", "core::convert::AsMut::as_mut")
def m_deref(e, st, args, info):
    path, rpath, trait, name, gargs, t, body, dty = info
    if rpath in e.F.by_path and e.F.by_path[rpath].local:
        return None
    v = e.deref(st, args[0])
    mut = "mut" in name
    if v[0] == "ref":
        return ret(st, ("ref", v[1], v[2], mut))
    if v[0] in ("str", "bytes", "array"):
        return ret(st, args[0])
    return ret(st, ("ref", ("D", v), (), mut))


@model("core::pin::Pin::<Ptr>::new_unchecked", "core::pin::Pin::<Ptr>::new", "core::pin::Pin::<&'a mut T>::get_mut",
       "core::pin::Pin::<&'a mut T>::get_unchecked_mut", "core::pin::Pin::<&'a T>::get_ref", "core::pin::Pin::<Ptr>::into_inner",
       "core::pin::Pin::<&'a mut T>::into_ref", "core::future::into_future::IntoFuture::into_future",
       "alloc::boxed::Box::<T>::pin", "alloc::boxed::Box::<T>::into_pin",
       "futures_util::future::future::FutureExt::boxed", "futures_util::future::future::FutureExt::boxed_local",
       "futures_util::future::future::FutureExt::fuse", "futures_util::future::try_future::TryFutureExt::into_future",
       "core::hint::must_use", "core::iter::traits::collect::IntoIterator::into_iter")
def m_id(e, st, args, info):
    path, rpath, trait, name = info[:4]
    if name == "into_iter":
        return None
    if trait == "core::future::into_future::IntoFuture" and rpath in e.F.by_path and e.F.by_path[rpath].local:
        return None
    return ret(st, args[0])


@model("core::pin::Pin::<Ptr>::as_mut", "core::pin::Pin::<Ptr>::as_ref")
def m_as_mut(e, st, args, info):
    return ret(st, e.deref(st, args[0]))


@model("core::future::get_context")
def m_ctx(e, st, args, info):
    return ret(st, ("ctx",))


@model("core::future::future::Future::poll")
def m_poll(e, st, args, info):
    path, rpath, trait, name, gargs, t, body, dty = info
    if rpath in e.F.by_path and e.F.by_path[rpath].local and args[0][0] != "fut":
        b = e.F.by_path[rpath]
        if not b.coroutine:
            v = e.deref(st, args[0]) if args[0][0] == "ref" else args[0]
            if v[0] not in ("cor", "fut"):
                return None
    out = []
    awaited = "desugar:await" in t.get("exp", ())
    for s, kind, v in e.drive(st.fork(), args[0], t, body):
        out.append((s, kind, ready(v) if kind == "ret" else v))
    if not awaited:
        s = st.fork()
        s.log(Event("suspend", "poll", args, site=t["sp"], fn=body.path if body else ""))
        out.append((s, "ret", PENDING))
    return out


@model("alloc::boxed::Box::<T>::new")
def m_new(e, st, args, info):
    return ret(st, e.alloc(st, args[0]))


@model("alloc::rcs::arc::Arc::<T>::new", "alloc::rcs::rc::Rc::<T>::new")
def m_new_shared(e, st, args, info):
    return ret(st, e.alloc(st, args[0])[:3] + (False,))


@model("futures_util::future::ready::ok")
def m_ok(e, st, args, info):
    return ret(st, ("fut", "ready", ok(args[0])))


@model("futures_util::future::ready::err")
def m_err(e, st, args, info):
    return ret(st, ("fut", "ready", err(args[0])))


@model("futures_util::future::ready::ready", "core::future::ready::ready")
def m_ready(e, st, args, info):
    return ret(st, ("fut", "ready", args[0]))


@model("futures_util::future::pending::pending", "core::future::pending::pending")
def m_pending(e, st, args, info):
    return ret(st, ("fut", "pending"))


@model("futures_util::future::lazy::lazy")
def m_lazy(e, st, args, info):
    return ret(st, ("fut", "map", ("fut", "ready", ("ctx",)), args[0]))


@model("futures_util::future::future::FutureExt::map", "futures_util::future::future::FutureExt::then",
       "futures_util::future::try_future::TryFutureExt::map_ok", "futures_util::future::try_future::TryFutureExt::map_err",
       "futures_util::future::try_future::TryFutureExt::and_then", "futures_util::future::try_future::TryFutureExt::or_else",
       "futures_util::future::try_future::TryFutureExt::unwrap_or_else")
def m_fmap(e, st, args, info):
    return ret(st, ("fut", info[0].rsplit("::", 1)[-1], args[0], args[1]))


@model("futures_util::future::future::FutureExt::left_future", "futures_util::future::future::FutureExt::right_future")
def m_either(e, st, args, info):
    return ret(st, args[0])


@model("futures_util::future::poll_fn::poll_fn", "core::future::poll_fn::poll_fn")
def m_poll_fn(e, st, args, info):
    return ret(st, ("fut", "poll_fn", args[0]))


@model("futures_util::future::abortable::abortable")
def m_abortable(e, st, args, info):
    n = st.fresh()
    return ret(st, ("tuple", (("fut", "abortable", args[0], ("abortid", n)), ("aborthandle", ("abortid", n)))))


@model("futures_util::abortable::AbortHandle::new_pair", "futures_channel::abort::AbortHandle::new_pair")
def m_new_pair(e, st, args, info):
    n = st.fresh()
    return ret(st, ("tuple", (("aborthandle", ("abortid", n)), ("abortreg", ("abortid", n)))))


@model("futures_util::abortable::Abortable::<Fut>::new", "futures_util::abortable::Abortable::<T>::new")
def m_abortable_new(e, st, args, info):
    reg = args[1][1] if args[1][0] == "abortreg" else args[1]
    return ret(st, ("fut", "abortable", args[0], reg))


@model("futures_util::future::maybe_done::maybe_done")
def m_maybe_done(e, st, args, info):
    return ret(st, ("maybe_done", args[0]))


@model("core::mem::replace")
def m_replace(e, st, args, info):
    r, p = e.pointee(args[0])
    old = e.read(st, r, p)
    e.write(st, r, p, args[1])
    return ret(st, old)


@model("core::mem::swap")
def m_swap(e, st, args, info):
    a, b = e.pointee(args[0]), e.pointee(args[1])
    x, y = e.read(st, *a), e.read(st, *b)
    e.write(st, a[0], a[1], y)
    e.write(st, b[0], b[1], x)
    return ret(st, UNIT)


@model("core::mem::take")
def m_take(e, st, args, info):
    r, p = e.pointee(args[0])
    old = e.read(st, r, p)
    ty = info[4][0] if info[4] else ()
    if ty and ty[0] == "adt" and ty[1] == OPTION:
        new = none()
    elif ty and ty[0] == "bool" or ty and ty[0] == "int":
        new = ("int", 0)
    else:
        new = ("call", "default", (("str", ty_str(ty) if ty else ""),), 0)
    e.write(st, r, p, new)
    return ret(st, old)


@model("core::option::Option::<T>::take")
def m_opt_take(e, st, args, info):
    r, p = e.pointee(args[0])
    old = e.read(st, r, p)
    e.write(st, r, p, none())
    return ret(st, old)


@model("core::mem::drop")
def m_drop(e, st, args, info):
    t, body = info[5], info[6]
    st.log(Event("drop", "explicit", (info[4][0] if info[4] else (),), (args[0],), site=t["sp"], fn=body.path if body else ""))
    return ret(st, UNIT)


@model("core::mem::forget")
def m_forget(e, st, args, info):
    return ret(st, UNIT)


@model("core::intrinsics::discriminant_value", "core::mem::discriminant")
def m_discr(e, st, args, info):
    return ret(st, e.ev(st, e.discr_of(e.deref(st, args[0]))))


@model("core::fmt::rt::Argument::<'_>::new_display")
def m_fmt_display(e, st, args, info):
    return ret(st, ("fmtarg", "display", e.snap(st, e.deref(st, args[0]))))


@model("core::fmt::rt::Argument::<'_>::new_debug")
def m_fmt_debug(e, st, args, info):
    return ret(st, ("fmtarg", "debug", e.snap(st, e.deref(st, args[0]))))


@model("core::fmt::Arguments::<'a>::new")
def m_fmt_args(e, st, args, info):
    tmpl = args[0] if args[0][0] == "bytes" else e.deref(st, args[0])
    a = e.deref(st, args[1])
    return ret(st, ("fmt", tmpl, a[1] if a[0] == "array" else (a,)))


@model("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst")
def m_fmt_str(e, st, args, info):
    return ret(st, ("fmt", args[0], ()))


def literal(v):
    """A constant behind a reference is the constant."""
    return v[1] if v[0] == "deref" and v[1][0] in ("str", "bytes") else v


@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def m_eq(e, st, args, info):
    path, rpath, trait, name, gargs, t, body, dty = info
    a, b = e.deref(st, args[0]), e.deref(st, args[1])
    for _ in range(3):
        if a[0] == "ref" and b[0] == "ref":
            a, b = e.read(st, a[1], a[2]), e.read(st, b[1], b[2])
    a, b = literal(a), literal(b)
    tgt = e.F.by_path.get(rpath)
    ty = gargs[0] if gargs else ()
    op = "Eq" if name == "eq" else "Ne"
    if ty and ty[0] == "adt":
        adt = e.F.adts.get(ty[1])
        if adt and adt["kind"] == "enum" and all(not v["fields"] for v in adt["variants"]):
            return ret(st, e.ev(st, e.binop(st, op, e.ev(st, e.discr_of(a)), e.ev(st, e.discr_of(b)))))
        if tgt is not None and name == "eq" and (a[0] == "adt" or b[0] == "adt"):
            return None
        if tgt is None and name == "ne" and (a[0] == "adt" or b[0] == "adt"):
            f = ("fn", "core::cmp::PartialEq::eq", "", gargs, ("core::cmp::PartialEq::eq", "", "core::cmp::PartialEq", "eq", None))
            out = []
            for s, k, v in e.call(st, f, args, t, body, dty):
                out.append((s, k, e.ev(s, ("un", "Not", v)) if k == "ret" else v))
            return out
    if a[0] in ("str", "bytes") and b[0] in ("str", "bytes"):
        x = bytes(a[1], "utf8") if a[0] == "str" else bytes(a[1])
        y = bytes(b[1], "utf8") if b[0] == "str" else bytes(b[1])
        return ret(st, ("int", int((x == y) == (op == "Eq"))))
    return ret(st, e.ev(st, ("bin", op, a, b)))


@model("core::default::Default::default")
def m_default(e, st, args, info):
    """The default of a foreign struct, member by member, so that some can be replaced."""
    path, rpath, trait, name, gargs, t, body, dty = info
    ty = e.norm(gargs[0]) if gargs else None
    if not ty or ty[0] != "adt" or e.F.bodies.get(rpath) or ty[1].split("::")[0] != "lsp_types":
        return None
    a = e.F.adts.get(ty[1])
    if not a or a.get("kind", "struct") != "struct" or len(a["variants"]) != 1:
        return None
    return [(s, k, ("adt", ty[1], 0, tuple(("fld", v, i) for i in range(len(a["variants"][0]["fields"])))) if k == "ret" and v[0] == "call" else v)
            for s, k, v in e.opaque_call(st, rpath, args, t, body, dty, gargs, path)]


VALUE_TY = ("adt", "serde_json::value::Value", ())


@model("core::convert::From::from", "core::convert::Into::into")
def m_from(e, st, args, info):
    path, rpath, trait, name, gargs, t, body, dty = info
    gargs = [e.norm(x) for x in gargs[:2]]
    if len(gargs) < 2:
        return None
    if gargs[0] == gargs[1]:
        return ret(st, args[0])
    to, of = gargs[:2] if name == "from" else gargs[1::-1]
    if to[0] == "adt" and to[1] == OPTION and to[2][:1] == (of,):
        return ret(st, some(args[0]))
    if to == VALUE_TY and of[0] == "adt" and of[1] == "alloc::vec::Vec" and of[2][:1] == (VALUE_TY,):
        names = [x["name"] for x in e.F.adts[to[1]]["variants"]] if to[1] in e.F.adts else []
        return ret(st, ("adt", to[1], names.index("Array"), (args[0],))) if "Array" in names else None
    ptr = {"alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc", "alloc::boxed::Box"}
    if to[0] == "adt" and to[1] in ptr:
        if of[0] == "adt" and of[1] == "alloc::boxed::Box" and to[2][:1] == of[2][:1] and args[0][0] == "ref":
            return ret(st, args[0][:3] + (to[1].endswith("Box"),))
        if to[2][:1] == (of,):
            return ret(st, e.alloc(st, args[0])[:3] + (to[1].endswith("Box"),))
    if gargs[0][0] == gargs[1][0] and gargs[0][0] == "int":
        to, of = gargs if name == "from" else gargs[::-1]
        if lossless(of, to):
            if args[0][0] == "int":
                return ret(st, args[0])
            c = ("cast", to[1], args[0])
            e.widened[c] = args[0]
            return ret(st, c)
    return None


@model("core::option::Option::<T>::insert", "core::option::Option::<T>::get_or_insert")
def m_opt_insert(e, st, args, info):
    return None
