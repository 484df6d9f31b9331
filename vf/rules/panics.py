"""What may panic, on every path that input of the peer can take.

Every analysis of the code that handles input is run under a watch, which is told of each construct
that panics if it is not used right: failing assertions of the compiler (overflow, bounds, division),
calls that do not return, and calls of library functions that are only defined for some arguments.
Each must be safe with what the path knows at that point.
"""
import re

from ..buffers import BYTES, last, length, peel, span_of
from ..engine import *
from ..lib import Path, Report
from ..models import strip
from ..system import Missing, need
from . import client, prop, service, transport, wire
from .codec import Decode, body_of, impls
from .service import ASSUME

FIND = {"find", "rfind", "position", "rposition", "memchr", "memrchr", "find_map", "offset"}
LENGTHS = {"len", "count", "capacity", "size_hint", "remaining", "element", "find", "rfind", "position", "rposition", "memchr", "next", "len_utf8",
           "parse_headers", "size_of", "load", "enumerate", "fetch_add", "fetch_sub", "line", "column"}
NARROW = {"u8", "u16", "i8", "i16"}
COUNT = {"advance", "split_to", "split_off", "split_at", "split_at_mut", "copy_to_bytes", "rotate_left", "rotate_right"}
BELOW = {"remove", "swap_remove"}
UPTO = {"insert"}
AMOUNT = {"reserve", "reserve_exact", "with_capacity", "resize", "from_elem", "repeat", "zeroed", "set_len"}
NUMERIC = {"abs", "pow", "next_power_of_two", "ilog", "ilog2", "ilog10", "isqrt", "div_euclid", "rem_euclid", "div_ceil", "div_floor", "next_multiple_of"}
SIZES = {"chunks", "chunks_exact", "windows", "step_by", "chunks_mut", "rchunks"}
TEXT = {"remove", "insert", "insert_str", "split_off", "truncate", "split_at", "split_at_mut"}
HOLDERS = ("bytes::", "alloc::vec::", "alloc::string::", "alloc::collections::", "core::slice", "alloc::slice", "core::str", "alloc::str",
           "<bytes::", "<alloc::vec::", "<alloc::string::", "<alloc::collections::", "core::ops::index", "<[T]", "<str", "core::iter", "std::")


class Watch:
    """Judges each construct that can panic, where it is used."""

    def __init__(self, rep, f):
        self.rep, self.f = rep, f
        self.where = ""
        self.sites = {}
        self.regions = {}
        self.removes = False

    def say(self, ok, rule, what, site, fn, message):
        k = (rule, what, site, fn)
        self.sites[k] = self.sites.get(k, True) and ok
        self.rep.check(ok, rule, "%s:%s:%s:%s" % (what, fn, self.where if not ok else "", self.f), message, "%s (%s)" % (site, fn))

    def enters(self, e, body, a, b):
        """Does the logging statement between two blocks evaluate anything that may panic?"""
        k = (body.key, a)
        if k not in self.regions:
            seen, todo = set(), [a]
            while todo:
                x = todo.pop()
                if x != b and x not in seen:
                    seen.add(x)
                    todo += succ(body.blocks[x]["t"])
            self.regions[k] = any(hazard(e.F, body.blocks[x], body) for x in seen)
        return self.regions[k]

    # Assertions of the compiler.

    def asserts(self, e, st, c, ops, t, body):
        kind = t["msg"]
        ok, msg = False, "it may fail"
        if kind == "overflow" and c[0] == "ovf":
            ok, msg = self.overflow(e, st, c, t, body)
        elif kind == "bounds":
            ok = c[0] == "bin" and c[1] == "Lt" and c[3][0] == "call" and c[3][2] and below(e, st, c[3][2][0], c[2])
            msg = "an index may be out of bounds: %s" % show(c)[:150]
        elif kind == "div0":
            msg = "a division by zero is possible: %s" % show(c)[:150]
        elif kind == "overflow":
            msg = "an overflow is possible: %s" % show(c)[:150]
        self.say(ok, "arithmetic and indexing stay within their bounds", kind, t["sp"], body.path, msg)

    def overflow(self, e, st, c, t, body):
        op, a, b = c[1:4]
        if op == "Sub":
            ok = e.truth(st, ("bin", "Ge", a, b)) is True
            ok = ok or a[0] == "call" and last(a[1]) == "len" and a[2] and within(e, st, a[2][0], b)
            return ok, "a subtraction may overflow: %s - %s" % (show(a)[:80], show(b)[:80])
        narrow = any(x and x[0] in ("int", "uint") and x[1] in NARROW for x in (op_type(body, o) for o in t["ops"]))
        ok = in_memory(e, st, a) and in_memory(e, st, b) and not narrow
        return ok, "%s may overflow: %s, %s" % (op, show(a)[:80], show(b)[:80])

    # Calls that do not return.

    def diverges(self, e, st, name, vals, site, body):
        fn = body.path if body else ""
        if strip(name) == "core::intrinsics::unreachable":
            return              # Derived code, where the compiler has made sure of it.
        ok = excused(e, st)
        at = next((x.site for x in reversed(st.trace()) if x.site.startswith("src/")), "")
        n = strip(name).rsplit("::", 1)[-1]
        self.say(ok, "no call panics", n, site if str(site).startswith("src/") else at or site, fn if fn.startswith(("tower_lsp", "<tower_lsp")) else stack_of(e, st) or fn,
                 "%s is called (%s)" % (name, ", ".join(show(v)[:60] for v in vals)[:120]))

    # Partial library functions.

    def calls(self, e, st, args, info, target):
        path, rpath, trait, name, gargs, t, body = info[:7]
        if body is None or not body.local:
            return
        if target is not None and target.local:
            self.recursion(e, st, args, target, t, body)
            return
        p = strip(rpath)
        n = last(rpath)
        if p.startswith("core::num::") and n in NUMERIC:
            return self.numeric(e, st, p, n, [e.ev(st, e.snap(st, a)) for a in args], t, body)
        m = OPERATOR.match(strip(path))
        if m and gargs and all(number(g) for g in gargs[:2]):
            return self.operator(e, st, m.group(1), [e.ev(st, bare(e, st, a)) for a in args], t, body)
        if not p.startswith(HOLDERS) and not strip(path).startswith(HOLDERS):
            return
        say = lambda ok, rule, msg: self.say(bool(ok), rule, n, t["sp"], body.path, msg)
        snap = lambda i: e.ev(st, e.snap(st, args[i]))
        of = (gargs[0] if gargs else ())
        texty = of and (of[0] == "str" or of[0] == "adt" and of[1] == "alloc::string::String") or "::str::" in p or "string::String" in p
        if n in ("index", "index_mut"):
            if of and of[0] == "adt" and of[1].startswith("serde_json::") and n == "index":
                return
            if of and of[0] == "adt" and ("Map" in of[1] or of[1].startswith("serde_json::")):
                return say(False, "a key is looked up only with a check", "a missing key panics: %s" % show(args[1])[:80])
            r = span_of(args[1])
            buf = whole(e, st, args[0])
            if r is None:
                i = snap(1)
                if i[0] == "adt":
                    return say(False, "ranges stay within the data", "the range %s may be out of bounds" % show(i)[:120])
                return say(below(e, st, buf, i), "ranges stay within the data", "the index %s may be out of bounds" % show(i)[:120])
            lo, hi = e.ev(st, r[0]), e.ev(st, r[1]) if r[1] is not None else None
            if texty:
                ok = edge(e, st, buf, lo) and (hi is None or edge(e, st, buf, hi)) and (hi is None or lo == ("int", 0) or ordered(e, st, lo, hi))
            else:
                ok = within(e, st, buf, lo) if hi is None else within(e, st, buf, hi) and (lo == ("int", 0) or ordered(e, st, lo, hi))
            say(ok, "ranges stay within the data", "the range %s may be out of bounds" % show(args[1])[:150])
        elif texty and n in TEXT and len(args) > 1:
            i = snap(1)
            say(edge(e, st, whole(e, st, args[0]), i), "text is split between characters", "%s at %s may be out of bounds, or within a character" % (n, show(i)[:120]))
        elif n in COUNT and len(args) > 1:
            i = snap(1)
            say(within(e, st, whole(e, st, args[0]), i), "no more is taken than there is", "%s(%s) may exceed what there is" % (n, show(i)[:120]))
        elif n in BELOW | UPTO and len(args) > 1 and ("vec::Vec" in p or "VecDeque" in p):
            v = e.deref(st, args[0]) if args[0][0] == "ref" else args[0]
            if v[0] == "vec":
                self.removes = True
                return          # The model of lists reports it.
            i = snap(1)
            b = whole(e, st, args[0])
            say(below(e, st, b, i) if n in BELOW else within(e, st, b, i), "no more is taken than there is", "%s(%s) may be out of bounds" % (n, show(i)[:120]))
        elif n == "drain" and len(args) > 1:
            r = span_of(args[1])
            b = whole(e, st, args[0])
            ok = r is not None and (r[1] is None and within(e, st, b, e.ev(st, r[0])) or r[1] is not None and within(e, st, b, e.ev(st, r[1]))
                                    and (r[0] == ("int", 0) or ordered(e, st, e.ev(st, r[0]), e.ev(st, r[1]))))
            say(ok and not texty or r == (("int", 0), None), "ranges stay within the data", "drain(%s) may be out of bounds" % show(args[1])[:120])
        elif n in ("copy_from_slice", "clone_from_slice"):
            a, b = length(e, st, args[0]), length(e, st, args[1])
            say(e.ev(st, a) == e.ev(st, b), "copies have equal lengths", "lengths may differ")
        elif n.startswith("get_") and n[4:5] in "uif" and "Buf" in path:
            say(False, "no more is taken than there is", "%s may exceed what there is" % n)
        elif n in AMOUNT and args:
            i = snap(len(args) - 1 if n in ("from_elem", "repeat") else 1 if n not in ("with_capacity", "zeroed") else 0) if len(args) > 1 or n in ("with_capacity", "zeroed") else ("int", 0)
            say(in_memory(e, st, i) or e.bounds(st, i)[1] is not None, "memory is not reserved for as much as the peer announces",
                "%s(%s): the amount is not known to be bounded" % (n, show(i)[:120]))
        elif n in SIZES and len(args) > 1:
            i = snap(1)
            lo, _ = e.bounds(st, i)
            say(lo is not None and lo > 0, "sizes are positive", "%s(%s) may be zero" % (n, show(i)[:80]))

    def numeric(self, e, st, p, n, args, t, body):
        """Methods of numbers that panic like the operators, for some numbers."""
        lo = [e.bounds(st, a)[0] for a in args]
        mem = [in_memory(e, st, a) for a in args]
        if n in ("div_ceil", "div_euclid", "rem_euclid", "div_floor", "next_multiple_of", "is_multiple_of"):
            ok = len(lo) > 1 and lo[1] is not None and lo[1] > 0 and (n != "next_multiple_of" or all(mem))
        elif n.startswith("ilog"):
            ok = bool(lo) and lo[0] is not None and lo[0] > 0
        elif n == "isqrt":
            ok = bool(lo) and (lo[0] is not None and lo[0] >= 0 or mem[0])
        elif n == "pow":
            ok = len(args) > 1 and args[0][0] == args[1][0] == "int" and args[0][1] ** max(args[1][1], 0) < 2 ** 31
        else:
            ok = bool(mem) and mem[0] or bool(lo) and lo[0] is not None and lo[0] > -2 ** 31
        self.say(ok, "arithmetic and indexing stay within their bounds", n, t["sp"], body.path, "%s(%s) may overflow, or divide by zero" % (n, ", ".join(show(a)[:60] for a in args)))

    def operator(self, e, st, op, args, t, body):
        """Operators that are calls, because an operand is behind a reference."""
        if op.startswith(("Div", "Rem")):
            lo = e.bounds(st, args[1])[0]
            ok = lo is not None and lo > 0
        elif op.startswith("Sub"):
            ok = e.truth(st, ("bin", "Ge", args[0], args[1])) is True
        else:
            ok = all(in_memory(e, st, a) for a in args)
        self.say(ok, "arithmetic and indexing stay within their bounds", op, t["sp"], body.path, "%s of %s may overflow, or divide by zero" % (op, ", ".join(show(a)[:60] for a in args)))

    def recursion(self, e, st, args, target, t, body):
        if st.stack.count(target.key) < 3:
            return
        takes = any(x[0] == "ref" and "BytesMut" in str(x) for x in target.locals[1:target.argc + 1])
        if takes:
            self.say(False, "decoding does not recurse once per message", "recursion", t["sp"], body.path,
                     "%s calls itself again for what follows, so that input of many messages exhausts the stack" % target.path)


OPERATOR = re.compile(r"core::ops::arith::(Neg|Add|Sub|Mul|Div|Rem|AddAssign|SubAssign|MulAssign|DivAssign|RemAssign)::")


def number(ty):
    while ty and ty[0] == "ref":
        ty = ty[2]
    return bool(ty) and ty[0] in ("int", "uint")


def bare(e, st, a):
    for _ in range(3):
        if a[0] == "ref":
            a = e.deref(st, a)
        elif a[0] == "&":
            a = a[1]
    return a


def stack_of(e, st):
    for k in reversed(st.stack):
        b = e.F.bodies.get(k)
        if b is not None and b.local:
            return b.path
    return ""


def op_type(body, o):
    if o[0] in ("copy", "move") and not o[1][1]:
        return body.locals[o[1][0]]
    if o[0] == "const":
        t = o[1].get("ty") if isinstance(o[1], dict) else None
        return tupl(t) if t else ()
    return ()


def excused(e, st):
    """The user's own doing: values that cannot be serialized, and a request that outlives its client."""
    ev = st.trace()
    if any(x.kind == "unserializable" for x in ev):
        return True
    return any(x.kind == "await" and x.vals and x.vals[0][0] == "rx" and e.variant(st, x.ret) == 1 for x in ev)


# ------------------------------------------------------------------------------- what is known of amounts

class Shim:
    def __init__(self, e):
        self.e = e


def whole(e, st, v):
    return peel(e, st, e.snap(st, v) if v[0] != "ref" else v)


def found(e, st, n):
    """For a position that was searched for: (what was searched, what for)."""
    while n[0] == "fld" and n[2] == 0 and n[1][0] == "as" and n[1][2] == 1:
        n = n[1][1]
    while n[0] == "fld" and n[1][0] in ("call", "fld", "as"):
        n = n[1]
        if n[0] == "as":
            n = n[1]
    if n[0] == "call" and last(n[1]) in FIND and n[2]:
        return peel(e, st, n[2][0]), (peel(e, st, n[2][1]) if len(n[2]) > 1 and isinstance(n[2][1], tuple) else None)
    return None


def inside(e, st, x, buf, d=0):
    """Is `x` an iterator, a slice or a part of the content `buf`?"""
    if not isinstance(x, tuple) or d > 8:
        return False
    x = peel(e, st, x)
    if x == buf:
        return True
    if x[0] == "pre":
        return inside(e, st, x[1], buf, d + 1)
    if x[0] == "call" and x[2]:
        return inside(e, st, x[2][0], buf, d + 1)
    return False


def within(e, st, buf, n, d=0):
    """Is `n` at most the length of `buf`?"""
    n = e.ev(st, n)
    if n == ("int", 0):
        return True
    if d > 6:
        return False
    ln = length(e, st, buf)
    if n == ln or e.truth(st, ("bin", "Ge", ln, n)) is True:
        return True
    if Decode.at_least(Shim(e), st, buf, n):
        return True
    w = found(e, st, n)
    if w and inside(e, st, w[0], buf):
        return True
    # The header that parse_headers found is part of the input.
    if n[0] == "fld" and n[2] == 0 and n[1][0] == "fld" and n[1][1][0] == "as":
        c = n[1][1][1]
        if c[0] == "fld" and c[1][0] == "as":
            c = c[1][1]
            if c[0] == "call" and strip(c[1]) == "httparse::parse_headers" and peel(e, st, c[2][0]) == buf:
                return True
    if n[0] == "call" and last(n[1]) in ("min", "integer_min"):
        return any(within(e, st, buf, x, d + 1) for x in n[2])
    if n[0] == "call" and last(n[1]) in ("saturating_sub", "wrapping_div", "unwrap_or_default") and n[2]:
        return within(e, st, buf, n[2][0], d + 1)
    if n[0] == "call" and last(n[1]) == "unwrap_or" and len(n[2]) == 2:
        return within(e, st, buf, ("fld", ("as", n[2][0], 1), 0), d + 1) and within(e, st, buf, n[2][1], d + 1)
    if n[0] == "bin" and n[1] in ("Sub", "Div", "Rem", "Shr"):
        return within(e, st, buf, n[2], d + 1)
    if n[0] == "bin" and n[1] == "Add":
        for x, y in ((n[2], n[3]), (n[3], n[2])):
            w = found(e, st, x)
            if w and inside(e, st, w[0], buf) and w[1] is not None and e.ev(st, length(e, st, w[1])) == y:
                return True
            # What is left behind a prefix.
            if within(e, st, buf, x, d + 1) and within(e, st, ("adv", buf, x), y, d + 1):
                return True
            if below(e, st, buf, x) and y == ("int", 1):
                return True
    return False


def below(e, st, buf, n):
    """Is `n` less than the length of `buf`?"""
    n = e.ev(st, n)
    if e.truth(st, ("bin", "Lt", n, length(e, st, buf))) is True:
        return True
    w = found(e, st, n)
    if w and inside(e, st, w[0], buf) and last(term_name(n)) in ("position", "rposition", "memchr", "memrchr"):
        return True
    return n[0] == "int" and n[1] >= 0 and within(e, st, buf, ("int", n[1] + 1))


def term_name(n):
    while n[0] in ("fld", "as"):
        n = n[1]
    return n[1] if n[0] == "call" else ""


def ordered(e, st, lo, hi):
    if e.truth(st, ("bin", "Le", lo, hi)) is True or lo == hi:
        return True
    return hi[0] == "bin" and hi[1] == "Add" and lo in hi[2:]


def edge(e, st, text, n):
    """Is `n` a position between two characters of the text?"""
    n = e.ev(st, n)
    if n == ("int", 0) or n == length(e, st, text):
        return True
    w = found(e, st, n)
    if w and inside(e, st, w[0], text):
        return True
    if n[0] == "bin" and n[1] == "Add":
        for x, y in ((n[2], n[3]), (n[3], n[2])):
            w = found(e, st, x)
            if w and inside(e, st, w[0], text) and w[1] is not None and e.ev(st, length(e, st, w[1])) == y:
                return True
    # A prefix that has been compared.
    for k, v in st.facts.items():
        if v == 1 and k[0] == "=" and k[1][0] == "call" and last(k[1][1]) in ("starts_with", "is_char_boundary") and len(k[1][2]) == 2:
            a, b = k[1][2]
            if peel(e, st, a) == text and (e.ev(st, b) == n or e.ev(st, length(e, st, b)) == n):
                return True
    return False


def in_memory(e, st, n, d=0):
    """Is the number made of lengths of data in memory, positions in it, counters and constants?"""
    n = e.ev(st, n)
    k = n[0]
    if k == "int":
        return n[1] < 2 ** 40
    if e.bounds(st, n)[1] is not None:
        return True
    if d > 12:
        return False
    if k == "bin":
        return all(in_memory(e, st, x, d + 1) for x in n[2:])
    if k == "cast":
        return in_memory(e, st, n[2], d + 1)
    if k == "havoc":
        i = e.inits.get(n[1])
        return i is None or i[0] == "int" or i[0] not in ("int", "adt", "tuple") and in_memory(e, st, i, d + 1)
    if k in ("fld", "as"):
        return in_memory(e, st, n[1], d + 1) if k == "fld" or n[1][0] == "call" else in_memory(e, st, n[1], d + 1)
    if k == "call":
        l = last(n[1])
        if l in LENGTHS:
            return True
        if l in ("min", "integer_min"):
            return any(in_memory(e, st, x, d + 1) for x in n[2])
        if n[1].startswith("rec:"):
            return all(in_memory(e, st, x, d + 1) for x in n[2])
        if l in ("saturating_sub", "checked_sub", "wrapping_sub", "max", "integer_max", "saturating_add", "checked_add", "unwrap_or", "unwrap_or_default", "ilog10", "log10",
                 "checked_ilog10", "div_ceil", "next_power_of_two"):
            return l in ("ilog10", "checked_ilog10") or all(in_memory(e, st, x, d + 1) for x in n[2] if isinstance(x, tuple))
    if k == "discr":
        return True
    return False


# ------------------------------------------------------------------------------------------- entries

def succ(t):
    out = [t[k] for k in ("t", "otherwise") if isinstance(t.get(k), int)]
    return out + [b for _, b in t.get("cases", ())]


def hazard(F, bl, body, depth=0):
    """May the block panic, by itself or in what it calls (for logging statements: everything else is entered)?"""
    t = bl["t"]
    if t["k"] == "assert":
        return True
    if t["k"] != "call" or t["func"][0] != "const" or "fn" not in t["func"][1]:
        return False
    if partial(t):
        return True
    f = t["func"][1]["fn"]
    k = (f.get("res") or f)["key"]
    b = F.bodies.get(k)
    return depth < 4 and b is not None and b.local and any(hazard(F, x, b, depth + 1) for x in b.blocks)


def partial(t):
    f = t["func"][1]["fn"]
    p = strip((f.get("res") or f)["path"])
    n = p.rsplit("::", 1)[-1]
    if t.get("t") is None or n in ("unwrap", "expect", "unwrap_err", "expect_err"):
        return True
    if p.startswith("core::num::") and n in NUMERIC or OPERATOR.match(strip(f["path"])):
        return True
    return p.startswith(HOLDERS) and (n in COUNT | BELOW | UPTO | AMOUNT | SIZES | TEXT or n in ("index", "index_mut", "drain", "copy_from_slice", "clone_from_slice"))


def sited(b):
    """Does the body contain anything that may panic by itself?"""
    for bl in b.blocks:
        t = bl["t"]
        if t["k"] == "assert":
            return True
        if t["k"] == "call" and t["func"][0] == "const" and "fn" in t["func"][1] and partial(t):
            return True
    return False


def mentioned(F, b):
    """The local bodies that a body calls, makes closures of, or names."""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            f = x.get("fn")
            if isinstance(f, dict):
                r = f.get("res") or f
                if r.get("key") in F.bodies:
                    out.add(r["key"])
            for k, y in x.items():
                if k in ("closure", "coroutine") and isinstance(y, str) and y in F.bodies:
                    out.add(y)
                walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
        elif isinstance(x, str) and x in F.bodies:
            out.add(x)
    walk(b.blocks)
    return {k for k in out if F.bodies[k].local}


def reachable(F):
    """Everything that handling input can run: trait implementations, serving, and what they mention."""
    todo = [b.key for b in F.bodies.values() if b.local and (b.impl_trait is not None or b.path.endswith("Server::<I, O, L>::serve"))]
    seen = set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        todo.extend(mentioned(F, F.bodies[k]))
    return seen


def drive_all(w, ctx, f):
    """Every analysis of the handling of input, under the watch."""
    F, sys, rep = ctx.F[f], ctx.sys[f], ctx.rep
    quiet = Report(rep.prop, ctx.tier)
    sub = type("Sub", (), {"rep": quiet, "tier": ctx.tier, "features": (f,), "F": ctx.F, "sys": ctx.sys})()

    w.where = "decode"
    d = Decode(sub, f)
    n = len(d.outs)
    for i, b in d.outer:
        e = sys.engine(extra=BYTES, opaque={d.body.key})
        n += len(e.entry(b, names=["self", "src"]))
        quiet.absorb(e)
    rep.floor(n, 8, "paths of the decoders (%s)" % f)
    w.where = "encode"
    for i in impls(F, "Encoder"):
        e = sys.engine(extra=BYTES)
        n = len(e.entry(body_of(F, i, "encode"), names=[None, "item", "dst"]))
        quiet.absorb(e)
        rep.floor(n, 2, "paths of the encoder (%s)" % f)
    w.where = "serve"
    S = transport.Serve(sub, f)
    for g in S.segs:
        for x in g.pushes():
            S.deliver(g.st, g.all, *x.vals)
    n = 0
    for s, names in service.systems(sub, f, sys):
        for m in names:
            w.where = m
            ps, _, _ = s.service_paths(m, quiet)
            n += len(ps)
    rep.floor(n, 700, "paths of the service (%s)" % f)
    w.where = "poll_ready"
    for adt in ("tower_lsp::service::LspService",):
        e = sys.engine()
        st = sys.svc_state.fork()
        st.events = None
        e.run(st, sys.service_impl(adt, "poll_ready"), {}, (sys.svc_ref, ("sym", "cx")))
        quiet.absorb(e)
    w.where = "response"
    cl = client.Clients(sub, f)
    rep.floor(client.receives(cl, quiet, f), 6, "ways to take a response (%s)" % f)
    for v in quiet.violations:
        if v["key"].startswith("forget:") and w.removes:
            rep.check(False, "no id is left with an empty list of waiting requests, from which the next response would take one", v["key"], v["message"], v["where"])
    ss, half, _ = client.sinks(cl)
    w.where = "loopback"
    for name, st, v in [(ss[0][0], ss[0][1], ss[0][2]), half]:
        client.poll(cl, client.trait_body(cl, client.STREAM, v, "poll_next"), st, v)
    for name, st, v in ss:
        for k in ("poll_ready", "poll_flush", "poll_close"):
            client.poll(cl, client.trait_body(cl, client.SINK, v, k), st, v)
    for m in client.methods(cl):
        w.where = "Client::" + m
        cl.paths(m)
    w.where = "message"
    W = wire.Wire(sub, f)
    x = ("jany", ("sym", "x"))
    num, text, flt, bln = ("jnum", ("sym", "n")), ("jstr", ("sym", "s")), ("jfloat", ("sym", "n")), ("jbool", ("sym", "n"))
    err = ("jobj", (("code", num), ("message", text), ("data", x)))
    vals = [wire.NULL, num, text, flt, bln, ("jarr", ()), ("jobj", ()), err]
    shapes = list(vals)
    V2 = wire.V2
    for v in vals:
        for base in ((("method", text), ("params", x)), (("result", x),), (("error", err),), ()):
            shapes.append(("jobj", (("jsonrpc", V2), ("id", v)) + base))
        shapes += [("jobj", (("jsonrpc", V2), ("id", num), (k, v))) for k in ("method", "result", "error")]
        shapes += [("jobj", (("jsonrpc", V2), ("method", text), ("params", v))), ("jobj", (("jsonrpc", v), ("method", text)))]
        for k in ("code", "message", "data"):
            m = tuple((a, v if a == k else b) for a, b in err[1])
            shapes.append(("jobj", (("jsonrpc", V2), ("id", num), ("error", ("jobj", m)))))
    n = 0
    for sh in shapes:
        n += len(W.decode(sh, wire.ty(wire.MESSAGE)))
    W.close()
    rep.floor(n, 60, "outcomes of decoding messages (%s)" % f)
    rep.functions.update(quiet.functions)
    rep.sites |= quiet.sites
    rep.paths += quiet.paths
    rep.steps += quiet.steps
    return quiet


@prop("P23", technique="path-partitioned dataflow over MIR of everything that handles input (decoders, encoder, serving, every service method, "
      "the client's responses, deserialization of messages), watched for constructs that may panic; each is discharged by what its path knows; "
      "code that those analyses do not enter is analysed from unconstrained arguments",
      assumptions=ASSUME + ["library functions panic only as documented; memory is not exhausted", "lengths of data in memory do not overflow usize",
                            "handlers of the user, and the (de)serialization of the user's own types, do not panic"])
def p23(ctx):
    rep = ctx.rep
    for f in ctx.features:
        F, sys = ctx.F[f], ctx.sys[f]
        w = Watch(rep, f)
        Engine.watch = w
        try:
            drive_all(w, ctx, f)
            visited = set(rep.functions)
            R = reachable(F)
            rest = [F.bodies[k] for k in R if F.bodies[k].path not in visited]
            alone = 0
            for b in sorted(rest, key=lambda b: b.path):
                if not sited(b):
                    continue
                alone += 1
                w.where = "alone"
                e = sys.engine(extra=BYTES)
                try:
                    e.entry(b)
                    rep.absorb(e)
                except Limit as x:
                    rep.check(False, "analysable", "limit:%s:%s" % (b.path, f), "%s may panic, and cannot be followed: %s" % (b.path, x), b.span)
            rep.floor(len(R), 300, "functions that input can reach (%s)" % f)
            rep.notes.append("%s: %d reachable functions, %d analysed on the way, %d alone, %d constructs that may panic" %
                             (f, len(R), len([k for k in R if F.bodies[k].path in visited]), alone, len(w.sites)))
            rep.floor(len(w.sites), 8, "constructs that may panic (%s)" % f)
        finally:
            Engine.watch = None
