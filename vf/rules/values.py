"""Rules about values: ids and messages keep what they are made of, however they are built, copied, compared and taken apart."""
from ..buffers import last, peel
from ..engine import *
from ..system import REQUEST, RESPONSE, need
from . import prop
from .codec import body_of
from .wire import CODE, COW, ERR, ID, J, Wire, for_each, ty

VALUE = ("adt", "serde_json::value::Value", ())
BUILDER = J + "request::RequestBuilder"
LSP_ID = "lsp_types::NumberOrString"
ASSUME = ["clones of library types are equal to the original, and equality of library types is equality of values"]


def impls_of(w, trait, path):
    return [i for i in w.F.impls_by_trait.get(trait, ()) if i["self"][0] == "adt" and i["self"][1] == path and all(a == i["self"] for a in i["args"])]


def values(w, path, letter):
    """One value of each kind, with unknown contents; what has one value only holds nothing unknown."""
    for k, v in enumerate(w.F.adts[path]["variants"]):
        yield k, v["name"], tuple(("adt", y[1][1], 0, ()) if bland(w, y[1]) else ("sym", "%s%d" % (letter, z)) for z, y in enumerate(v["fields"]))


def equality(w, path):
    """Two values are equal exactly if they are of the same variant and all their fields are."""
    e, rep = w.e, w.rep
    short = path.rsplit("::", 1)[-1]
    found = impls_of(w, "core::cmp::PartialEq", path)
    for i in found:
        b = need(body_of(w.F, i, "eq"), "the comparison of " + short)
        for ka, na, fa in values(w, path, "a"):
            for kb, nb, fb in values(w, path, "b"):
                st = State()
                args = (e.alloc(st, ("adt", path, ka, fa)), e.alloc(st, ("adt", path, kb, fb)))
                outs = e.run(st, b, {}, args)
                rep.paths += len(outs)
                w.n += 1
                key = "eq:%s:%s:%s:%s" % (short, na, nb, w.f)
                rep.check(bool(outs), "values can be compared", key + ":some", "no outcome", w.span(b.path))
                for s, k, x in outs:
                    if k != "ret":
                        rep.check(False, "values can be compared", key + ":outcome", "the comparison ends with %s" % k, w.span(b.path))
                        continue
                    x = e.ev(s, x)
                    if ka != kb:
                        rep.check(x == FALSE, "values of different kinds differ", key, "%s::%s and %s::%s: %s" % (short, na, short, nb, show(x)[:100]), w.span(b.path))
                        continue
                    known = [True if p == q else e.truth(s, ("bin", "Eq", p, q)) for p, q in zip(fa, fb)]
                    if x == FALSE:
                        good = False in known
                    elif x == TRUE:
                        good = all(z is True for z in known)
                    else:
                        todo = {n for n, z in enumerate(known) if z is not True}
                        good = tested(e, s, x, fa, fb) == todo
                    rep.check(good, "values of one kind are equal exactly if their contents are", key, "%s::%s compares as %s" % (short, na, show(x)[:100]), w.span(b.path))
    return len(found)


def bland(w, t):
    a = w.F.adts.get(t[1]) if t[0] == "adt" else None
    return bool(a) and len(a["variants"]) == 1 and not a["variants"][0]["fields"]


def tested(e, st, x, fa, fb):
    """The fields that a comparison compares with their counterpart, all of which it takes to be equal; else None."""
    if x[0] != "bin" or x[1] != "Eq":
        return None
    todo, out = [(x[2], x[3])], set()
    while todo:
        a, b = (bare(e.snap(st, y)) for y in todo.pop())
        if a[0] == b[0] == "tuple" and len(a[1]) == len(b[1]):
            todo += zip(a[1], b[1])
            continue
        n = next((n for n, (p, q) in enumerate(zip(fa, fb)) if {a, b} == {p, q}), None)
        if n is None:
            return None
        out.add(n)
    return out


def bare(t):
    while t[0] in ("&", "deref"):
        t = t[1]
    return t


def copies(w, path):
    """A copy is equal to the original."""
    e, rep = w.e, w.rep
    short = path.rsplit("::", 1)[-1]
    found = impls_of(w, "core::clone::Clone", path)
    for i in found:
        b = need(body_of(w.F, i, "clone"), "the clone of " + short)
        for k, n, fs in values(w, path, "a"):
            st = State()
            v = ("adt", path, k, fs)
            outs = e.run(st, b, {}, (e.alloc(st, v),))
            rep.paths += len(outs)
            w.n += 1
            key = "clone:%s:%s:%s" % (short, n, w.f)
            rep.check(bool(outs), "values can be copied", key + ":some", "no outcome", w.span(b.path))
            for s, kind, x in outs:
                x = e.snap(s, x) if kind == "ret" else None
                rep.check(x is not None and same_value(x, v), "a copy is equal to the original", key, "the copy of %s::%s is %s" % (short, n, show(x)[:150]), w.span(b.path))
    return len(found)


def same_value(x, v):
    return x[0] == "adt" and x[1:3] == v[1:3] and tuple(map(bare, x[3])) == v[3]


def content(w, st, t, origin=None):
    """The text or number in a term, without conversions between kinds of text."""
    t = peel(w.e, st, t)
    for _ in range(6):
        if t[0] == "call" and last(t[1]) in ("to_string", "to_owned", "into", "from", "clone", "into_owned", "into_string") and len(t[2]) == 1:
            t = peel(w.e, st, t[2][0])
        elif t[0] == "adt" and t[1] in ("alloc::string::String", "alloc::boxed::Box") and t[3]:
            t = peel(w.e, st, t[3][0])      # The parts of a string are its bytes.
        elif t[0] == "call" and last(t[1]) in ("to_vec", "into_vec", "as_bytes", "into_bytes", "as_str", "deref", "as_ref", "borrow", "as_mut_str") and t[2]:
            t = peel(w.e, st, t[2][0])
        elif t[0] in ("&", "deref"):
            t = t[1]
        elif t[0] == "cast" and origin and fits(t, origin):
            t = t[2]
        else:
            break
    return t


BITS = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64, "i128": 128, "u128": 128, "isize": 64, "usize": 64}


def fits(t, origin):
    """Every value of the type `origin` comes through these conversions unchanged."""
    chain = []
    while t[0] == "cast":
        chain.append(t[1])
        t = t[2]
    at = origin
    for to in reversed(chain):
        if at not in BITS or to not in BITS:
            return False
        if at[0] == to[0] and BITS[to] >= BITS[at] or at[0] == "u" and to[0] == "i" and BITS[to] > BITS[at]:
            # No value is lost; what is known is still the range of the first type.
            continue
        return False
    return True


# ------------------------------------------------------------------------------------------ P34

@prop("P34", technique="path-partitioned dataflow over the MIR of the (mostly derived) comparison, copying and conversions of ids, for every pair of "
      "kinds with symbolic contents", assumptions=ASSUME)
def p34(ctx):
    def run(w):
        e, rep = w.e, w.rep
        rep.floor(equality(w, ID), 1, "comparisons of ids (%s)" % w.f)
        rep.floor(copies(w, ID), 1, "clones of ids (%s)" % w.f)
        seen = 0
        for i in w.F.impls_by_trait.get("core::convert::From", ()):
            if i["self"] != ty(ID):
                continue
            src = i["args"][1]
            b = need(body_of(w.F, i, "from"), "a conversion to ids")
            key = "from:%s:%s" % (src[1] if src[0] == "adt" else src[-1] if src[0] == "int" else src[0], w.f)
            cases = [(("sym", "v"), None, "Number" if src[0] in ("int", "uint") else "String")]
            if src[0] == "adt" and src[1] == LSP_ID:
                cases = [(("adt", LSP_ID, k, (("sym", "v"),)), k, v["name"]) for k, v in enumerate(w.F.adts[LSP_ID]["variants"])] if LSP_ID in w.F.adts \
                    else [(("adt", LSP_ID, k, (("sym", "v"),)), k, n) for k, n in enumerate(("Number", "String"))]
            elif src[0] not in ("int", "uint", "ref") and not (src[0] == "adt" and src[1] in ("alloc::string::String", "alloc::borrow::Cow", "alloc::boxed::Box")):
                rep.notes.append("no rule for the conversion of %s into an id" % (src,))
                continue
            num = src[-1] if src[0] in ("int", "uint") else "i32"
            for v, k, want in cases:
                outs = e.run(State(), b, {}, (v,))
                rep.paths += len(outs)
                w.n += 1
                rep.check(bool(outs), "everything of this type is an id", "%s:%s:some" % (key, want), "no outcome", w.span(b.path))
                for s, kind, x in outs:
                    seen += 1
                    good = kind == "ret" and e.variant(s, x) == w.ids[want] and content(w, s, e.payload(x, w.ids[want]), num) == ("sym", "v")
                    rep.check(good, "conversion keeps the kind and the content of an id", "%s:%s" % (key, want), "%s becomes %s" % (show(v), show(x)[:120]), w.span(b.path))
        rep.floor(seen, 4, "conversions to ids (%s)" % w.f)
        rep.floor(w.n, 14, "values analysed (%s)" % w.f)
    for_each(ctx, run)


# ------------------------------------------------------------------------------------------ P35

@prop("P35", technique="path-partitioned dataflow over the MIR of constructors, builder, accessors, comparison and copying of messages: each accessor after each "
      "constructor gives what the constructor was given", assumptions=ASSUME)
def p35(ctx):
    def run(w):
        e, rep = w.e, w.rep
        got = lambda st, v: e.snap(st, v)
        M, P, I = ("sym", "m"), ("sym", "p"), ("sym", "i")

        def generic(name, t):
            b = need(w.F.body(name), name)
            g = [x for x in w.F.generics.get(b.key, ()) if not x.startswith("'")]
            return {g[-1]: t} if g else {}

        def read(st, r, owner, name, want, key):
            """An accessor gives exactly `want`, a value or a reference to it."""
            s = st.fork()
            n = owner + "::" + name
            for s2, x in w.every(n, e.alloc(s, r)[:3] + (False,), st=s):
                x = strip_refs(got(s2, x))
                if name == "method":
                    x = whole(content(w, s2, x), want)
                rep.check(x == want, "a member is read as it was given", key, "%s() is %s, not %s" % (name, show(x)[:100], show(want)[:100]), w.span(n))

        # Requests.
        for label, steps in (("nothing", ()), ("params", ("params",)), ("id", ("id",)), ("params id", ("params", "id")), ("id params", ("id", "params")),
                             ("id twice", ("other id", "id")), ("params twice", ("other params", "params"))):
            made = list(w.every(REQUEST + "::build", M, env=generic(REQUEST + "::build", COW)))
            for x in steps:
                n = BUILDER + "::" + x.split()[-1]
                v = ("sym", "other") if " " in x else P if x == "params" else I
                made = [o for st, b in made for o in w.every(n, b, v, st=st, env=generic(n, VALUE if n.endswith("params") else ty(ID)))]
                if len(made) > 64:
                    raise Limit("%d ways to build a request" % len(made))
            params, rid = (some(P) if "params" in steps else none()), (some(I) if "id" in steps else none())
            key = "request:%s:%s" % (label.replace(" ", "-"), w.f)
            for st, r in [o for st, b in made for o in w.every(BUILDER + "::finish", b, st=st)]:
                read(st, r, REQUEST, "method", M, key + ":method")
                read(st, r, REQUEST, "id", rid, key + ":id")
                read(st, r, REQUEST, "params", params, key + ":params")
                for s, x in w.every(REQUEST + "::into_parts", r, st=st):
                    x = strip_refs(got(s, x))
                    rep.check(parts(x) == (M, rid, params), "a request splits into its members", key + ":parts",
                              "into_parts() is %s" % show(x)[:150], w.span(REQUEST + "::into_parts"))
        # Responses.
        R, X = ("sym", "result"), ("sym", "error")
        ok = lambda v: ("adt", RESULT, 0, (v,))
        err = lambda v: ("adt", RESULT, 1, (v,))
        for label, ctor, args, good in (("from_ok", "from_ok", (I, R), True), ("from_error", "from_error", (I, X), False),
                                        ("from_parts-ok", "from_parts", (I, ok(R)), True), ("from_parts-error", "from_parts", (I, err(X)), False)):
            key = "response:%s:%s" % (label, w.f)
            for st, r in w.every(RESPONSE + "::" + ctor, *args):
                read(st, r, RESPONSE, "id", I, key + ":id")
                read(st, r, RESPONSE, "is_ok", TRUE if good else FALSE, key + ":is_ok")
                read(st, r, RESPONSE, "is_error", FALSE if good else TRUE, key + ":is_error")
                read(st, r, RESPONSE, "result", some(R) if good else none(), key + ":result")
                read(st, r, RESPONSE, "error", none() if good else some(X), key + ":error")
                for s, x in w.every(RESPONSE + "::into_parts", r, st=st):
                    x = strip_refs(got(s, x))
                    rep.check(parts(x) == (I, ok(R) if good else err(X)), "a response splits into its members", key + ":parts",
                              "into_parts() is %s" % show(x)[:150], w.span(RESPONSE + "::into_parts"))
        # Text, copies and comparisons.
        for t in (REQUEST, RESPONSE):
            outs = w.trait("core::str::traits::FromStr", "from_str", (ty(t),), (("sym", "s"),))
            for s, k, x in outs:
                good = k == "ret" and x[0] == "call" and x[1].startswith("serde_json::") and last(x[1]) in ("from_str", "from_slice", "from_reader") \
                    and x[2] and content(w, s, x[2][0]) == ("sym", "s")
                rep.check(good, "text is read as its JSON", "text:%s:%s" % (t.rsplit("::", 1)[-1], w.f), "from_str() gives %s" % show(x)[:150], w.span(t))
            rep.floor(len(outs), 1, "ways to read %s from text (%s)" % (t.rsplit("::", 1)[-1], w.f))
        todo, seen = [REQUEST, RESPONSE], set()
        while todo:
            t = todo.pop()
            if t in seen or t not in w.F.adts or not t.startswith("tower_lsp::"):
                continue
            seen.add(t)
            todo += inner(w.F.adts[t])
        n = 0
        for t in sorted(seen):
            n += copies(w, t)
            if t != CODE:       # Codes may be compared by number.
                n += equality(w, t)
        rep.floor(n, 8, "comparisons and copies of messages and what they hold (%s)" % w.f)
        rep.floor(w.n, 60, "values analysed (%s)" % w.f)
    for_each(ctx, run)


def whole(t, m):
    """The text `m`, if `t` is what `m` owns or borrows."""
    x = t
    while x[0] in ("fld", "as", "&", "deref"):
        x = x[1]
    return x if x == m else t


def parts(x):
    return x[1] if x[0] == "tuple" and len(x) == 2 else tuple(x[3]) if x[0] == "adt" else x[1:] if x[0] == "tuple" else None


def strip_refs(v, d=0):
    """The value without references in it."""
    while v and v[0] in ("&", "deref"):
        v = v[1]
    if d < 4 and v and v[0] == "adt":
        return v[:3] + (tuple(strip_refs(x, d + 1) for x in v[3]),)
    if d < 4 and v and v[0] == "tuple":
        return (v[0], tuple(strip_refs(x, d + 1) for x in v[1])) if len(v) == 2 and isinstance(v[1], tuple) else v
    return v


def inner(adt):
    """The types of the fields of a type."""
    out, todo = [], [x[1] for v in adt["variants"] for x in v["fields"]]
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            if len(t) > 1 and t[0] == "adt":
                out.append(t[1])
            todo += [x for x in t if isinstance(x, tuple)]
    return out
