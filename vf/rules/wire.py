"""Rules about JSON: what messages look like on the wire, and what becomes of what arrives.

The serialization code, derived or not, is followed on values that the public constructors make, with
an abstract serializer that records the shape it is told to write; the deserialization code is
followed on JSON of every shape that matters (which members there are, in which order, of which
kind), with opaque values in it.
"""
import itertools
import re

from ..engine import *
from ..system import REQUEST, RESPONSE, Missing, System, need
from ..wire import *
from . import prop
from .service import NOT_INITIALIZED

J = "tower_lsp::jsonrpc::"
ERR, CODE, ID, MESSAGE = J + "error::Error", J + "error::ErrorCode", J + "Id", J + "Message"
COW = ("adt", "alloc::borrow::Cow", (("str",),))
CODES = {"parse_error": -32700, "invalid_request": -32600, "method_not_found": -32601, "invalid_params": -32602, "internal_error": -32603,
         "request_cancelled": -32800, "content_modified": -32801}
# What the library itself may answer, besides.
LSP_CODES = {*CODES.values(), NOT_INITIALIZED, -32802, -32803}
OWN = {"not_initialized_error": NOT_INITIALIZED}
TECH = ("path-partitioned dataflow over the MIR of the (mostly derived) Serialize and Deserialize impls, with an abstract serializer and "
        "deserializer that track JSON shapes")
ASSUME = ["serde's and serde_json's impls for standard types, and serde's flattening and buffering helpers, behave as documented"]
T = {"sp": "", "k": "call", "t": 0}


def ty(path):
    return ("adt", path, ())


class Wire:
    def __init__(self, ctx, f):
        self.ctx, self.f, self.F, self.rep = ctx, f, ctx.F[f], ctx.rep
        self.sys = System(self.F, extra=WIRE)
        self.e = e = self.sys.engine()
        e.rounds, e.nested, e.width = 12, 12, 24
        self.n = 0
        for x in (REQUEST, RESPONSE, ERR, CODE, ID, MESSAGE):
            need(self.F.adts.get(x), x)
        # The accessors of the system run on an engine of their own.
        self.sys.engine = lambda **kw: e
        self.ids = {v["name"]: i for i, v in enumerate(self.F.adts[ID]["variants"])}
        for x in ("Number", "String", "Null"):
            need(x in self.ids, "Id::" + x)

    def close(self):
        self.rep.absorb(self.e)

    def fn(self, name, *args, st=None, env=None):
        b = need(self.F.body(name), name)
        self.n += 1
        st = st.fork() if st else State()
        return self.e.run(st, b, dict(env or {}), tuple(args))

    def every(self, name, *args, st=None, env=None):
        """All outcomes of a function that has to return: (state, value)."""
        outs = self.fn(name, *args, st=st, env=env)
        self.rep.paths += len(outs)
        self.rep.check(bool(outs), "constructors and accessors return", "%s:%s:some" % (name, self.f), "no outcome of %s" % name, self.span(name))
        if len(outs) > 64:
            raise Limit("%d outcomes of %s" % (len(outs), name))
        for s, k, x in outs:
            if self.rep.check(k == "ret", "constructors and accessors return", "%s:%s" % (name, self.f), "%s ends with %s" % (name, k), self.span(name)):
                yield s, x

    def trait(self, trait, name, gargs, args, st=None):
        self.n += 1
        outs = self.e.call_fn(st.fork() if st else State(), callee(trait, name), gargs, args, T, None)
        self.rep.paths += len(outs)
        return outs

    def encode(self, st, v, t):
        st = st.fork()
        return self.trait(S + "Serialize", "serialize", (t, SER_T), (self.e.alloc(st, v), SER), st)

    def decode(self, sh, t):
        return self.trait(D + "Deserialize", "deserialize", (t, DE_T), (("jde", sh),))

    def id(self, kind, term):
        return ("adt", ID, self.ids[kind], (term,) if kind != "Null" else ())

    def span(self, path):
        b = self.F.body(path)
        return "%s (%s)" % (b.span, path) if b else path

    def code(self, st, v):
        """What `code()` of an error code returns, for each path: (state, number)."""
        n = CODE + "::code"
        b = need(self.F.body(n), n)
        s = st.fork()
        arg = v if b.locals[1][0] != "ref" else self.e.alloc(s, v)[:3] + (False,)
        return [(s2, self.e.ev(s2, x) if k == "ret" else None) for s2, k, x in self.e.run(s, b, {}, (arg,))]

    def holds_code(self, st, v, want):
        """Is the code of `v` equal to `want`, a number or a term, on every path?"""
        outs = self.code(st, v)
        return bool(outs) and all(x is not None and (x == want or self.e.ev(s, ("bin", "Eq", x, want)) == TRUE or x == self.e.ev(s, want))
                                  for s, x in outs)


def for_each(ctx, f):
    for feat in ctx.features:
        w = Wire(ctx, feat)
        f(w)
        w.close()


# ------------------------------------------------------------------------------------------ P25

@prop("P25", technique="path-partitioned dataflow over ErrorCode's conversions and serialization, for every predefined code and a symbolic one; "
      "constructors of Error compared with the table of the specifications", assumptions=ASSUME)
def p25(ctx):
    def run(w):
        e, rep, F = w.e, w.rep, w.F
        names = [x[0] for x in F.adts[ERR]["variants"][0]["fields"]]
        where = w.span(CODE + "::code")
        variants = {}
        # Errors that the library makes of nothing have a code of the specifications, too.
        for b in F.bodies.values():
            if b.local and b.argc == 0 and b.kind in ("Fn", "AssocFn") and tuple(b.locals[0][:2]) == ("adt", ERR):
                for st, v in w.every(b.path):
                    cs = {x[1] if x and x[0] == "int" else None for _, x in w.code(st, proj(v, ("f", names.index("code"))))}
                    want = OWN.get(b.path.rsplit("::", 1)[-1])
                    rep.check(cs <= (LSP_CODES if want is None else {want}), "errors of the library have codes of the specifications", "%s:own:%s" % (w.f, b.path),
                              "%s() has the code %s, which no specification assigns" % (b.path, sorted(map(str, cs))), b.span)
        for n, c in CODES.items():
            outs = w.every(ERR + "::" + n, ("sym", "message"), env={"M": COW}) if n == "invalid_params" else w.every(ERR + "::" + n)
            for st, v in outs:
                cv = proj(v, ("f", names.index("code")))
                rep.check(w.holds_code(st, cv, ("int", c)), "constructors use the code of the specification", "%s:%s" % (w.f, n),
                          "Error::%s() has code %s, not %d" % (n, [show(x) for _, x in w.code(st, cv)], c), w.span(ERR + "::" + n))
                rep.check(e.variant(st, proj(v, ("f", names.index("data")))) == 0, "constructors add no data", "%s:%s:data" % (w.f, n),
                          "Error::%s() has data" % n, w.span(ERR + "::" + n))
                if n == "invalid_params":
                    rep.check(text(e, st, proj(v, ("f", names.index("message")))) == ("sym", "message"), "the message given is kept",
                              "%s:%s:message" % (w.f, n), "Error::invalid_params(m) has another message", w.span(ERR + "::" + n))
                variants[e.variant(st, cv)] = c
        adt = F.adts[CODE]["variants"]
        other = [i for i, x in enumerate(adt) if x["fields"]]
        rep.check(len(other) == 1 and adt[other[0]]["name"] == "ServerError", "one variant for all other codes", w.f + ":other",
                  "ErrorCode has %d variants with fields" % len(other), where)
        for i, x in enumerate(adt):
            if not x["fields"]:
                rep.check(i in variants, "every predefined code is in the table", "%s:variant:%s" % (w.f, x["name"]),
                          "ErrorCode::%s is not the code of any constructor" % x["name"], where)
        rep.check(len(set(variants)) == len(CODES), "predefined codes are distinct", w.f + ":distinct", "two constructors share a variant", where)
        n = ("sym", "n")
        cases = [("adt", CODE, i, ()) for i, x in enumerate(adt) if not x["fields"]]
        for o in other[:1]:
            cases.append(("adt", CODE, o, (n,)))
        for cv in cases:
            vn = adt[cv[2]]["name"]
            want = n if cv[3] else ("int", variants.get(cv[2], 0))
            rep.check(w.holds_code(State(), cv, want), "code() is the code", "%s:code:%s" % (w.f, vn), "code() of %s is wrong" % vn, where)
            outs = w.trait("core::convert::Into", "into", (ty(CODE), ("int", "i64")), (cv,)) if False else \
                w.trait("core::convert::From", "from", (("int", "i64"), ty(CODE)), (cv,))
            for st, k, x in outs:
                rep.check(k == "ret" and e.ev(st, x) == e.ev(st, want), "conversion to i64 is the code", "%s:into:%s" % (w.f, vn),
                          "i64::from(%s) is %s" % (vn, show(x)), where)
            # Encoding and decoding.
            for st, k, x in w.encode(State(), cv, ty(CODE)):
                good = k == "ret" and e.variant(st, x) == 0 and e.payload(x, 0) == ("jnum", e.ev(st, want))
                rep.check(good, "the code is written as it is", "%s:encode:%s" % (w.f, vn), "%s is written as %s" % (vn, show(x)), where)
        for c in list(CODES.values()) + [NOT_INITIALIZED, 0, 1, -1, n]:
            term = c if isinstance(c, tuple) else ("int", c)
            label = show(term)
            for kind, outs in (("from", w.trait("core::convert::From", "from", (ty(CODE), ("int", "i64")), (term,))),
                               ("decode", [(s, k, e.payload(x, 0) if k == "ret" and e.variant(s, x) == 0 else None) for s, k, x in
                                           w.decode(("jnum", term), ty(CODE))])):
                rep.check(bool(outs), "every code can be read", "%s:%s:%s:some" % (w.f, kind, label), "no outcome", where)
                for st, k, x in outs:
                    good = k == "ret" and x is not None and w.holds_code(st, x, e.ev(st, term))
                    rep.check(good, "a code read has the same value", "%s:%s:%s" % (w.f, kind, label),
                              "the code %s becomes %s" % (show(e.ev(st, term)), show(x)), where)
                    v = e.variant(st, x) if x is not None else None
                    if isinstance(c, int):
                        rep.check(v is not None and ((v in variants) == (c in variants.values())), "a predefined code is recognised",
                                  "%s:%s:%s:variant" % (w.f, kind, label), "the code %d becomes %s" % (c, show(x)), where)
        rep.floor(w.n, 30, "conversions analysed")
    for_each(ctx, run)


# ------------------------------------------------------------------------------------------ P26

def members(sh):
    """The members of an object, or None if it is none or names one twice."""
    if sh[0] != "jobj":
        return None
    d = dict(sh[1])
    return d if len(d) == len(sh[1]) else None


V2 = ("jstr", ("str", "2.0"))


def id_shapes(w):
    n, s = ("sym", "n"), ("sym", "s")
    return [(w.id("Number", n), ("jnum", n)), (w.id("String", s), ("jstr", s)), (w.id("Null", None), NULL)]


@prop("P26", technique=TECH + "; every path's object is compared with the members that JSON-RPC 2.0 prescribes", assumptions=ASSUME)
def p26(ctx):
    def run(w):
        e, rep, F = w.e, w.rep, w.F
        m, i, p = w.sys.accessor(REQUEST, "method"), w.sys.accessor(REQUEST, "id"), w.sys.accessor(REQUEST, "params")
        where = w.span(REQUEST + "::build")
        mv = {v["name"]: k for k, v in enumerate(F.adts[MESSAGE]["variants"])}
        kinds = [k for k, v in enumerate(F.adts[MESSAGE]["variants"]) if len(v["fields"]) == 1 and v["fields"][0][1] == ty(REQUEST)]
        rkinds = [k for k, v in enumerate(F.adts[MESSAGE]["variants"]) if len(v["fields"]) == 1 and v["fields"][0][1] == ty(RESPONSE)]
        need(len(kinds) == 1 and len(rkinds) == 1, "the variants of Message")
        req = ("sym", "req")

        def both(v, t, k):
            yield v, ty(t), t.rsplit("::", 1)[-1]
            yield ("adt", MESSAGE, k, (v,)), ty(MESSAGE), "Message"
        seen = set()
        for v, t, label in both(req, REQUEST, kinds[0]):
            for st, k, x in w.encode(State(), v, t):
                d = members(e.payload(x, 0)) if k == "ret" and e.variant(st, x) == 0 else None
                key = "%s:%s" % (w.f, label)
                if not rep.check(d is not None, "a request is written as an object", key + ":object", "it is written as %s" % show(x), where):
                    continue
                idv, pv = e.variant(st, ("fld", req, i)), e.variant(st, ("fld", req, p))
                seen.add((label, idv, pv))
                rep.check(d.get("jsonrpc") == V2, "the version is 2.0", key + ":version", "the version is %s" % show(d.get("jsonrpc")), where)
                rep.check(d.get("method", ("",))[0] == "jstr" and text(e, st, d["method"][1]) == ("fld", req, m), "the method is written", key + ":method",
                          "the method is written as %s" % show(d.get("method")), where)
                if idv == 0:
                    rep.check("id" not in d, "a notification has no id", key + ":no-id", "a notification has the id %s" % show(d.get("id")), where)
                else:
                    idt = ("fld", ("as", ("fld", req, i), 1), 0)
                    iv = e.variant(st, idt)
                    want = NULL if iv == w.ids["Null"] else ("jnum" if iv == w.ids["Number"] else "jstr", e.payload(idt, iv)) if iv is not None else None
                    got = d.get("id")
                    rep.check(idv == 1 and want is not None and got == want, "a request has its id", key + ":id", "a request has the id %s" % show(got), where)
                if pv == 0:
                    rep.check("params" not in d, "no params are written if there are none", key + ":no-params", "params %s are written" % show(d.get("params")), where)
                else:
                    rep.check(pv == 1 and d.get("params") == ("jany", ("fld", ("as", ("fld", req, p), 1), 0)), "params are written whole", key + ":params",
                              "params are written as %s" % show(d.get("params")), where)
                rep.check(set(d) <= {"jsonrpc", "method", "id", "params"}, "no other members", key + ":extra", "members %s" % sorted(d), where)
        rep.floor(len(seen), 8, "combinations of id and params of requests")
        # Responses.
        where = w.span(RESPONSE + "::from_ok")
        names = [x[0] for x in F.adts[ERR]["variants"][0]["fields"]]
        code = ("adt", CODE, next(k for k, x in enumerate(F.adts[CODE]["variants"]) if x["fields"]), (("sym", "code"),))

        def error(data):
            f = {"code": code, "message": ("adt", "alloc::borrow::Cow", 1, (("sym", "message"),)), "data": data}
            return ("adt", ERR, 0, tuple(f[x] for x in names))
        bodies = [("from_ok", ("sym", "result"), "result", ("jany", ("sym", "result")))]
        for dl, dv, dj in (("no data", none(), None), ("data", some(("sym", "data")), ("jany", ("sym", "data")))):
            bodies.append(("from_error", error(dv), "error", dj))
        for idv, idj in id_shapes(w):
            for ctor, body, member, bj in bodies:
                for st, r in w.every(RESPONSE + "::" + ctor, idv, body):
                    for v, t, label in both(r, RESPONSE, rkinds[0]):
                        outs = w.encode(st, v, t)
                        key = "%s:%s:%s:%s" % (w.f, label, ctor, idj[0])
                        rep.check(bool(outs), "a response can be written", key + ":some", "no outcome", where)
                        for s, k, x in outs:
                            d = members(e.payload(x, 0)) if k == "ret" and e.variant(s, x) == 0 else None
                            if not rep.check(d is not None, "a response is written as an object", key + ":object", "it is written as %s" % show(x), where):
                                continue
                            rep.check(d.get("jsonrpc") == V2, "the version is 2.0", key + ":version", "the version is %s" % show(d.get("jsonrpc")), where)
                            rep.check(d.get("id") == idj, "a response has its id", key + ":id", "the id is written as %s" % show(d.get("id")), where)
                            rep.check(set(d) == {"jsonrpc", "id", member}, "exactly one of result and error", key + ":body", "members %s" % sorted(d), where)
                            got = d.get(member, ("",))
                            if member == "result":
                                rep.check(got == bj, "the result is written whole", key + ":result", "the result is written as %s" % show(got), where)
                            else:
                                g = members(got) or {}
                                rep.check(g.get("code") == ("jnum", ("sym", "code")), "the error has its code", key + ":code", "code %s" % show(g.get("code")), where)
                                rep.check(g.get("message", ("",))[0] == "jstr" and text(e, s, g["message"][1]) == ("sym", "message"), "the error has its message",
                                          key + ":message", "message %s" % show(g.get("message")), where)
                                rep.check(g.get("data") == bj, "data is written if there is any", key + ":data:%s" % (bj is not None), "data %s" % show(g.get("data")), where)
                                rep.check(set(g) <= {"code", "message", "data"}, "no other members of errors", key + ":error-extra", "members %s" % sorted(g), where)
        # An unknown id is null.
        outs = w.trait("core::default::Default", "default", (ty(ID),), ())
        for st, k, x in outs:
            rep.check(k == "ret" and e.variant(st, x) == w.ids["Null"], "the id is null by default", w.f + ":default", "Id::default() is %s" % show(x), "src/jsonrpc.rs")
        # Messages of another version.
        for other in (("jstr", ("sym", "version")), ("jnum", ("sym", "x")), NULL, ("jobj", ()), ("jbool", ("sym", "x")), None):
            for body in ((("method", ("jstr", ("sym", "m"))), ("id", ("jnum", ("sym", "n")))), (("id", ("jnum", ("sym", "n"))), ("result", ("jany", ("sym", "r")))),
                         (("id", ("jnum", ("sym", "n"))), ("error", ("jobj", (("code", ("jnum", ("sym", "c"))), ("message", ("jstr", ("sym", "m"))))))),
                         (("method", ("jstr", ("sym", "m"))),)):
                sh = ("jobj", ((("jsonrpc", other),) if other else ()) + body)
                key = "%s:refused:%s:%s" % (w.f, other[0] if other else "missing", body[-1][0])
                outs = w.decode(sh, ty(MESSAGE))
                rep.check(bool(outs), "the version is looked at", key + ":some", "no outcome", "src/jsonrpc.rs")
                for st, k, x in outs:
                    if k == "ret" and e.variant(st, x) == 1:
                        rep.check(True, "a message of another version is refused", key, "", "src/jsonrpc.rs")
                        continue
                    good = k == "ret" and other and other[0] == "jstr" and is_v2(e, st, other[1])
                    rep.check(good, "a message of another version is refused", key, "JSON with the version %s is accepted as %s" % (show(other), show(x)[:120]),
                              w.span(J + "Version"))
        rep.floor(w.n, 40, "values and shapes analysed")
    for_each(ctx, run)


def is_v2(e, st, t):
    """Does the path know that the text is 2.0?"""
    for a, b in st.facts.items():
        if a[0] == "c" and a[1] == "Eq" and b is True and {bare(a[2]), bare(a[3])} == {t, ("str", "2.0")}:
            return True
    return False


def bare(t):
    while t[0] in ("&", "deref"):
        t = t[1]
    return t


# ------------------------------------------------------------------------------------------ P31

MEMBERS = {"jsonrpc", "method", "id", "params", "result", "error", "code", "message", "data"}


def others(F):
    """The names, other than those of JSON-RPC's members, that the decoding of messages mentions."""
    out = set()

    def walk(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] == "str" and isinstance(x[1], str):
                if re.fullmatch(r"[A-Za-z_$][\w$/.-]*", x[1]):
                    out.add(x[1])
                return
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)

    for b in F.bodies.values():
        if b.local and "tower_lsp::jsonrpc::" in b.path and b.path.endswith(("visit_str", "visit_bytes", "visit_borrowed_str", "visit_string", "visit_map")):
            for bl in b.blocks:
                t = bl["t"]
                if t["k"] == "call" and t["func"][0] == "const" and "::eq" in t["func"][1].get("fn", {}).get("path", ""):
                    walk(t["args"])
    return sorted(out - MEMBERS)


@prop("P31", technique=TECH + "; for every combination and order of members, the message that comes out is compared with the members that went in",
      assumptions=ASSUME)
def p31(ctx):
    def run(w):
        e, rep, F = w.e, w.rep, w.F
        m, i, p = w.sys.accessor(REQUEST, "method"), w.sys.accessor(REQUEST, "id"), w.sys.accessor(REQUEST, "params")
        kinds = [k for k, v in enumerate(F.adts[MESSAGE]["variants"]) if len(v["fields"]) == 1 and v["fields"][0][1] == ty(REQUEST)]
        rkinds = [k for k, v in enumerate(F.adts[MESSAGE]["variants"]) if len(v["fields"]) == 1 and v["fields"][0][1] == ty(RESPONSE)]
        need(len(kinds) == 1 and len(rkinds) == 1, "the variants of Message")
        names = [x[0] for x in F.adts[ERR]["variants"][0]["fields"]]
        where = "src/jsonrpc.rs (Message)"
        n, s = ("sym", "n"), ("sym", "s")
        idc = [("number", ("jnum", n), w.id("Number", n)), ("string", ("jstr", s), w.id("String", s)), ("null", NULL, w.id("Null", None))]
        method = ("jstr", ("sym", "method"))
        extra = ("jany", ("sym", "extra"))

        def orders(ms):
            if ctx.tier == "thorough":
                return itertools.permutations(ms)
            k = len(ms)
            return {tuple(ms[j:] + ms[:j]) for j in range(k)} | {tuple(reversed(ms[j:] + ms[:j])) for j in range(k)}

        def same_id(st, v, want):
            return v is not None and e.variant(st, v) == want[2] and (not want[3] or text(e, st, e.payload(v, want[2])) == want[3][0])

        def message(sh, what, key, kind):
            """The accepted outcomes for the shape; every outcome must be accepted."""
            outs = w.decode(sh, ty(MESSAGE))
            rep.check(bool(outs), "has an outcome", key + ":some", "no outcome", where)
            for st, k, x in outs:
                good = k == "ret" and e.variant(st, x) == 0 and e.variant(st, e.payload(x, 0)) == kind
                if rep.check(good, "%s is recognised" % what, key, "%s is taken for %s" % (show(sh)[:200], show(x)[:160]), where):
                    yield st, e.payload(e.payload(x, 0), kind)

        # Requests and notifications.
        for iname, ij, iv in idc + [("absent", None, None)]:
            for pname, pj in (("absent", None), ("null", NULL), ("present", ("jany", ("sym", "params")))):
                for ex in (False, True):
                    ms = [("jsonrpc", V2), ("method", method)]
                    ms += [("id", ij)] if ij else []
                    ms += [("params", pj)] if pj else []
                    ms += [("extra", extra)] if ex else []
                    for o in orders(ms):
                        key = "%s:request:%s:%s:%s" % (w.f, iname, pname, ex)
                        for st, r in message(("jobj", tuple(o)), "a request", key, kinds[0]):
                            rep.check(text(e, st, proj(r, ("f", m))) == method[1], "the method is kept", key + ":method", "the method becomes %s" % show(proj(r, ("f", m))), where)
                            got = proj(r, ("f", i))
                            d = e.variant(st, got)
                            if iv is None:
                                rep.check(d == 0, "no id makes a notification", key + ":id", "the id becomes %s" % show(got), where)
                            else:
                                rep.check(d == 1 and same_id(st, e.payload(got, 1), iv), "the id is kept, null too", key + ":id", "the id becomes %s" % show(got), where)
                            got = proj(r, ("f", p))
                            d = e.variant(st, got)
                            if pj is None:
                                good = d == 0
                            elif pj == NULL:
                                good = d == 0 or d == 1 and e.payload(got, 1) == ("jval", NULL)
                            else:
                                good = d == 1 and e.payload(got, 1) == pj[1]
                            rep.check(good, "params are kept", key + ":params", "params become %s" % show(got), where)
        # Members of other names are no members of the message, whatever names the program knows.
        for name in others(F):
            for jn, j in (("string", ("jstr", ("sym", "other"))), ("number", ("jnum", ("sym", "other"))), ("object", ("jobj", (("x", extra),)))):
                for ij in (None, idc[0][1]):
                    for o in orders([("jsonrpc", V2), ("method", method)] + ([("id", ij)] if ij else []) + [(name, j)]):
                        key = "%s:other:%s:%s" % (w.f, name, jn)
                        for st, r in message(("jobj", tuple(o)), "a request", key, kinds[0]):
                            good = text(e, st, proj(r, ("f", m))) == method[1] and e.variant(st, proj(r, ("f", i))) == (0 if ij is None else 1) \
                                and e.variant(st, proj(r, ("f", p))) == 0 and (ij is None or same_id(st, e.payload(proj(r, ("f", i)), 1), idc[0][2]))
                            rep.check(good, "other members change nothing", key, "a member `%s` becomes part of the message: %s" % (name, show(r)[:160]), where)
                for o in orders([("jsonrpc", V2), ("id", idc[0][1]), ("result", ("jany", ("sym", "result"))), (name, j)]):
                    key = "%s:other-response:%s:%s" % (w.f, name, jn)
                    for st, r in message(("jobj", tuple(o)), "a response", key, rkinds[0]):
                        o_ = w.sys.response(st, r)
                        rep.check(o_[0] == "ok" and same_id(st, o_[1], idc[0][2]) and o_[2] == ("sym", "result"), "other members change nothing", key,
                                  "a member `%s` becomes part of the message: %s" % (name, o_), where)
        # Responses.
        code, msg, data, result = ("sym", "code"), ("sym", "message"), ("sym", "data"), ("sym", "result")
        err_ = lambda d: ("jobj", (("code", ("jnum", code)), ("message", ("jstr", msg))) + ((("data", d),) if d else ()))
        swap = lambda j: ("jobj", tuple(reversed(j[1])))
        bodies = [("result", "value", ("jany", result)), ("result", "null", NULL), ("error", "plain", err_(None)), ("error", "data", err_(("jany", data))),
                  ("error", "reversed", swap(err_(("jany", data)))), ("error", "object-data", err_(("jobj", (("x", ("jany", data)),))))]
        for iname, ij, iv in idc:
            for member, bname, bj in bodies:
                for ex in (False, True):
                    ms = [("jsonrpc", V2), ("id", ij), (member, bj)] + ([("extra", extra)] if ex else [])
                    for o in orders(ms):
                        key = "%s:response:%s:%s:%s" % (w.f, iname, bname, ex)
                        for st, r in message(("jobj", tuple(o)), "a response", key, rkinds[0]):
                            o_ = w.sys.response(st, r)
                            if member == "result":
                                rep.check(o_[0] == "ok" and same_id(st, o_[1], iv), "the response is kept", key + ":ok", "it becomes %s" % (o_,), where)
                                if o_[0] == "ok":
                                    rep.check(o_[2] == (result if bname == "value" else ("jval", NULL)), "the result is kept", key + ":result",
                                              "the result becomes %s" % show(o_[2]), where)
                                continue
                            if not rep.check(o_[0] == "error" and same_id(st, o_[1], iv), "the response is kept", key + ":err", "it becomes %s" % (o_,), where):
                                continue
                            c = o_[2]
                            c = ("int", c) if isinstance(c, int) else c
                            good = c == e.ev(st, code) or c[0] == "adt" and w.holds_code(st, c, e.ev(st, code))
                            rep.check(good, "the code is kept", key + ":code", "the code becomes %s" % show(c), where)
                            d = e.variant(st, o_[3])
                            if bname == "plain":
                                good = d == 0
                            elif bname == "object-data":
                                good = d == 1 and e.payload(o_[3], 1) == ("jval", bj[1][2][1])
                            else:
                                good = d == 1 and e.payload(o_[3], 1) == data
                            rep.check(good, "data is kept", key + ":data", "data becomes %s" % show(o_[3]), where)
                            s1 = st.fork()
                            for s2, eo in w.every(RESPONSE + "::error", e.alloc(s1, r)[:3] + (False,), st=s1):
                                er = e.deref(s2, e.payload(eo, 1))
                                rep.check(text(e, s2, proj(er, ("f", names.index("message")))) == msg, "the message is kept", key + ":message",
                                          "the message becomes %s" % show(er), where)
        # What is neither is refused, and an id of another kind never becomes an id or none.
        bad = [("id of kind " + k, [("jsonrpc", V2), ("method", method), ("id", j)]) for k, j in
               (("bool", ("jbool", n)), ("fraction", ("jfloat", n)), ("object", ("jobj", (("x", extra),))), ("array", ("jarr", ())))]
        bad += [("response id of kind " + k, [("jsonrpc", V2), ("result", ("jany", result)), ("id", j)]) for k, j in
                (("bool", ("jbool", n)), ("fraction", ("jfloat", n)), ("object", ("jobj", (("x", extra),))), ("array", ("jarr", ())))]
        bad += [("method of kind " + k, [("jsonrpc", V2), ("method", j), ("id", ("jnum", n))]) for k, j in
                (("number", ("jnum", n)), ("null", NULL), ("object", ("jobj", ())), ("bool", ("jbool", n)))]
        for what, ms in bad:
            for o in orders(ms):
                key = "%s:refused:%s" % (w.f, what)
                outs = w.decode(("jobj", tuple(o)), ty(MESSAGE))
                rep.check(bool(outs) and all(k == "ret" and e.variant(st, x) == 1 for st, k, x in outs), "a message with %s is refused" % what.split(" of ")[0] + " of another kind",
                          key, "it becomes %s" % [show(x)[:120] for _, _, x in outs], where)
        for what, sh in (("null", NULL), ("bool", ("jbool", n)), ("number", ("jnum", n)), ("string", ("jstr", s))):
            outs = w.decode(sh, ty(MESSAGE))
            rep.check(bool(outs) and all(k == "ret" and e.variant(st, x) == 1 for st, k, x in outs), "what is no object is refused", "%s:refused:%s" % (w.f, what),
                      "it becomes %s" % [show(x)[:120] for _, _, x in outs], where)
        rep.floor(w.n, 300, "shapes of messages analysed")
    for_each(ctx, run)
