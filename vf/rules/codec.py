"""Rules about the framing of messages.

The content of the buffers is tracked symbolically (`vf/buffers.py`) along every path of the encoder
and the decoder, for any item, any content of the buffer and any state of the decoder.
"""
from ..buffers import BYTES, EMPTY, last, length, peel
from ..engine import *
from ..models import strip
from ..system import Missing, need
from . import prop

TECH = ("path-partitioned dataflow over MIR of every Encoder/Decoder impl, with a buffer-content domain: each path's final "
        "buffer is a term over the initial one (bytes removed from the front, pieces appended), compared with the framing rule")
ASSUME = ["bytes::BytesMut, httparse, memchr, serde_json and str/slice functions behave as documented",
          "lengths of data in memory do not overflow usize"]


def impls(F, trait):
    out = []
    for t, l in F.impls_by_trait.items():
        if t.endswith("::" + trait):
            out += [i for i in l if i["self"][0] == "adt" and i["self"][1].startswith("tower_lsp::")]
    return out


def body_of(F, i, name):
    return need(F.bodies.get(i["items"][name]["key"]), name)


def base_of(t):
    """The content that a buffer started with, and the amounts removed from its front, in order."""
    ns = []
    while t[0] == "adv":
        ns.append(t[2])
        t = t[1]
    return t, [x for n in reversed(ns) for x in flat(n) if x != ("int", 0)]


def flat(n):
    return flat(n[2]) + flat(n[3]) if n[0] == "bin" and n[1] == "Add" else [n]


# -------------------------------------------------------------------------------------------- P01

@prop("P01", technique=TECH, assumptions=ASSUME)
def p01(ctx):
    rep = ctx.rep
    for f in ctx.features:
        F, sys = ctx.F[f], ctx.sys[f]
        encs = impls(F, "Encoder")
        rep.floor(len(encs), 1, "encoders (%s)" % f)
        for i in encs:
            b = body_of(F, i, "encode")
            e = sys.engine(extra=BYTES)
            outs = e.entry(b, names=[None, "item", "dst"])
            rep.absorb(e)
            rep.paths += len(outs)
            good = 0
            for s, k, v in outs:
                if k != "ret":
                    continue
                where = b.span + " " + b.path
                x = peel(e, s, e.read(s, ("D", ("sym", "dst")), ()))
                d = e.variant(s, v)
                if d == 1:
                    rep.check(x == ("sym", "dst"), "a message that cannot be encoded leaves the output as it was", "clean:%s" % f,
                              "an error is returned after something was written: %s" % show(x), where)
                    rep.check(serialization_failed(s), "encoding fails only if the item cannot be serialized", "fails:%s" % f,
                              "an error is returned although the item was serialized", where)
                    continue
                good += 1
                rep.check(d == 0, "the outcome is known", "outcome:%s" % f, "unclear outcome %s" % show(v), where)
                msg = framed(e, s, x)
                rep.check(msg is None, "one header announces the length of the body, the empty line and the body follow, appended to the unwritten output",
                          "frame:%s" % f, msg or "", where)
            rep.floor(good, 1, "ways to encode a message (%s)" % f)


def serialized(t):
    """Is the text the JSON of the whole item?"""
    if t[0] == "fld" and t[2] == 0 and t[1][0] == "as" and t[1][2] == 0:
        c = t[1][1]
        if c[0] == "call" and strip(c[1]) in ("serde_json::ser::to_string", "serde_json::ser::to_vec", "serde_json::ser::to_string_pretty", "serde_json::ser::to_vec_pretty"):
            a = c[2][0]
            while a[0] in ("&", "deref"):
                a = a[1]
            return a == ("sym", "item")
    return False


def serialization_failed(s):
    for k, v in s.facts.items():
        if k[0] == "=" and v == 1 and k[1][0] == "discr" and k[1][1][0] == "call" and strip(k[1][1][1]).startswith("serde_json::ser::to_"):
            return True
    return False


def framed(e, s, x):
    if x[0] != "cat" or x[1] != ("sym", "dst"):
        return "the output is not the unwritten output with something appended: %s" % show(x)[:300]
    ps = x[2]
    if len(ps) != 4 or ps[0][0] != "lit" or ps[2][0] != "lit":
        return "what is appended is not header, length, empty line and body: %s" % (tuple(show(p)[:80] for p in ps),)
    if ps[0][1] != b"Content-Length: " or ps[2][1] != b"\r\n\r\n":
        return "the header is %r … %r" % (ps[0][1], ps[2][1])
    if ps[3][0] not in ("txt", "show"):
        return "the body is %s" % show(ps[3])[:200]
    body = peel(e, s, ps[3][1])
    if not serialized(body):
        return "the body is not the JSON of the item: %s" % show(body)[:200]
    n = ps[1]
    if n[0] != "show":
        return "the announced length is %s" % show(n)[:200]
    if e.ev(s, n[1]) != e.ev(s, length(e, s, body)):
        return "the announced length is not the number of bytes of the body: %s" % show(n[1])[:200]
    return None


# --------------------------------------------------------------------------------------- decoders

SRC = ("sym", "src")


class Decode:
    """The paths of a decoder."""

    def __init__(self, ctx, f):
        self.F, self.sys, self.f = ctx.F[f], ctx.sys[f], f
        self.rep = ctx.rep
        ds = impls(self.F, "Decoder")
        ctx.rep.floor(len(ds), 1, "decoders (%s)" % f)
        self.inner, self.outer = None, []
        keys = {body_of(self.F, i, "decode").key: i for i in ds}
        for k, i in keys.items():
            b = self.F.bodies[k]
            if any(o in keys and o != k for o in callees(self.F, b)):
                self.outer.append((i, b))
            elif self.inner is None:
                self.inner = (i, b)
            else:
                raise Missing("the one decoder that parses headers")
        need(self.inner, "a decoder that parses headers")
        i, b = self.inner
        adt = need(self.F.adts.get(i["self"][1]), i["self"][1])
        fs = [n for n, x in enumerate(adt["variants"][0]["fields"])
              if x[1][0] == "adt" and x[1][1] == OPTION and x[1][2] and x[1][2][0] == ("int", "usize")]
        if len(fs) != 1:
            raise Missing("the announced length in the state of the decoder")
        self.field = fs[0]
        self.e = self.sys.engine(extra=BYTES)
        self.outs = self.e.entry(b, names=["self", "src"])
        self.body = b
        ctx.rep.absorb(self.e)
        ctx.rep.paths += len(self.outs)
        self.s0 = ("fld", ("deref", ("sym", "self")), self.field)
        self.loops = [(s, v) for s, k, v in self.outs if k == "loop"]

    def results(self):
        """(state, what, value, amounts, stage, final announced length) of each path that returns."""
        e = self.e
        for s, k, v in self.outs:
            if k != "ret":
                continue
            base, ns = base_of(peel(e, s, e.read(s, ("D", SRC), ())))
            fin = e.read(s, ("D", ("sym", "self")), (("f", self.field),))
            d = e.variant(s, v)
            what, x = "unclear", v
            if d == 1:
                what, x = "err", e.payload(v, 1)
            elif d == 0:
                o = e.payload(v, 0)
                d2 = e.variant(s, o)
                what = {0: "none", 1: "some"}.get(d2, "unclear")
                x = e.payload(o, 1) if d2 == 1 else o
                if what == "some" and x[0] == "adt" and x[1] == RESULT:
                    what, x = ("some", x[3][0]) if x[2] == 0 else ("err", x[3][0])
            st = {0: "header", 1: "body"}.get(e.variant(s, self.s0), "?")
            yield s, what, x, base, ns, st, fin

    # Terms.

    def headers(self, t):
        """Is `t` what parse_headers gave for the whole input?"""
        return (t[0] == "fld" and t[2] == 0 and t[1][0] == "as" and t[1][2] == 0 and t[1][1][0] == "fld" and t[1][1][1][0] == "as"
                and self.parse(t[1][1][1][1]))

    def parse(self, c):
        return c[0] == "call" and strip(c[1]) == "httparse::parse_headers" and self.plain(c[2][0]) == SRC

    def plain(self, t):
        while t[0] in ("&", "deref"):
            t = t[1]
        return t

    def is_h(self, t):
        return t[0] == "fld" and t[2] == 0 and self.headers(t[1])

    def is_n(self, s, t, stage):
        """Is `t` the announced length of the message at hand? None, or what is wrong."""
        if stage == "body":
            return None if t == ("fld", ("as", self.s0, 1), 0) else "%s is not the announced length" % show(t)[:200]
        if t[0] == "fld" and t[2] == 0 and t[1][0] == "as" and t[1][2] == 1 and t[1][1][0] == "havoc":
            return self.from_loop(t[1][1])
        return self.from_value(s, t)

    def from_value(self, s, t):
        """Is `t` parsed from the value of a Content-Length header?"""
        if not (t[0] == "fld" and t[2] == 0 and t[1][0] == "as" and t[1][2] == 0 and t[1][1][0] == "call" and last(t[1][1][1]) in ("parse", "from_str")):
            return "%s is not parsed from a header" % show(t)[:200]
        v = peel(self.e, s, t[1][1][2][0])
        if v[0] != "fld":
            return "%s is not the value of a header" % show(v)[:200]
        h = self.F.adts.get("httparse::Header")
        names = [x[0] for x in need(h, "httparse::Header")["variants"][0]["fields"]]
        if v[2] != names.index("value"):
            return "%s is not the value of a header" % show(v)[:200]
        name = ("fld", v[1], names.index("name"))
        return None if self.named(s, name) else "the length is parsed from a header that is not known to be Content-Length"

    def named(self, s, name):
        name = peel(self.e, s, name)
        for k, x in s.facts.items():
            if x != 1 or k[0] != "=":
                continue
            t = k[1]
            if t[0] == "bin" and t[1] == "Eq":
                ab = t[2:]
            elif t[0] == "call" and last(t[1]) in ("eq", "eq_ignore_ascii_case"):
                ab = t[2]
            else:
                continue
            a, b = peel(self.e, s, ab[0]), peel(self.e, s, ab[1])
            if (a, b) in ((name, ("str", "Content-Length")), (("str", "Content-Length"), name)):
                return True
        return False

    def from_loop(self, h):
        """Does the loop over the headers leave the value of Content-Length in the variable?"""
        fid, head, root = h[1][:3]
        init = self.e.inits.get(h[1])
        if init is None or self.e.variant(State(), init) != 0:
            return "the announced length is set before a header was read"
        seen = False
        for s, which in self.loops:
            if which != (fid[1], head) or root not in s.store:
                continue
            v = s.store[root]
            for p in h[1][3:]:
                v = proj(v, ("f", p))
            if v == h:
                continue
            if self.e.variant(s, v) != 1:
                return "the announced length can become %s" % show(v)[:100]
            bad = self.from_value(s, self.e.payload(v, 1))
            if bad:
                return bad
            seen = True
        return None if seen else "the announced length is never set"

    def at_least(self, s, buf, n):
        """Is the length of the content known to be at least `n`?"""
        e = self.e
        if n == ("int", 0):
            return True
        base, ns = base_of(buf)
        forms = []
        for i in range(len(ns) + 1):
            # len(base minus ns[:i]) >= ns[i:] + n, in either arrangement.
            b = base
            for x in ns[:i]:
                b = ("adv", b, x)
            need_ = n
            for x in ns[i:]:
                need_ = ("bin", "Add", x, need_)
            forms.append((length(e, s, b), need_))
            m = n
            for x in ns[i:]:
                m = ("bin", "Add", m, x)
            forms.append((length(e, s, b), m))
            l = length(e, s, b)
            for x in ns[i:]:
                l = ("bin", "Sub", l, x)
            forms.append((l, n))
        for a, b in forms:
            if e.truth(s, ("bin", "Ge", a, b)):
                return True
        for k, v in s.facts.items():
            if k[0] == "=" and v == 1 and k[1][0] == "discr" and k[1][1][0] == "call" and last(k[1][1][1]) in ("get", "split_at_checked", "split_first_chunk"):
                c = k[1][1]
                if peel(e, s, ("fld", ("as", c, 1), 0)) == ("pre", buf, n):
                    return True
        return False

    def shorter(self, s, buf, n):
        e = self.e
        base, ns = base_of(buf)
        forms = [(length(e, s, buf), n)]
        m, l = n, length(e, s, base)
        for x in ns:
            forms.append((length(e, s, base), ("bin", "Add", x, m)))
            forms.append((length(e, s, base), ("bin", "Add", m, x)))
            l = ("bin", "Sub", l, x)
        forms.append((l, n))
        if any(e.truth(s, ("bin", "Lt", a, b)) for a, b in forms):
            return True
        for k, v in s.facts.items():
            if k[0] == "=" and v == 0 and k[1][0] == "discr" and k[1][1][0] == "call" and last(k[1][1][1]) in ("get", "split_at_checked"):
                if peel(e, s, ("fld", ("as", k[1][1], 1), 0)) == ("pre", buf, n):
                    return True
        return False

    def empty_text(self, s, buf, n):
        e = self.e
        if e.ev(s, n) == ("int", 0):
            return True
        for k, x in s.facts.items():
            if k[0] == "=" and x == 1 and k[1][0] in ("bin", "call"):
                t = k[1]
                ab = t[2:] if t[0] == "bin" and t[1] == "Eq" else t[2] if t[0] == "call" and last(t[1]) in ("eq", "is_empty") else ()
                xs = [peel(e, s, y) for y in ab]
                if ("pre", buf, n) in xs and (len(xs) == 1 or ("str", "") in xs or ("bytes", ()) in xs):
                    return True
                if len(xs) == 2 and ("int", 0) in xs and n in xs:
                    return True
        return False

    def decoded(self, s, x, buf, n):
        """Is `x` the JSON value of exactly the first `n` bytes of the content?"""
        if not (x[0] == "fld" and x[2] == 0 and x[1][0] == "as" and x[1][2] == 0 and x[1][1][0] == "call"):
            return False
        c = x[1][1]
        return strip(c[1]) in ("serde_json::de::from_str", "serde_json::de::from_slice") and peel(self.e, s, c[2][0]) == ("pre", buf, n)

    def rejected(self, s, buf, n):
        """Is the body known to be no JSON of a message?"""
        for k, v in s.facts.items():
            if k[0] == "=" and v == 1 and k[1][0] == "discr" and k[1][1][0] == "call":
                c = k[1][1]
                if (strip(c[1]).startswith("serde_json::de::from_") or last(c[1]) == "from_utf8") and peel(self.e, s, c[2][0]) == ("pre", buf, n):
                    return True
        return False


def callees(F, b, seen=None):
    """The local functions that a body calls, directly or not."""
    seen = seen if seen is not None else set()
    for bl in b.blocks:
        t = bl["t"]
        if t["k"] != "call" or t["func"][0] != "const" or "fn" not in t["func"][1]:
            continue
        f = t["func"][1]["fn"]
        r = f.get("res")
        k = r["key"] if r else f["key"]
        if k in F.bodies and k not in seen and F.bodies[k].local:
            seen.add(k)
            callees(F, F.bodies[k], seen)
    return seen


def after(buf, ns):
    for n in ns:
        buf = ("adv", buf, n)
    return buf


# -------------------------------------------------------------------------------------------- P02

@prop("P02", technique=TECH, assumptions=ASSUME)
def p02(ctx):
    rep = ctx.rep
    for f in ctx.features:
        d = Decode(ctx, f)
        e, where = d.e, d.body.span + " " + d.body.path
        some = waits = 0
        for s, what, x, base, ns, stage, fin in d.results():
            C = lambda cond, rule, key, msg: rep.check(cond, rule, "%s:%s" % (key, f), msg, where)
            C(base == SRC, "the input is only shortened from its front", "base", "the input becomes %s" % show(base)[:200])
            if what == "unclear":
                C(False, "the outcome is known", "outcome", "unclear outcome %s" % show(x)[:200])
                continue
            head = ns[:1] if ns and d.is_h(ns[0]) else []
            rest = ns[len(head):]
            buf = after(SRC, head)
            if stage == "body":
                C(not head, "headers are read only between messages", "head", "a header is skipped inside a message")
            if what == "some":
                some += 1
                C(stage == "body" or head and stage == "header", "a message follows its header", "stage", "a message is delivered without its header (%s)" % stage)
                C(len(rest) == 1, "exactly the bytes of the message are removed", "exact", "removed: %s" % [show(n)[:80] for n in ns])
                if len(rest) != 1:
                    continue
                n = rest[0]
                bad = d.is_n(s, n, stage)
                C(bad is None, "the announced length comes from the Content-Length header of the message", "length", bad)
                C(d.at_least(s, buf, n), "a message is delivered only when all its bytes are there", "complete", "not known that the input holds %s bytes" % show(n)[:100])
                C(d.decoded(s, x, buf, n), "the message is decoded from exactly its own bytes", "own-bytes", "delivered: %s" % show(x)[:200])
                C(e.variant(s, fin) == 0, "after a message the decoder expects a header", "reset", "the announced length stays %s" % show(fin)[:100])
            elif what == "none" and not rest:
                if stage == "body":
                    waits += 1
                    n = ("fld", ("as", d.s0, 1), 0)
                    C(d.shorter(s, SRC, n), "the decoder waits only for bytes that are missing", "wait", "it waits although the message may be there")
                    C(same(e, s, fin, d.s0, n), "waiting keeps the announced length", "keep", "the announced length becomes %s" % show(fin)[:100])
                elif head:
                    waits += 1
                    n = e.payload(fin, 1) if e.variant(s, fin) == 1 else None
                    C(n is not None, "waiting keeps the announced length", "keep", "the announced length becomes %s" % show(fin)[:100])
                    if n is not None:
                        bad = d.is_n(s, n, stage)
                        C(bad is None, "the announced length comes from the Content-Length header of the message", "length", bad)
                        C(d.shorter(s, buf, n) or d.empty_text(s, buf, n), "the decoder waits only for bytes that are missing", "wait", "it waits although the message may be there")
                else:
                    waits += 1
                    C(incomplete(d, s) or e.truth(s, ("bin", "Eq", length(e, s, SRC), ("int", 0))), "the decoder waits only for bytes that are missing", "wait",
                      "it waits although the header may be there")
                    C(stage == "?" and fin == d.s0 or e.variant(s, fin) == 0 and fin[0] != "bad", "waiting keeps the announced length", "keep",
                      "the announced length becomes %s" % show(fin)[:100])
            elif what == "none":
                C(len(rest) == 1 and d.is_n(s, rest[0], stage) is None, "exactly the bytes of the message are removed", "exact", "removed: %s" % [show(n)[:80] for n in ns])
                if len(rest) == 1:
                    C(d.empty_text(s, buf, rest[0]), "only an empty message is skipped", "skip", "a message of %s bytes is dropped" % show(rest[0])[:100])
                    C(d.at_least(s, buf, rest[0]), "a message is delivered only when all its bytes are there", "complete", "more bytes are removed than there may be")
                C(e.variant(s, fin) == 0, "after a message the decoder expects a header", "reset", "the announced length stays %s" % show(fin)[:100])
            elif stage == "body" or (head and len(rest) == 1 and d.is_n(s, rest[0], stage) is None):
                C(len(rest) == 1 and d.is_n(s, rest[0], stage) is None, "exactly the bytes of the message are removed", "exact", "removed with an error: %s" % [show(n)[:80] for n in ns])
                if len(rest) == 1:
                    C(d.at_least(s, buf, rest[0]), "a message is delivered only when all its bytes are there", "complete", "more bytes are removed than there may be")
                    C(d.rejected(s, buf, rest[0]), "a complete message is rejected only if it cannot be decoded", "reject", "a message is rejected that may be well-formed")
                C(e.variant(s, fin) == 0, "after a message the decoder expects a header", "reset", "the announced length stays %s" % show(fin)[:100])
            else:
                C(bad_header(d, s, x), "a header is rejected only if it is malformed", "header", "a header is rejected that may be well-formed: %s" % show(x)[:100])
        rep.floor(some, 1, "ways to deliver a message (%s)" % f)
        rep.floor(waits, 2, "ways to wait for more (%s)" % f)
        wrapper(ctx, d, rep, f)


def behind_rejected(ctx, rep, f):
    """After a rejected message, the decoder goes on with what is behind that message."""
    d = Decode(ctx, f)
    where, seen = d.body.span + " " + d.body.path, 0
    for s, what, x, base, ns, stage, fin in d.results():
        if what in ("some", "none", "unclear"):
            continue
        head = ns[:1] if ns and d.is_h(ns[0]) else []
        rest = ns[len(head):]
        if stage == "body" or head and len(rest) == 1 and d.is_n(s, rest[0], stage) is None:
            seen += 1
            rep.check(len(rest) == 1 and d.is_n(s, rest[0], stage) is None, "the whole malformed message is removed, and nothing else", "removed:" + f,
                      "removed with an error: %s" % [show(n)[:80] for n in ns], where)
        rep.check(d.e.variant(s, fin) == 0, "after a malformed message the decoder expects a header", "reset:" + f,
                  "the announced length stays %s" % show(fin)[:100], where)
    rep.floor(seen, 1, "bodies that are rejected (%s)" % f)


def same(e, s, fin, s0, n):
    return fin == s0 or e.variant(s, fin) == 1 and e.payload(fin, 1) == n


def incomplete(d, s):
    """Did parse_headers find the header incomplete?"""
    for k, v in s.facts.items():
        if k[0] == "=" and v == 1 and k[1][0] == "discr":
            t = k[1][1]
            if t[0] == "fld" and t[2] == 0 and t[1][0] == "as" and t[1][2] == 0 and d.parse(t[1][1]):
                return True
    return False


def bad_header(d, s, x):
    """Is there a reason on the path to reject the header?"""
    for k, v in s.facts.items():
        if k[0] != "=":
            continue
        t = k[1]
        if v == 1 and t[0] == "discr" and t[1][0] == "call" and (d.parse(t[1]) or last(t[1][1]) in ("from_utf8", "parse", "from_str")):
            return True
        if v == 0 and t[0] == "discr" and (t[1][0] == "havoc" and d.from_loop(t[1]) is None):
            return True
    # Other headers: the name must have been tested.
    for k, v in s.facts.items():
        if k[0] == "=" and v == 1 and k[1][0] in ("bin", "call"):
            ab = k[1][2:] if k[1][0] == "bin" else k[1][2]
            if any(y[0] == "str" and y[1].lower() == "content-type" for y in (peel(d.e, s, z) for z in ab if isinstance(z, tuple))):
                return True
    return any(z.kind == "none" for z in s.trace())


def wrapper(ctx, d, rep, f):
    """Decoders built on top of another one: they wait only if that one waits."""
    for i, b in d.outer:
        e = ctx.sys[f].engine(extra=BYTES, opaque={d.body.key})
        outs = e.entry(b, names=["self", "src"])
        rep.absorb(e)
        rep.paths += len(outs)
        where = b.span + " " + b.path
        for s, k, v in outs:
            calls = [x for x in s.trace() if x.kind == "call" and last(x.name) == "decode"]
            if k == "loop":
                continue
            if k != "ret":
                continue
            rep.check(bool(calls), "a wrapping decoder asks the wrapped one", "asks:%s" % f, "no call of the wrapped decoder", where)
            if not calls:
                continue
            r = calls[-1].ret
            got = e.variant(s, r)
            o = e.payload(r, 0)
            dv, do = e.variant(s, v), None
            if dv == 0:
                do = e.variant(s, e.payload(v, 0))
            rep.check(dv == 0, "undecodable messages are passed on as items, for an error ends the stream", "pass:%s" % f, "returns %s" % show(v)[:200], where)
            if dv != 0:
                continue
            if do == 0:
                before = length(e, s, calls[-1].vals[1]) if len(calls[-1].vals) > 1 else None
                now = length(e, s, e.read(s, ("D", SRC), ()))
                settled = before is not None and (e.truth(s, ("bin", "Ge", now, before)) or e.truth(s, ("bin", "Eq", now, before)))
                rep.check(got == 0 and e.variant(s, o) == 0, "the wrapping decoder waits only if the wrapped one does", "waits:%s" % f, "waits on %s" % show(r)[:100], where)
                rep.check(settled, "the wrapping decoder waits only if nothing was consumed", "behind:%s" % f,
                          "it waits although a message may be behind an empty one", where)
            elif do == 1:
                y = e.payload(e.payload(v, 0), 1)
                y = y if y[0] == "adt" else None
                rep.check(y is not None and (y[2] == 0 and got == 0 and y[3][0] == e.payload(o, 1) or y[2] == 1 and got == 1 and y[3][0] == e.payload(r, 1)),
                          "the wrapping decoder passes on what the wrapped one gives", "same:%s" % f, "returns %s for %s" % (show(v)[:200], show(r)[:80]), where)
            else:
                rep.check(False, "the outcome is known", "outcome:%s" % f, "returns %s" % show(v)[:200], where)


# -------------------------------------------------------------------------------------------- P03

@prop("P03", technique=TECH + "; progress: on every rejecting path the removed amounts have a positive lower bound or the announced length is settled",
      assumptions=ASSUME + ["httparse reports a malformed or complete header only for non-empty input, and a complete header has at least one byte"])
def p03(ctx):
    rep = ctx.rep
    for f in ctx.features:
        d = Decode(ctx, f)
        e, where = d.e, d.body.span + " " + d.body.path
        errs, cut, broken = 0, [], False
        for s, what, x, base, ns, stage, fin in d.results():
            if what == "unclear":
                rep.check(False, "the outcome is known", "outcome:%s" % f, "unclear outcome %s" % show(x)[:200], where)
                continue
            if what == "some":
                rep.check(bool(ns), "a delivered message is removed from the input", "some:%s" % f, "a message is delivered and left in the input", where)
            if what != "err":
                continue
            errs += 1
            settled = stage == "body" and e.variant(s, fin) == 0
            rep.check(settled or any(positive(d, s, n) for n in ns), "rejected input is discarded at least in part", "progress:%s" % f,
                      "an error is returned but nothing is known to be discarded (removed: %s)" % [show(n)[:80] for n in ns], where)
            rep.check(e.variant(s, fin) == 0 or stage == "header" and fin == d.s0, "after an error the decoder expects a header", "reset:%s" % f,
                      "the announced length becomes %s" % show(fin)[:100], where)
            if stage != "body":
                skip(d, s, ns, rep, f, where, cut)
                if any(k[0] == "=" and v == 1 and k[1][0] == "discr" and d.parse(k[1][1]) for k, v in s.facts.items()):
                    broken = True
        rep.check(not broken or cut, "a header that the input ends in is kept", "cut:%s" % f,
                  "no rejected input is searched for a header that is not complete yet, so that its first part is lost", where)
        rep.floor(errs, 3, "ways to reject input (%s)" % f)
        rep.check(not loops_forever(d), "loops of the decoder end", "loops:%s" % f, "a loop of the decoder may run for ever", where)
        for i, b in d.outer:
            e2 = ctx.sys[f].engine(extra=BYTES, opaque={d.body.key})
            outs = e2.entry(b, names=["self", "src"])
            rep.absorb(e2)
            for s, k, v in outs:
                if k != "loop":
                    continue
                calls = [y for y in s.trace() if y.kind == "call" and last(y.name) == "decode"]
                ok_ = False
                if calls:
                    before, now = length(e2, s, calls[-1].vals[1]), length(e2, s, e2.read(s, ("D", SRC), ()))
                    ok_ = e2.truth(s, ("bin", "Lt", now, before)) or e2.truth(s, ("bin", "Ne", now, before))
                rep.check(ok_, "the wrapping decoder repeats only after input was consumed", "repeat:%s" % f, "it repeats without progress", b.span + " " + b.path)


def loops_forever(d):
    """Is there an iteration of a loop that advances neither an iterator, nor a counter, nor the input?"""
    for s, _ in d.loops:
        ev = s.trace()
        at = max(i for i, x in enumerate(ev) if x.kind == "loop")
        if any(x.kind == "call" and last(x.name) in ("next", "next_back", "advance", "pop") for x in ev[at:]):
            continue
        if any(moved(r, v) for r, v in s.store.items()):
            continue
        return True
    return False


def moved(root, v):
    """Has a widened number been increased by a constant in this iteration?"""
    if v[0] == "bin" and v[1] == "Add":
        h, n = v[2], v[3]
        if h[0] == "int":
            h, n = n, h
        return h[0] == "havoc" and h[1][2] == root and n[0] == "int" and n[1] > 0
    if v[0] in ("adt", "tuple") and v[3 if v[0] == "adt" else 1]:
        return any(moved(root, x) for x in v[3 if v[0] == "adt" else 1])
    return False


def positive(d, s, n):
    """Is the removed amount at least one?"""
    e = d.e
    if d.is_h(n):
        return True
    lo, _ = e.bounds(s, n)
    if lo is not None and lo >= 1:
        return True
    if e.truth(s, ("bin", "Gt", n, ("int", 0))) or e.truth(s, ("bin", "Ne", n, ("int", 0))):
        return True
    if n == length(e, s, SRC):
        # Rejected input is never empty.
        return any(k[0] == "=" and k[1][0] == "discr" and d.parse(k[1][1]) for k in s.facts)
    return False


def skip(d, s, ns, rep, f, where, cut):
    """Each skipped stretch is the rejected header, or ends where the next header may start."""
    e = d.e
    buf = SRC
    ns = list(ns)
    while ns:
        n = ns.pop(0)
        if ns and ns[0][0] == "int" and search(d, s, ("bin", "Add", n, ns[0]), buf, cut):
            buf = ("adv", ("adv", buf, n), ns.pop(0))
            continue
        good = d.is_h(n) and buf == SRC or search(d, s, n, buf, cut)
        if not good and n[0] == "fld" and buf[0] == "adv" and d.is_n(s, n, "header") is None:
            good = d.rejected(s, buf, n)
        if not good and (n == length(e, s, buf) or e.truth(s, ("bin", "Ge", n, length(e, s, buf)))):
            good = exhausted(d, s, buf)
        rep.check(good, "rejected input is skipped up to the next possible header", "skip:%s" % f, "skipped: %s" % show(n)[:150], where)
        buf = ("adv", buf, n)


def search(d, s, n, buf, cut):
    """Is `n` the position of a possible header? Notes the searches that find incomplete headers too."""
    e = d.e
    if n[0] == "bin" and n[1] == "Add":
        for x, k in (n[2:], n[:1:-1]):
            if k[0] == "int" and k[1] >= 0 and search(d, s, x, ("adv", buf, k), cut):
                return True
    if n[0] == "fld" and n[2] == 0 and n[1][0] == "as" and n[1][2] == 1 and n[1][1][0] == "call" and last(n[1][1][1]) == "find":
        c = n[1][1]
        return any(is_header(peel(e, s, a)) for a in c[2][1:]) and peel(e, s, c[2][0]) == buf
    if n[0] in ("call", "havoc") or n[0] == "bin":
        # A position at which the input was compared with the header.
        rest = ("adv", buf, n)
        for k, v in s.facts.items():
            if k[0] != "=" or v != 1:
                continue
            if k[1][0] == "call" and last(k[1][1]) in ("starts_with", "ends_with", "eq") and len(k[1][2]) == 2:
                op, a = last(k[1][1]), k[1][2]
            elif k[1][0] == "bin" and k[1][1] == "Eq":
                op, a = "eq", k[1][2:]
            else:
                continue
            a = [peel(e, s, y) for y in a]
            a = [x[1] if x[0] == "pre" and e.ev(s, x[2]) == e.ev(s, length(e, s, x[1])) else x for x in a]
            if op == "starts_with" and is_header(a[0]) and a[1] == rest:
                cut.append(n)
                return True
            if any(is_header(y) for y in a) and any(mentions(y, n) for y in a):
                return True
            for x, y in (a, a[::-1]) if op == "eq" else ():
                # Both as far as the shorter of them goes, which may have been told from the lengths.
                if y[0] != "pre" or not is_header(y[1]):
                    continue
                whole = {e.ev(s, length(e, s, z)) for z in (rest, y[1])}
                if x == rest and e.ev(s, y[2]) in whole or x == ("pre", rest, y[2]) and y[2][0] == "call" and last(y[2][1]) in ("min", "integer_min") \
                        and {e.ev(s, z) for z in y[2][2]} == whole:
                    cut.append(n)
                    return True
    return False


def is_header(x):
    return x == ("str", "Content-Length") or x[0] == "bytes" and bytes(x[1]) == b"Content-Length"


def mentions(t, n):
    return t == n or isinstance(t, tuple) and any(mentions(y, n) for y in t)


def exhausted(d, s, buf):
    """Was no further header found?"""
    if any(x.kind == "none" for x in s.trace()):
        return True
    for k, v in s.facts.items():
        if k[0] == "=" and v == 0 and k[1][0] == "discr" and k[1][1][0] == "call" and last(k[1][1][1]) == "find":
            return True
        if k[0] == "c" and k[1] == "Lt" and v is False and length(d.e, s, buf) == k[3]:
            return True
    return False
