"""Rules about progress streams: the type states that programs can reach, and what each step sends.

The public functions that make, turn or use `Progress` and `OngoingProgress` are found by their signatures; the type states
are enumerated from them, and each step is followed along every path with the channel and the server state as abstract cells.
"""
import itertools, os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

from ..engine import *
from ..facts import FEATURES, witness
from ..lib import only
from ..models import strip
from ..system import Missing, need
from ..tables import find
from . import prop
from .client import ASSUME, C, CPath, Clients, bytes_of, fields, find_in, is_future, text_of
from .service import roles

M = "tower_lsp::service::client::progress::"
BUILD, RUN = M + "Progress", M + "OngoingProgress"
U, B = ("adt", M + "Unbounded", ()), ("adt", M + "Bounded", ())
N, Y = ("adt", M + "NotCancellable", ()), ("adt", M + "Cancellable", ())
NAMES = {U: "Unbounded", B: "Bounded", N: "NotCancellable", Y: "Cancellable"}
KINDS = [(b, c) for b in (U, B) for c in (N, Y)]
STRING = ("adt", "alloc::string::String", ())

# What the arguments of each report are: the message, the percentage, and the state of the cancel button (with or without option).
REPORTS = {
    (U, N): {"report": ("msg",)},
    (U, Y): {"report": ("cancel",), "report_with_message": ("msg", "cancel?")},
    (B, N): {"report": ("pct",), "report_with_message": ("msg", "pct")},
    (B, Y): {"report": ("pct", "cancel?"), "report_with_message": ("msg", "pct", "cancel?")},
}
ENDS = {"finish": (), "finish_with_message": ("msg",)}
TECH = ("typestate analysis: the states that the public signatures of the progress interface reach are enumerated; path-partitioned dataflow over "
        "MIR of every step, with each message compared with its kind; and compile-fail witnesses, each with a twin that compiles, for the orders that the types rule out")


def some_type(t, k):
    """The arguments of the type `k` that occur by value in `t`."""
    if not isinstance(t, tuple) or not t:
        return []
    if t[0] == "adt" and t[1] == k:
        return [t[2]]
    if t[0] in ("ref", "ptr"):
        return []
    return [y for x in t for y in some_type(x, k)]


def any_type(t, k):
    return isinstance(t, tuple) and bool(t) and (t[0] == "adt" and t[1] == k or any(any_type(x, k) for x in t))


class Api:
    """Everything that a program can call and that has to do with progress."""

    def __init__(self, F):
        self.F = F
        self.fns = []
        for b in F.bodies.values():
            if not b.local or b.kind not in ("Fn", "AssocFn") or not (b.public or b.impl_trait):
                continue
            if any(any_type(t, k) for t in b.locals[:b.argc + 1] for k in (BUILD, RUN)) or any_type(self.output(b), BUILD) or any_type(self.output(b), RUN):
                self.fns.append(b)

    def output(self, b):
        """What a call of the function gives in the end."""
        t = b.locals[0]
        for _ in range(3):
            if isinstance(t, tuple) and t and t[0] == "coroutine":
                c = self.F.bodies.get(t[2]) or self.F.body(t[1])
                if c is None:
                    raise Missing("body of %s" % t[1])
                t = c.locals[0]
                continue
            break
        return t

    def takes(self, b, k):
        """The kinds of the stream that the function takes by value."""
        return [x for t in b.locals[1:b.argc + 1] for x in some_type(t, k)]

    def methods(self, k, kind, byref=None):
        """Functions whose first argument is the stream `k` of the given kind: (body, environment, by reference)."""
        for b in self.fns:
            if not b.argc or b.impl_trait:
                continue
            t = b.locals[1]
            ref = t[0] == "ref"
            if ref:
                t = t[2]
            env = {}
            if t[0] == "adt" and t[1] == k and unify(t[2], kind, env) and byref in (None, ref):
                yield b, env, ref


def kind_of(args, env):
    return subst(args, env)


def label(k):
    return "<%s, %s>" % tuple(NAMES.get(x, "?") for x in k)


def is_text(have, a):
    """Is the term the argument as a string, and nothing else?"""
    syms = set(find(have, lambda x: x[0] == "sym"))
    lits = [x for x in find(have, lambda x: x[0] in ("str", "bytes")) if x[1] not in ("", b"", b"\xc0\x00", "display") and bytes_of(x[1]) != b"\xc0\x00"]
    return syms == {a} and not lits


class Streams:
    def __init__(self, ctx, f):
        self.cl = Clients(ctx, f)
        self.F, self.rep, self.f = self.cl.F, ctx.rep, f
        self.R = roles(ctx, f)
        self.api = Api(self.F)
        self.n = 0

    def drive(self, b, st, args, env):
        return self.cl.drive(b, st, args, env)

    def opt(self, p, v):
        """An option: None if it is none, its payload, or "?"."""
        d = p.e.variant(p.st, v)
        return None if d == 0 else p.e.snap(p.st, p.e.payload(v, 1), 4) if d == 1 else "?"

    def sent(self, p, name, key):
        """The progress message that a path sends: (token, variant name, its value), or None; checks its envelope."""
        rep = self.rep
        rep.check(len(p.pushes) <= 1, "a step of a progress stream sends one message", "one:" + key, "%s sends %d messages" % (name, len(p.pushes)), p.at())
        if not p.pushes:
            return None
        x = p.pushes[0][1]
        mm, _, _ = p.request(x)
        rep.check(text_of(mm) == "$/progress" or "Progress" in str(mm) and "::METHOD" in str(mm), "progress is reported with $/progress", "method:" + key,
                  "%s sends `%s`" % (name, text_of(mm) or show(mm)[:60]), p.at())
        rep.check(p.e.variant(p.st, proj(x.vals[1], ("f", self.cl.req[1]))) == 0, "progress is reported by notifications", "kind:" + key, "%s sends a request" % name, p.at())
        po = proj(x.vals[1], ("f", self.cl.req[2]))
        if not rep.check(p.e.variant(p.st, po) == 1, "the progress is sent", "params:" + key, "%s sends no params" % name, p.at()):
            return None
        v = p.e.snap(p.st, p.e.payload(po, 1), 4)
        if v[0] == "json":
            v = v[1]
        while v[0] == "&":
            v = v[1]
        fs = fields(self.F, v) if v[0] == "adt" else None
        if not rep.check(fs is not None and set(fs) == {"token", "value"}, "the progress is sent", "params:" + key, "%s sends %s" % (name, show(v)[:100]), p.at()):
            return None
        rep.check(fs["token"] == ("sym", "token"), "every message carries the token of its stream", "token:" + key,
                  "%s sends the token %s" % (name, show(fs["token"])[:80]), p.at())
        w = fs["value"]
        for _ in range(3):
            if w[0] == "adt" and w[1].rsplit("::", 1)[-1] in ("ProgressParamsValue",):
                w = w[3][0]
        a = self.F.adts.get(w[1]) if w[0] == "adt" else None
        if not rep.check(a is not None and w[1].endswith("WorkDoneProgress"), "the progress is work-done progress", "value:" + key, "%s sends %s" % (name, show(w)[:100]), p.at()):
            return None
        return a["variants"][w[2]]["name"], w[3][0]

    def gate(self, p, name, key):
        up, inv = {self.R["ready"], self.R["down"]}, {v: k for k, v in self.R.items()}
        for s in sorted(p.states()):
            if s in up:
                self.rep.check(bool(p.pushes), "progress is sent while the server is initialized", "sent:%s:%s" % (key, inv[s]),
                               "%s sends nothing in the state `%s`" % (name, inv[s]), p.at())
            else:
                self.rep.check(not p.pushes, "no progress is sent unless the server is initialized", "early:%s:%s" % (key, inv[s]),
                               "%s sends its message in the state `%s`" % (name, inv[s]), p.at())

    def member(self, p, v, name):
        """A field of an lsp_types struct, as an option if it is one."""
        fs = fields(self.F, v) if v[0] == "adt" else None
        return "?" if fs is None else fs[name]

    def optional(self, v, name):
        """Is the member an option, so that its default is none?"""
        a = self.F.adts.get(v[1])
        return any(x[0] == name and x[1][0] == "adt" and x[1][1] == OPTION for x in a["variants"][0]["fields"])

    def fit(self, p, v, name, want, key, who):
        """A member `name` of the message against what the step was given: None or ("text"/"value"/"option", argument)."""
        have = self.member(p, v, name)
        if have == "?":
            self.rep.check(False, "every member of the message is known", "member:%s:%s" % (key, name), "%s sends %s" % (who, show(v)[:100]), p.at())
            return
        self.n += 1
        if isinstance(want, tuple) and want[0] == "option":
            ok = have == want[1] or self.rebuilt(p, have, want[1])
        elif want is None:
            ok = have == none() or have[0] == "fld" and have[1][0] == "call" and have[1][1].rsplit("::", 1)[-1] == "default" and self.optional(v, name)
            if not ok and name == "cancellable":
                ok = self.opt(p, have) == ("int", 0, "bool") or is_false(self.opt(p, have)) and v[1].endswith("Begin")
        else:
            x = self.opt(p, have)
            ok = x not in (None, "?") and (is_text(x, want[1]) if want[0] == "text" else x == want[1])
        self.rep.check(ok, "every member of a progress message is what the step was given", "member:%s:%s" % (key, name),
                       "%s sends %s as `%s`" % (who, show(have)[:80], name), p.at())

    def rebuilt(self, p, have, a):
        """An option that is built again from the parts of the argument."""
        d, w = p.e.variant(p.st, have), p.e.variant(p.st, a)
        return d is not None and d == w and (d == 0 or p.e.snap(p.st, p.e.payload(have, 1), 3) == p.e.snap(p.st, p.e.payload(a, 1), 3))

    # ---- the parts

    def begin_states(self):
        """All type states of the builder: (kind, given, path state, value)."""
        b = need(self.F.body(C + "progress"), "Client::progress")
        st, e = self.cl.start(), self.cl.sys.engine()
        outs = e.run(st, b, {}, (e.alloc(st, self.cl.client), ("sym", "token"), ("sym", "title")))
        self.rep.absorb(e)
        k0 = some_type(self.api.output(b), BUILD)
        if not self.rep.check(k0 == [(U, N)], "a stream starts unbounded and not cancellable", "start:" + self.f, "Client::progress starts with %s" % (k0,), b.span):
            return
        todo = [((U, N), {}, s, v) for s, k, v in outs if k == "ret"]
        self.rep.check(len(todo) == len(outs) and todo, "Client::progress returns", "start:ret:" + self.f, "Client::progress does not return", b.span)
        seen = 0
        while todo:
            kind, given, s, v = todo.pop()
            seen += 1
            yield kind, given, s, v
            if len(given) >= 4:
                continue
            for m, env, ref in self.api.methods(BUILD, kind, byref=False):
                nxt = some_type(self.api.output(m), BUILD)
                if not nxt or m.name in given:
                    continue
                args = tuple(("sym", m.name + str(i)) for i in range(m.argc - 1))
                for s2, k, v2 in self.run(m, s.fork(), (v,) + args, env):
                    self.rep.check(k == "ret", "building a stream does not fail", "build:%s:%s" % (m.name, self.f), "Progress::%s does not return" % m.name, m.span)
                    if k == "ret":
                        todo.append((kind_of(nxt[0], env), {**given, m.name: args}, s2, v2))
        self.rep.floor(seen, 8, "ways to build a progress stream (%s)" % self.f)

    def run(self, b, st, args, env):
        e = self.cl.sys.engine()
        out = []
        for s, k, v in e.run(st, b, env, args):
            if k == "ret" and v[0] in ("cor", "fut"):
                out += e.drive(s, v, {"sp": b.span}, b)
            else:
                out.append((s, k, v))
        self.rep.absorb(e)
        return out

    def begins(self):
        """Runs every function that turns a builder into a stream, in every type state; returns one state and value per kind."""
        res = {}
        for kind, given, s, v in self.begin_states():
            bs = [(m, env) for m, env, ref in self.api.methods(BUILD, kind, byref=False) if some_type(self.api.output(m), RUN)]
            self.rep.check(bool(bs), "every builder can begin", "begin:%s:%s" % (label(kind), self.f), "Progress%s cannot begin" % label(kind))
            for m, env in bs:
                out = kind_of(some_type(self.api.output(m), RUN)[0], env)
                who = "Progress%s::%s after %s" % (label(kind), m.name, sorted(given) or "nothing")
                key = "%s:%s:%s:%s" % (m.name, label(kind), "+".join(given), self.f)
                self.rep.check(out == kind, "beginning keeps the kind of the stream", "kind:" + key, "%s gives OngoingProgress%s" % (who, label(out)), m.span)
                args = tuple(("sym", "b%d" % i) for i in range(m.argc - 1))
                for p in self.drive(m, s.fork(), (v,) + args, env):
                    if p.excused():
                        continue
                    if not self.rep.check(p.kind == "ret", "beginning ends", "ret:" + key, "%s does not return: %s" % (who, show(p.val)[:80]), p.at()):
                        continue
                    if not any(x.kind == "unserializable" for x in p.events):
                        self.gate(p, who, key)
                    self.stream(p, p.val, who, key)
                    x = self.sent(p, who, key)
                    if x:
                        self.rep.check(x[0] == "Begin", "a stream begins with its begin message", "first:" + key, "%s sends %s" % (who, x[0]), p.at())
                        if x[0] == "Begin":
                            fs = fields(self.F, x[1]) or {}
                            self.rep.check(is_text(fs.get("title", UNIT), ("sym", "title")), "the begin message carries the title", "title:" + key,
                                           "%s sends the title %s" % (who, show(fs.get("title", ()))[:60]), p.at())
                            g = lambda n, k: (k, given[n][0]) if n in given and given[n] else None
                            self.fit(p, x[1], "message", g("with_message", "text"), key, who)
                            self.fit(p, x[1], "percentage", g("with_percentage", "value"), key, who)
                            c = self.opt(p, self.member(p, x[1], "cancellable")) if fs else "?"
                            self.rep.check(is_true(c) if kind[1] == Y else c is None or is_false(c), "a stream is cancellable exactly if its type says so", "cancel:" + key,
                                           "%s sends cancellable: %s" % (who, show(c) if c else c), p.at())
                    res.setdefault(out, (p.st, p.val))
        return res

    def stream(self, p, v, who, key):
        """A stream has the client and the token that it was made with."""
        have = p.e.snap(p.st, v, 4)
        tok = [x for x in find(have, lambda x: x == ("sym", "token"))]
        self.rep.check(bool(tok), "the token stays with the stream", "keep:" + key, "%s loses the token" % who, p.at())
        one = lambda w: [x[:3] for x in find_in(p.st, p.e, w, lambda y: y[0] in ("tx", "dmap"))]
        self.rep.check(one(v) == one(self.cl.client), "the client stays with the stream", "keepclient:" + key, "%s changes the client" % who, p.at())

    def fresh(self, st):
        s = st.fork()
        s.events, s.facts = None, dict(self.cl.start().facts)
        return s

    def steps(self, res):
        """Every step of a stream that has begun."""
        done = {}
        for kind in KINDS:
            if not self.rep.check(kind in res, "every kind of stream can be reached", "reach:%s:%s" % (label(kind), self.f), "no program reaches OngoingProgress" + label(kind)):
                continue
            st, v = res[kind]
            for m, env, ref in self.api.methods(RUN, kind):
                self.step(kind, m, env, ref, self.fresh(st), v, done)
            for name in REPORTS[kind]:
                self.rep.check((kind, name) in done, "every kind of stream has its reports", "has:%s:%s:%s" % (label(kind), name, self.f),
                               "OngoingProgress%s has no `%s`" % (label(kind), name))
            for name in ENDS:
                self.rep.check((kind, name) in done, "every kind of stream can be finished", "has:%s:%s:%s" % (label(kind), name, self.f),
                               "OngoingProgress%s has no `%s`" % (label(kind), name))

    def step(self, kind, m, env, ref, st, v, done):
        key = "%s:%s:%s" % (m.name, label(kind), self.f)
        who = "OngoingProgress%s::%s" % (label(kind), m.name)
        done[(kind, m.name)] = True
        e = self.cl.sys.engine()
        names = ENDS.get(m.name, REPORTS[kind].get(m.name))
        args = tuple(("sym", "r%d" % i) for i in range(m.argc - 1))
        nxt = [kind_of(x, env) for x in some_type(self.api.output(m), RUN)]
        if ref:
            cell = e.alloc(st, v)
        if self.api.output(m)[0] == "ref":
            outs = [CPath(self.cl, e, s, k, x, m) for s, k, x in e.run(st, m, env, ((cell if ref else v),) + args)]
        else:
            outs = self.drive(m, st, ((cell if ref else v),) + args, env)
        for p in outs:
            if p.excused():
                continue
            if not self.rep.check(p.kind == "ret", "a step of a stream ends", "ret:" + key, "%s does not return: %s" % (who, show(p.val)[:80]), p.at()):
                continue
            x = self.sent(p, who, key)
            if ref:
                # The handle lives on: nothing but reports.
                now = p.e.deref(p.st, cell)
                self.stream(p, now, who, key)
                if x:
                    self.rep.check(x[0] == "Report", "only reports are sent while the handle lives on", "mid:" + key, "%s sends %s" % (who, x[0]), p.at())
            elif nxt:
                self.rep.check(not p.pushes, "turning a stream sends nothing", "turn:" + key, "%s sends %s" % (who, x and x[0]), p.at())
                self.stream(p, p.val, who, key)
            elif x:
                self.rep.check(x[0] == "End", "giving up the handle can only end the stream", "last:" + key, "%s sends %s" % (who, x[0]), p.at())
            if names is None:
                if m.name == "token" and ref:
                    self.rep.check(p.e.snap(p.st, p.e.deref(p.st, p.val) if p.val[0] == "ref" else p.val, 3) == ("sym", "token"), "the token of a stream is its own", "tok:" + key,
                                   "%s returns %s" % (who, show(p.e.snap(p.st, p.val, 3))[:60]), p.at())
                elif x and x[0] == "Report":
                    self.mixed(p, x[1], kind, who, key)
                continue
            if not any(y.kind == "unserializable" for y in p.events):
                self.gate(p, who, key)
            if not x:
                continue
            end = m.name in ENDS
            if not self.rep.check(x[0] == ("End" if end else "Report"), "a step sends the kind of message that it is named after", "variant:" + key, "%s sends %s" % (who, x[0]), p.at()):
                continue
            w = {}
            for i, k in enumerate(names):
                a = args[i]
                w.update({"msg": {"message": ("text", a)}, "pct": {"percentage": ("value", a)}, "cancel": {"cancellable": ("value", a)}, "cancel?": {"cancellable": ("option", a)}}[k])
            for k in ("message",) if end else ("message", "percentage", "cancellable"):
                self.fit(p, x[1], k, w.get(k), key, who)

    def mixed(self, p, v, kind, who, key):
        if kind[0] == U:
            self.fit(p, v, "percentage", None, key, who)
        if kind[1] == N:
            self.fit(p, v, "cancellable", None, key, who)

    def signatures(self):
        """No function makes a stream, or makes two of one."""
        rep = self.rep
        n = 0
        for b in self.api.fns:
            out = self.api.output(b)
            where = b.span
            for k in (BUILD, RUN):
                for x in some_type(out, k):
                    n += 1
                    src = [y for y in self.api.takes(b, RUN)] + [y for y in self.api.takes(b, BUILD)]
                    if k == BUILD and b.path == C + "progress":
                        continue
                    key = "%s:%s" % (b.path, self.f)
                    if not rep.check(len(src) == 1 and len(some_type(out, k)) == 1, "a stream only comes from the one that it takes away", "linear:" + key,
                                     "%s gives a %s without taking one by value" % (b.path, k.rsplit("::", 1)[-1]), where):
                        continue
                    took = BUILD if self.api.takes(b, BUILD) else RUN
                    rep.check(not (k == BUILD and took == RUN), "a stream that has begun is not begun again", "again:" + key, "%s goes back to before the begin" % b.path, where)
                    if took == RUN and k == RUN:
                        ok = x[1] == src[0][1] and (x[0] == src[0][0] or x[0] == U)
                        rep.check(ok, "a stream that has begun keeps what it was begun with", "turns:" + key, "%s turns %s into %s" % (b.path, src[0], x), where)
                    if took == BUILD and k == BUILD:
                        ok = (x[0] == src[0][0] or (src[0][0], x[0]) == (U, B)) and (x[1] == src[0][1] or (src[0][1], x[1]) == (N, Y))
                        rep.check(ok, "a builder keeps what it was given", "turns:" + key, "%s turns %s into %s" % (b.path, src[0], x), where)
        for t in ("core::marker::Copy", "core::clone::Clone", "core::default::Default"):
            for i in self.F.impls_by_trait.get(t, ()):
                rep.check(not (i["self"][0] == "adt" and i["self"][1] in (BUILD, RUN)), "streams cannot be copied", "copy:%s:%s" % (t, self.f), "%s is %s" % (i["self"][1], t))
        for i in self.F.impls_by_trait.get("core::ops::drop::Drop", ()):
            if i["self"][0] == "adt" and i["self"][1] in (BUILD, RUN):
                rep.check(False, "dropping a stream sends nothing", "drop:" + self.f, "dropping a %s runs code" % i["self"][1])
        for k in (BUILD, RUN):
            a = need(self.F.adts.get(k), k)
            for x in a["variants"][0]["fields"]:
                rep.check(not x[2], "the parts of a stream are private", "private:%s:%s:%s" % (k, x[0], self.f), "the field `%s` of %s is public" % (x[0], k), a["span"])
        rep.floor(n, 6, "functions that give progress streams (%s)" % self.f)


def is_true(t):
    return isinstance(t, tuple) and t[0] in ("int", "bool") and bool(t[1]) and t[1] is not None


def is_false(t):
    return isinstance(t, tuple) and t[0] in ("int", "bool") and not t[1]


# ------------------------------------------------------------------------------------- witnesses

PRE = """#![allow(unused, dead_code)]
use tower_lsp::lsp_types::*;
use tower_lsp::Client;
async fn t(c: Client, tok: ProgressToken) {
%s
}
"""
# name: (what must compile, what must not: the line marked with //! has the error)
WITNESS = {
    "report before begin": ("let p = c.progress(tok, \"t\").begin().await;\n p.report(\"x\").await;", "let p = c.progress(tok, \"t\");\n p.report(\"x\").await; //!"),
    "finish before begin": ("let p = c.progress(tok, \"t\").begin().await;\n p.finish().await;", "let p = c.progress(tok, \"t\");\n p.finish().await; //!"),
    "report after finish": ("let p = c.progress(tok, \"t\").begin().await;\n p.report(\"x\").await;\n p.finish().await;", "let p = c.progress(tok, \"t\").begin().await;\n p.finish().await;\n p.report(\"x\").await; //!"),
    "report after finish with a message": ("let p = c.progress(tok, \"t\").begin().await;\n p.report(\"x\").await;\n p.finish_with_message(\"y\").await;",
                                           "let p = c.progress(tok, \"t\").begin().await;\n p.finish_with_message(\"y\").await;\n p.report(\"x\").await; //!"),
    "finish twice": ("let p = c.progress(tok, \"t\").begin().await;\n p.finish().await;", "let p = c.progress(tok, \"t\").begin().await;\n p.finish().await;\n p.finish().await; //!"),
    "begin twice": ("let p = c.progress(tok, \"t\");\n p.begin().await;", "let p = c.progress(tok, \"t\");\n p.begin().await;\n p.begin().await; //!"),
    "finish a borrowed stream": ("let p = c.progress(tok, \"t\").begin().await;\n let q = &p;\n q.report(\"x\").await;", "let p = c.progress(tok, \"t\").begin().await;\n let q = &p;\n q.finish().await; //!"),
    "copy of a stream": ("let p = c.progress(tok, \"t\").begin().await;\n let d = c.clone();", "let p = c.progress(tok, \"t\").begin().await;\n let q: tower_lsp::OngoingProgress<_, _> = p.clone(); //!"),
    "copy of a builder": ("let p = c.progress(tok, \"t\");\n let d = c.clone();", "let p = c.progress(tok, \"t\");\n let q: tower_lsp::Progress<_, _> = p.clone(); //!"),
    "percentage for an unbounded stream": ("let p = c.progress(tok, \"t\").begin().await;\n p.report(\"x\").await;", "let p = c.progress(tok, \"t\").begin().await;\n p.report(10u32).await; //!"),
    "percentage for an unbounded cancellable stream": ("let p = c.progress(tok, \"t\").with_cancel_button().begin().await;\n p.report(true).await;",
                                                       "let p = c.progress(tok, \"t\").with_cancel_button().begin().await;\n p.report(10u32).await; //!"),
    "message with percentage for an unbounded stream": ("let p = c.progress(tok, \"t\").with_percentage(1).begin().await;\n p.report_with_message(\"x\", 1u32).await;",
                                                        "let p = c.progress(tok, \"t\").begin().await;\n p.report_with_message(\"x\", 1u32).await; //!"),
    "no percentage for a bounded stream": ("let p = c.progress(tok, \"t\").with_percentage(1).begin().await;\n p.report(1).await;", "let p = c.progress(tok, \"t\").with_percentage(1).begin().await;\n p.report(\"x\").await; //!"),
    "cancel button for a stream without": ("let p = c.progress(tok, \"t\").with_percentage(1).with_cancel_button().begin().await;\n p.report(1, Some(true)).await;",
                                           "let p = c.progress(tok, \"t\").with_percentage(1).begin().await;\n p.report(1, Some(true)).await; //!"),
    "cancel button for a message without": ("let p = c.progress(tok, \"t\").with_cancel_button().begin().await;\n p.report_with_message(\"x\", None).await;",
                                            "let p = c.progress(tok, \"t\").begin().await;\n p.report_with_message(\"x\", None).await; //!"),
    "percentage twice": ("let p = c.progress(tok, \"t\").with_percentage(1);", "let p = c.progress(tok, \"t\").with_percentage(1).with_percentage(2); //!"),
    "cancel button twice": ("let p = c.progress(tok, \"t\").with_cancel_button();", "let p = c.progress(tok, \"t\").with_cancel_button().with_cancel_button(); //!"),
    "percentage after unbounding": ("let p = c.progress(tok, \"t\").with_percentage(1).begin().await.into_unbounded();\n p.report(\"x\").await;",
                                    "let p = c.progress(tok, \"t\").with_percentage(1).begin().await.into_unbounded();\n p.report(1u32).await; //!"),
    "use after unbounding": ("let p = c.progress(tok, \"t\").with_percentage(1).begin().await;\n p.report(1).await;\n let q = p.into_unbounded();",
                             "let p = c.progress(tok, \"t\").with_percentage(1).begin().await;\n let q = p.into_unbounded();\n p.report(1).await; //!"),
    "unbounding an unbounded stream": ("let p = c.progress(tok, \"t\").with_percentage(1).begin().await.into_unbounded();",
                                       "let p = c.progress(tok, \"t\").begin().await.into_unbounded(); //!"),
    "bounding after begin": ("let p = c.progress(tok, \"t\").with_percentage(1).begin().await;", "let p = c.progress(tok, \"t\").begin().await.with_percentage(1); //!"),
    "a stream out of nothing": ("let p: tower_lsp::Progress = c.progress(tok, \"t\");", "let p: tower_lsp::Progress = tower_lsp::Progress::new(c, tok, String::new()); //!"),
    "a stream by default": ("let p: tower_lsp::OngoingProgress<_, _> = c.progress(tok, \"t\").begin().await;", "let p: tower_lsp::OngoingProgress<_, _> = { let _ = c.progress(tok, \"t\").begin().await; Default::default() }; //!"),
}


def witnesses(ctx, f):
    rep = ctx.rep
    compile_ = witness(f)
    names = sorted(WITNESS)
    jobs = [(n, i) for n in names for i in (0, 1)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_(PRE % WITNESS[j[0]][j[1]]), jobs))
    got = dict(zip(jobs, res))
    for n in names:
        ok, errs = got[(n, 0)]
        rep.check(ok, "the twin of a witness compiles", "twin:%s:%s" % (n, f), "a correct program does not compile (the twin of `%s`): %s" % (n, "; ".join(e[1] for e in errs)[:200]), "witness")
        bad, errs = got[(n, 1)]
        line = next(i for i, l in enumerate((PRE % WITNESS[n][1]).split("\n"), 1) if l.rstrip().endswith("//!"))
        rep.check(not bad, "a program that misuses a stream does not compile", "compiles:%s:%s" % (n, f), "this program compiles (%s): %s" % (n, WITNESS[n][1].replace("\n", " ")), "witness")
        if not bad:
            rep.check(any(e[0] == line for e in errs), "it fails for its misuse", "line:%s:%s" % (n, f), "the witness `%s` fails elsewhere: %s" % (n, "; ".join("%s: %s" % e[:2] for e in errs)[:200]), "witness")
    rep.floor(len(names), 20, "compile-fail witnesses")


@prop("P27", technique=TECH, assumptions=ASSUME)
def p27(ctx):
    for f in ctx.features:
        s = Streams(ctx, f)
        s.signatures()
        s.steps(s.begins())
        ctx.rep.floor(s.n, 60, "members of progress messages (%s)" % f)
        witnesses(ctx, f)
