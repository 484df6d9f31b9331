"""Rules about the dispatch table and the `LanguageServer` trait."""
import re

from ..engine import *
from ..lib import LS, only
from ..models import strip
from ..system import Missing, need
from . import prop
from .service import ASSUME, CANCEL, EXIT, METHOD_NOT_FOUND, SPEC

# Methods whose result differs, on purpose, from the one that lsp_types gives: lsp_types 0.94.1 has
# `Option<InlineValue>` where the specification has an array, and the trait's `symbol` offers one
# of the two arrays that the specification allows.
RESULT_EXCEPT = {
    "textDocument/inlineValue": "core::option::Option<alloc::vec::Vec<lsp_types::inline_value::InlineValue>>",
    "workspace/symbol": "core::option::Option<alloc::vec::Vec<lsp_types::document_symbols::SymbolInformation>>",
}
ERR = "tower_lsp::jsonrpc::error::Error"


def full(t):
    """A type as rustc prints it."""
    if t[0] == "adt":
        args = [full(x) for x in t[2] if not (x[0] == "adt" and x[1] == "alloc::alloc::Global")]
        return t[1] + ("<" + ", ".join(args) + ">" if args else "")
    if t[0] == "tuple":
        return "(" + ", ".join(full(x) for x in t[1]) + ("," if len(t[1]) == 1 else "") + ")"
    return str(t[1]) if len(t) > 1 else t[0]


def lsp_types(F):
    out = {}
    for tr in ("lsp_types::request::Request", "lsp_types::notification::Notification"):
        for i in F.impls_by_trait.get(tr, ()):
            m = i["items"].get("METHOD")
            if m and "val" in m:
                out.setdefault(m["val"][1], []).append((tr.rsplit("::", 1)[1].lower(), i))
    return out


@prop("P05", technique="routing table evaluated from the registration code by dataflow over MIR, compared with the LSP 3.17 "
      "table; signatures of the trait compared with lsp_types' Request/Notification impls as type-checked", assumptions=ASSUME)
def p05(ctx):
    rep = ctx.rep
    for f in ctx.features:
        F, sys = ctx.F[f], ctx.sys[f]
        names = sys.registered()
        T = need(F.traits.get("tower_lsp::LanguageServer"), "trait LanguageServer")
        LT = lsp_types(F)
        rep.floor(len(LT), 60, "methods known to lsp_types")
        for n in names:
            rep.check(n in SPEC or n in (CANCEL, EXIT), "every registered name is an LSP method", "name:%s:%s" % (n, f), "`%s` is registered but is no LSP method" % n)
        rep.check(len(names) == len(set(names)), "names are registered once", "unique:" + f, "a name is registered twice")
        for n in list(SPEC) + [CANCEL, EXIT]:
            rep.check(n in names, "every LSP method is registered", "registered:%s:%s" % (n, f), "the LSP method `%s` is not registered" % n)
        used = {h for h, k in SPEC.values()}
        for h in T:
            if "output_str" in T[h]:
                rep.check(h in used, "every trait method is reachable by a method name", "reach:%s:%s" % (h, f), "LanguageServer::%s has no method name" % h)
        for n, (h, kind) in SPEC.items():
            if n not in names:
                continue
            ps, rid, par = sys.service_paths(n, rep)
            got = {x for p in ps for i, x, e in p.handlers()}
            rep.check(got == {h}, "the method runs its own handler", "handler:%s:%s" % (n, f), "`%s` runs %s instead of `%s`" % (n, sorted(got), h))
            t = need(T.get(h), "LanguageServer::" + h)
            reply = "Result<" in t["output_str"]
            rep.check(reply == (kind == "request"), "requests return a result and notifications do not", "kind:%s:%s" % (n, f),
                      "`%s` is a %s, but its handler %s" % (n, kind, "returns a result" if reply else "returns none"))
            oks = any(p.outcome()[0] == "ok" for p in ps)
            rep.check(oks == (kind == "request"), "the method is served as the kind that it is", "served:%s:%s" % (n, f), "`%s` is not served as a %s" % (n, kind))
            if n not in LT:
                rep.check(False, "known to lsp_types", "lsp-types:%s" % n, "lsp_types knows no method `%s`" % n)
                continue
            for k, i in LT[n]:
                rep.check(k == kind, "the kind is the one in lsp_types", "lt-kind:%s:%s" % (n, f), "`%s` is a %s in lsp_types" % (n, k))
                want = i["items"]["Params"]["ty"]
                have = t["inputs"][1] if len(t["inputs"]) > 1 else ("tuple", ())
                rep.check(want == have, "the handler takes the method's params", "params:%s:%s" % (n, f),
                          "`%s` takes %s, its handler %s" % (n, full(want), full(have)))
                if k == "request":
                    m = re.search(r"Output = core::result::Result<(.*), %s>>" % re.escape(ERR), t["output_str"])
                    res = m.group(1) if m else t["output_str"]
                    want = RESULT_EXCEPT.get(n, full(i["items"]["Result"]["ty"]))
                    rep.check(res == want, "the handler returns the method's result", "result:%s:%s" % (n, f),
                              "`%s` has the result %s, its handler %s" % (n, want, res))
        rep.floor(len(names), 60, "registered names")


@prop("P06", technique="dataflow over the MIR of the default methods of the LanguageServer trait, driven to their end, and of "
      "the delegating impls for Box and Arc", assumptions=ASSUME)
def p06(ctx):
    rep = ctx.rep
    for f in ctx.features:
        F, sys = ctx.F[f], ctx.sys[f]
        T = need(F.traits.get("tower_lsp::LanguageServer"), "trait LanguageServer")
        n = 0
        for h, kind in {v for v in SPEC.values()}:
            t = T.get(h)
            if t is None:
                rep.check(False, "anchors", "anchor:" + h, "no method LanguageServer::" + h)
                continue
            if h in ("initialize", "shutdown"):
                rep.check(not t["default"], "initialize and shutdown have no default", "required:%s:%s" % (h, f), "`%s` has a default" % h)
                continue
            rep.check(t["default"], "optional methods have a default", "default:%s:%s" % (h, f), "`%s` has no default" % h)
            if not t["default"]:
                continue
            b = need(F.bodies.get(t["key"]), "LanguageServer::" + h)
            e = sys.engine()
            outs = e.entry_driven(b, names=["self", "params"])
            n += 1
            rep.absorb(e)
            rep.paths += len(outs)
            for s, k, v in outs:
                w = b.span
                calls = [x for x in s.trace() if x.kind == "call" and x.name.startswith("tower_lsp::")]
                rep.check(k == "ret", "a default does not panic", "panic:%s:%s" % (h, f), "the default `%s` can panic" % h, w)
                if k != "ret":
                    continue
                rep.check(not [x for x in s.trace() if x.kind == "call" and x.name.startswith(LS)], "a default calls no other handler", "calls:%s:%s" % (h, f),
                          "the default `%s` calls another handler" % h, w)
                if kind == "notification":
                    rep.check(v == UNIT, "a default notification does nothing", "unit:%s:%s" % (h, f), "the default `%s` returns %s" % (h, show(v)), w)
                else:
                    code = None
                    if e.variant(s, v) == 1:
                        code, data = sys.error(s, e.payload(v, 1))
                    rep.check(code == METHOD_NOT_FOUND, "a default request fails with -32601", "code:%s:%s" % (h, f),
                              "the default `%s` does not fail with -32601 (%s)" % (h, show(v)[:80]), w)
        rep.floor(n, 60, "default methods")
        d = 0
        for i in F.impls_by_trait.get("tower_lsp::LanguageServer", ()):
            for h, it in i["items"].items():
                b = F.bodies.get(it["key"])
                if b is None:
                    continue
                d += 1
                e = sys.engine()
                outs = e.entry(b, names=["self", "params"])
                rep.absorb(e)
                for s, k, v in outs:
                    calls = [x for x in s.trace() if x.kind == "call"]
                    ok = k == "ret" and len(calls) == 1 and calls[0].name == LS + h and calls[0].ret == v and \
                        calls[0].vals[1:] == tuple(("sym", n) for n in ["params"][:b.argc - 1])
                    rep.check(ok, "Box and Arc pass every method on unchanged", "pass:%s:%s:%s" % (i["self"][1], h, f),
                              "LanguageServer::%s of %s does not pass the call on" % (h, i["self"][1]), b.span)
        rep.floor(d, 120, "delegating methods")
