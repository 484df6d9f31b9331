"""What every check shares: reports, evidence, known findings and the classification of paths."""
import json, os, pickle, sys, time, traceback

from .engine import *
from .facts import VERIF, load_all, BuildError
from .models import strip
from .system import System, Missing, need, find_fields

EVID = os.environ.get("VF_EVID", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obligations, self.discharged = 0, 0
        self.rules, self.samples, self.violations = {}, [], []
        self.functions, self.sites, self.paths, self.steps = {}, set(), 0, 0
        self.notes = []
        self.t0 = time.time()

    def check(self, cond, rule, key, message, where=""):
        """One obligation: `cond` must hold at `where` (file:line, function) under `rule`."""
        self.obligations += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if cond:
            self.discharged += 1
            r[1] += 1
            n = sum(1 for s in self.samples if s["rule"] == rule)
            if n < 2 and len(self.samples) < 60:
                self.samples.append({"rule": rule, "instance": key, "where": where})
        elif key not in [v["key"] for v in self.violations]:
            self.violations.append({"rule": rule, "key": key, "message": message, "where": where})
        return bool(cond)

    def floor(self, n, least, what):
        self.check(n >= least, "floor: " + what, "floor:" + what,
                   "only %d %s found, at least %d expected: the rule would pass vacuously" % (n, what, least))

    def merge(self, o):
        """Adds the report of a part of the check."""
        self.obligations += o.obligations
        self.discharged += o.discharged
        for k, (a, b) in o.rules.items():
            r = self.rules.setdefault(k, [0, 0])
            r[0] += a
            r[1] += b
        for x in o.samples:
            if sum(1 for y in self.samples if y["rule"] == x["rule"]) < 2:
                self.samples.append(x)
        have = {v["key"] for v in self.violations}
        self.violations += [v for v in o.violations if v["key"] not in have]
        self.functions.update(o.functions)
        self.sites |= o.sites
        self.paths += o.paths
        self.steps += o.steps
        self.notes += [x for x in o.notes if x not in self.notes]

    def absorb(self, e):
        self.functions.update(e.functions)
        self.sites |= e.callsites
        self.steps += e.steps


class Ctx:
    """The programs under analysis: one per supported runtime."""

    def __init__(self, prop, tier, features, F=None):
        self.rep = Report(prop, tier)
        self.tier = tier
        self.features = features
        self.F = F if F is not None else load_all(features)
        self.sys = {f: System(self.F[f]) for f in features}

    def run(self, rule):
        """Runs the rule for every feature, in a process of its own."""
        jobs = []
        for f in self.features:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    sub = Ctx(self.rep.prop, self.tier, (f,), self.F)
                    sub.guard(rule)
                    with os.fdopen(w, "wb") as out:
                        pickle.dump(sub.rep, out)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    os._exit(code)
            os.close(w)
            jobs.append((pid, r))
        bad = False
        for pid, r in jobs:
            with os.fdopen(r, "rb") as x:
                data = x.read()
            os.waitpid(pid, 0)
            if data:
                self.rep.merge(pickle.loads(data))
            else:
                bad = True
        if bad:
            raise RuntimeError("a part of the check failed")

    def guard(self, rule):
        try:
            rule(self)
        except Missing as e:
            self.rep.check(False, "anchors", "anchor:%s" % str(e)[:80], "not found in the program: %s" % e)
        except Limit as e:
            self.rep.check(False, "analysable", "limit:%s" % str(e)[:80], "the analysis cannot follow the program: %s" % e)


# ------------------------------------------------------------------------------------ classification

LS = "tower_lsp::LanguageServer::"


class Path:
    """One path of a call of the service, in the vocabulary of the rules."""

    def __init__(self, sys, e, st, kind, val, rid):
        self.sys, self.e, self.st, self.kind, self.val, self.rid = sys, e, st, kind, val, rid
        self.events = st.trace()
        self.returned = next((i for i, x in enumerate(self.events) if x.kind == "returned"), len(self.events))
        self.loads = [(i, x.ret) for i, x in enumerate(self.events)
                      if x.kind == "call" and strip(x.name).startswith("core::sync::atomic::Atomic::load") and "u8" in x.name]

    def possible(self, t, dom=range(5)):
        """The values that the scalar term may have on this path."""
        v = self.e.ev(self.st, t)
        if v[0] == "int":
            return {v[1]}
        ex = self.st.facts.get(("!", v), ())
        lo, hi = self.e.bounds(self.st, v)
        return {n for n in dom if n not in ex and (lo is None or n >= lo) and (hi is None or n <= hi)}

    def states(self):
        """The server states that a single-threaded observer may have found: consistent with all that the path has read, its own writes considered."""
        return {s for s in range(5) if self.runs(s, len(self.events))}

    def runs(self, s, end=None):
        """The states in which the server may be after the events before `end` (by default, those of the call itself), if nothing else
        changes it: empty if the path is not one that state `s` leads to."""
        end = self.returned if end is None else end
        cur = {s}
        for i, x in enumerate(self.events[:end]):
            n = strip(x.name) if x.kind == "call" else ""
            if not n.startswith("core::sync::atomic::Atomic::") or "u8" not in x.name or n.endswith("::new"):
                continue
            op = n.rsplit("::", 1)[-1]
            v = x.vals[1:]
            if op == "load":
                cur = cur & self.possible(x.ret)
            elif op == "store":
                cur = self.some(v[0])
            elif op == "swap":
                cur = self.some(v[0]) if cur & self.possible(x.ret) else set()
            elif op in ("compare_exchange", "compare_exchange_weak"):
                a, b, d = self.num(v[0]), self.some(v[1]), self.e.variant(self.st, x.ret)
                old = None if d is None else self.possible(self.e.payload(x.ret, d))
                nxt = set()
                for c in cur:
                    if old is not None and c not in old:
                        continue
                    if d != 1 and (a is None or a == c):
                        nxt |= b
                    if d != 0 and (a != c or op == "compare_exchange_weak"):
                        nxt.add(c)
                cur = nxt
            else:
                cur = set(range(5))
            if not cur:
                break
        return cur

    def some(self, t):
        n = self.num(t)
        return set(range(5)) if n is None else {n}

    def stores(self, tried=False):
        """Writes of the server state: (event index, kind, expected, new). An exchange that is known to have failed writes nothing (with
        `tried`, one that fails only because the state is not the expected one counts nevertheless); a weak one that is known to have
        succeeded is as good as any."""
        out = []
        for i, x in enumerate(self.events):
            n = strip(x.name) if x.kind == "call" else ""
            if not n.startswith("core::sync::atomic::Atomic::") or "u8" not in x.name:
                continue
            op = n.rsplit("::", 1)[-1]
            v = [a for a in x.vals[1:]]
            if op == "store" or op == "swap":
                out.append((i, op, None, self.num(v[0])))
            elif op in ("compare_exchange", "compare_exchange_weak"):
                d = self.e.variant(self.st, x.ret)
                if d != 1 or tried and op == "compare_exchange":
                    out.append((i, "compare_exchange" if d == 0 else op, self.num(v[0]), self.num(v[1])))
            elif op != "load" and op != "new":
                out.append((i, op, None, None))
        return out

    def num(self, t):
        v = self.e.ev(self.st, t)
        return v[1] if v[0] == "int" else None

    def calls(self, *names):
        """Events of calls whose stripped name ends with one of `names`."""
        return [(i, x) for i, x in enumerate(self.events) if x.kind == "call" and strip(x.name).endswith(names)]

    def handlers(self):
        """Calls of the user's code: methods of the `LanguageServer` trait, and custom callbacks."""
        out = []
        for i, x in enumerate(self.events):
            if x.kind != "call":
                continue
            if x.name.startswith(LS):
                out.append((i, x.name[len(LS):], x))
            elif x.name == "<dyn>" and x.args and x.args[0] == ("sym", "callback"):
                out.append((i, "<callback>", x))
        return out

    def where(self, fallback=""):
        """The last source location of the path in the crate."""
        for x in reversed(self.events):
            if x.site.startswith("src/"):
                return x.site + " (" + x.fn + ")"
        return fallback

    # The outcome, in terms of the public API.

    def outcome(self):
        """("exited",) | ("none",) | ("ok", id, result) | ("error", id, code, data) | ("panic", …) | ("other", value)"""
        if self.kind == "panic":
            return ("panic", self.val)
        if self.kind != "ret":
            return (self.kind, self.val)
        d = self.e.variant(self.st, self.val)
        if d == 1:
            x = self.e.payload(self.val, 1)
            return ("exited",) if x[0] == "adt" and x[1].endswith("::ExitedError") else ("other", self.val)
        if d != 0:
            return ("other", self.val)
        o = self.e.payload(self.val, 0)
        d = self.e.variant(self.st, o)
        if d == 0:
            return ("none",)
        if d != 1:
            return ("other", self.val)
        return self.sys.response(self.st, self.e.payload(o, 1))


def response(self, st, r):
    """Takes a response value apart with the crate's own accessors."""
    F = self.F
    e = self.engine()
    key = ("resp", r)
    R = "tower_lsp::jsonrpc::response::Response"
    s = st.fork()
    h = e.alloc(s, r)[:3] + (False,)
    one = lambda name, s, args: only([o for o in e.run(s, need(F.body(name), name), {}, args)], name)
    s, idref = one(R + "::id", s, (h,))
    rid = e.snap(s, e.deref(s, idref))
    outs = e.run(s, need(F.body(R + "::error"), R + "::error"), {}, (h,))
    outs = [o for o in outs if o[1] == "ret"]
    if len(outs) != 1:
        return ("other", r)
    s, _, eo = outs[0]
    d = e.variant(s, eo)
    if d == 0:
        s, ro = one(R + "::result", s, (h,))
        if e.variant(s, ro) != 1:
            return ("other", r)
        v = e.payload(ro, 1)
        return ("ok", rid, e.snap(s, e.deref(s, v)))
    if d != 1:
        return ("other", r)
    err_ = e.deref(s, e.payload(eo, 1))
    code, data = self.error(s, err_)
    return ("error", rid, code, data)


def only(outs, name):
    outs = [(s, v) for s, k, v in outs if k == "ret"]
    if len(outs) != 1:
        raise Limit("%d outcomes of %s" % (len(outs), name))
    return outs[0]


def error(self, st, err_):
    """The code and the data of an `Error` value (public fields)."""
    F = self.F
    adt = need(F.adts.get("tower_lsp::jsonrpc::error::Error"), "jsonrpc::Error")
    names = [f[0] for f in adt["variants"][0]["fields"]]
    code = proj(err_, ("f", names.index("code")))
    data = proj(err_, ("f", names.index("data")))
    return self.code(st, code), data


def code(self, st, c):
    e = self.engine()
    n = "tower_lsp::jsonrpc::error::ErrorCode::code"
    b = need(self.F.body(n), n)
    s = st.fork()
    args = (c,) if b.locals[1][0] != "ref" else (e.alloc(s, c)[:3] + (False,),)
    if e.variant(s, c) is None:
        return c
    s, v = only(e.run(s, b, {}, args), n)
    v = e.ev(s, v)
    return v[1] if v[0] == "int" else v


System.response, System.error, System.code = response, error, code


FINITE = ("dashmap::iter::", "alloc::vec::", "core::slice::", "std::collections::", "alloc::collections::", "core::option::", "core::array::")
HARMLESS = ("dashmap::mapref::", "AbortHandle::abort", "AbortHandle::is_aborted", "::clone", "::deref", "::next", "::into_iter", "dashmap::DashMap::remove", "dashmap::DashMap::get",
            "alloc::vec::", "core::mem::drop")


def finite_round(p):
    """Is the path a round of a loop over a collection that just visits its elements and removes or aborts them?"""
    if p.kind != "loop":
        return False
    ev = p.events
    at = max((i for i, x in enumerate(ev) if x.kind == "loop"), default=None)
    if at is None:
        return False
    inner = ev[at + 1:]
    nexts = [x for x in inner if x.kind == "call" and strip(x.name).endswith("::next")]
    if not nexts or not all(any(t in x.name for t in FINITE) for x in nexts):
        return False
    return all(x.kind == "drop" or x.kind == "call" and any(h in strip(x.name) for h in HARMLESS) for x in inner)


def service_paths(self, name, rep=None):
    """The classified paths of a request for `name` through the whole service."""
    cache = self.__dict__.setdefault("_paths", {})
    if name not in cache:
        req, rid, params = self.request(None, name)
        every = [Path(self, self.eng, s, k, v, rid) for s, k, v in self.paths(name)]
        # Rounds of a loop over what is in a collection are no outcomes: the paths that leave the loop follow them.
        rounds = self.__dict__.setdefault("_rounds", {})[name] = [p for p in every if finite_round(p)]
        out = [p for p in every if not any(p is r for r in rounds)]
        cache[name] = (out, self.eng, rid, params)
    out, e, rid, params = cache[name]
    if rep is not None:
        rep.absorb(e)
        rep.paths += len(out)
    return out, rid, params


System.service_paths = service_paths


def registered(self):
    """The names in the routing table of a service without custom methods."""
    if not hasattr(self, "svc"):
        self.make()
    names = []

    def walk(v, d=0):
        if not isinstance(v, tuple) or d > 8:
            return
        if v and v[0] == "hmap":
            names.extend(k[1] for k, _ in v[1])
            return
        for x in v:
            walk(x, d + 1)
    walk(self.svc)
    if not names:
        raise Missing("the routing table of LspService")
    return names


System.registered = registered


# ---------------------------------------------------------------------------------------- evidence

def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding: "):
                d = dict(x.split("=", 1) for x in line[9:].split(" ", 2)[:2] if "=" in x)
                d["text"] = line[9:].strip()
                out.append(d)
    return out


def finish(ctx, technique, assumptions, seed):
    rep = ctx.rep
    known = {(d.get("property"), d.get("key")): d for d in known_findings()}
    fresh = []
    for v in rep.violations:
        d = known.get((rep.prop, v["key"].replace(" ", "_")))
        if d:
            print("KNOWN-FINDING: property=%s %s" % (rep.prop, d["text"]))
        else:
            fresh.append(v)
    ev = {
        "property": rep.prop, "tier": rep.tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": technique,
            "obligations": rep.obligations, "discharged": rep.discharged,
            "rules": {k: {"instances": a, "held": b} for k, (a, b) in sorted(rep.rules.items())},
            "functions_analysed": len(rep.functions),
            "functions": sorted("%s [%s]" % (k, v) for k, v in rep.functions.items() if k.startswith(("tower_lsp", "<tower_lsp")))[:400],
            "paths": rep.paths, "blocks_analysed": rep.steps, "call_sites": len(rep.sites),
            "features": list(ctx.features), "samples": rep.samples, "notes": rep.notes,
            "violations": rep.violations, "exhaustive": True,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - rep.t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(EVID), exist_ok=True)
    with open(os.path.join(EVID, rep.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d held, %d paths, %d functions, %.1f s" %
          (rep.prop, rep.obligations, rep.discharged, rep.paths, len(rep.functions), ev["wall_s"]))
    if fresh:
        replay = os.path.join(EVID, rep.prop + ".replay.txt")
        with open(replay, "w") as f:
            for v in fresh:
                f.write("rule: %s\ninstance: %s\nwhere: %s\n%s\n\n" % (v["rule"], v["key"], v["where"], v["message"]))
        for v in fresh[:20]:
            print("  %s: %s [%s] %s" % (v["where"], v["rule"], v["key"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (rep.prop, replay))
        return 1
    return 0
