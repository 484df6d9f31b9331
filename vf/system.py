"""The language server as a whole: what the registration code builds, and what each method does."""
from .engine import *
from . import models
from .models import strip

SVC_CALL = "tower_service::Service"
REQUEST = "tower_lsp::jsonrpc::request::Request"
RESPONSE = "tower_lsp::jsonrpc::response::Response"


class Missing(Exception):
    """Something a rule is anchored at is not in the program."""


def need(x, what):
    if not x:
        raise Missing(what)
    return x


class System:
    def __init__(self, F, **kw):
        self.F = F
        self.kw = kw

    def engine(self, **kw):
        e = Engine(self.F, **{**self.kw, **kw})
        e.atomic_max = 4
        return e

    def service_impl(self, adt, method):
        """The body of `<adt as Service<Request>>::method`."""
        for i in self.F.impls_by_trait.get(SVC_CALL, ()):
            if i["self"][0] == "adt" and i["self"][1] == adt:
                return self.F.bodies.get(i["items"][method]["key"])
        raise Missing("Service<Request> for %s" % adt)

    def build(self):
        """`LspService::build(init).finish()`: the service, its socket and the state of the heap."""
        F = self.F
        b = need(F.body("tower_lsp::service::LspService::<S>::build"), "LspService::build")
        fin = need(F.body("tower_lsp::service::LspServiceBuilder::<S>::finish"), "LspServiceBuilder::finish")
        e = self.engine()
        st = State()
        outs = e.run(st, b, {}, (("sym", "init"),))
        outs = [o for o in outs if o[1] == "ret"]
        if len(outs) != 1:
            raise Limit("%d outcomes of LspService::build" % len(outs))
        self.builder_state, self.builder = outs[0][0], outs[0][2]
        self.eng = e
        return self.builder_state, self.builder

    def accessor(self, adt, name):
        """The index of the field of `adt` that its public accessor reads."""
        b = need(self.F.body("%s::%s" % (adt, name)), "%s::%s" % (adt, name))
        e = self.engine()
        idx = set()
        for s, k, v in e.entry(b, names=["self"]):
            if k != "ret":
                continue
            base = ("deref", ("sym", "self"))
            find_fields(e.snap(s, v, 4), base, idx)
            if v[0] == "ref" and v[1] == ("D", ("sym", "self")) and v[2]:
                idx.add(v[2][0][1])
            for f in s.facts:
                for t in f[1:]:
                    find_fields(t, base, idx)
        if len(idx) != 1:
            raise Missing("field read by %s::%s" % (adt, name))
        return idx.pop()

    def request(self, st, name):
        """A symbolic request for the method `name`, and the terms of its id and its params."""
        if not hasattr(self, "_req"):
            self._req = [self.accessor(REQUEST, x) for x in ("method", "id", "params")]
        m, i, p = self._req
        req = ("sym", "req")
        box = e_static(name)
        v = ("upd", req, ((("f", m), ("adt", "alloc::borrow::Cow", 0, (box,))),)) if name is not None else req
        return v, ("fld", req, i), ("fld", req, p)

    def paths(self, name, st=None, svc=None):
        """All paths of a call of the service with a request for the method `name`."""
        if not hasattr(self, "svc"):
            self.make()
        e = self.engine()
        self.eng = e
        st = self.svc_state.fork()
        st.events, st.facts = None, dict(st.facts)
        r = self.svc_ref
        req, rid, params = self.request(st, name)
        b = self.service_impl("tower_lsp::service::LspService", "call")
        out = []
        for s, k, v in e.run(st, b, {}, (r, req)):
            if k != "ret":
                out.append((s, k, v))
                continue
            s.log(Event("returned", b.path, (v,), (v,), v))
            out.extend(e.drive(s, v, {"sp": b.span}, b))
        return out

    def make(self):
        st, builder = self.build()
        fin = need(self.F.body("tower_lsp::service::LspServiceBuilder::<S>::finish"), "LspServiceBuilder::finish")
        e = self.engine()
        outs = [o for o in e.run(st.fork(), fin, {}, (builder,)) if o[1] == "ret"]
        if len(outs) != 1 or outs[0][2][0] != "tuple":
            raise Limit("outcomes of LspServiceBuilder::finish")
        s, _, v = outs[0]
        self.svc_state = s
        self.svc, self.socket = v[1]
        self.svc_ref = e.alloc(s, self.svc)


def e_static(name):
    return ("str", name)


def find_fields(t, base, out):
    if not isinstance(t, tuple) or not t:
        return
    if t[0] == "fld" and t[1] == base:
        out.add(t[2])
        return
    if t[0] == "ref" and t[1][0] == "D" and t[2] and ("deref", t[1][1]) == base:
        out.add(t[2][0][1])
        return
    for x in t:
        find_fields(x, base, out)
