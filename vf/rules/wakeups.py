"""Rules about wake-ups: a poll that is pending has handed the waker of its caller to something that will use it."""
import re

from ..engine import *
from ..lib import *
from ..models import strip
from . import prop
from .process import named

CX = "core::task::wake::Context"
POLL_TY = "core::task::poll::Poll"
SENDER = "futures_channel::mpsc::Sender"
SENDS = ("try_send", "start_send", "start_send_unpin", "send", "feed", "send_all")

# Functions whose futures are never woken, and wakers that wake nobody.
ASLEEP = (
    (re.compile(r"(futures_util|futures_task)::.*noop_waker"), "makes a waker that wakes nobody"),
    (re.compile(r"core::task::wake::Waker::noop$"), "makes a waker that wakes nobody"),
    (re.compile(r"futures_util::async_await::pending::pending_once$"), "suspends the task without waking it"),
)


def context_param(b):
    for i in range(1, b.argc + 1):
        t = b.locals[i]
        if t[0] == "ref":
            t = t[2]
        if t[0] == "adt" and t[1] == CX:
            return i
    return None


def polls(b):
    r = b.locals[0]
    return r[0] == "adt" and r[1] == POLL_TY


def own(x, cx):
    """Does the call get the context of the caller?"""
    return any(mentions(a, cx) for a in tuple(x.args) + tuple(x.vals))


def mentions(v, t):
    if v == t:
        return True
    if not isinstance(v, tuple):
        return False
    return any(mentions(x, t) for x in v)


def refs(v):
    if not isinstance(v, tuple):
        return
    if len(v) > 1 and v[0] == "ref":
        yield v
    for x in v:
        if isinstance(x, tuple):
            yield from refs(x)


def lasting(e, st, v, d=0):
    """Is what is polled still there after the poll: reached through what the caller owns?"""
    for r in refs(v):
        if not (isinstance(r[1], tuple) and r[1]):
            continue
        if r[1][0] in ("D", "H", "S"):
            return True
        if r[1][0] == "L" and d < 6:
            try:
                x = e.read(st, r[1], r[2])
            except Exception:
                continue
            if x is not None and lasting(e, st, x, d + 1):
                return True
    return False


def woken(e, st, events, cx, x):
    """Is the poll `x` pending, with the waker of the caller, and does what it polled last?"""
    if not own(x, cx):
        return False, "has another waker"
    recv = x.args[0] if x.args else None
    plain = strip(x.name)
    last = plain.rsplit("::", 1)[-1]
    if plain.startswith(SENDER) and last in ("poll_ready", "poll_ready_unpin") and recv[0] == "ref":
        # A sender that has not sent anything is ready, or closed: each has a place in the queue of its own.
        if not any(strip(y.name).rsplit("::", 1)[-1] in SENDS and y.args and y.args[0][:3] == recv[:3] for y in events if y.kind == "call"):
            return True, ""
    # What a poll is given is a pointer; a term is one that the caller owns.
    if recv is not None and (recv[0] in ("fld", "deref", "sym") or lasting(e, st, recv)):
        return True, ""
    return False, "is gone when the poll returns"


WAKES = ("wake", "wake_by_ref", "register", "register_by_ref")


def p37_poll(rep, f, F, b):
    e = Engine(F)
    i = context_param(b)
    n = 0
    name = next((x[0] for x in b.names if x[1] == (i, ())), "arg%d" % i)
    cx = ("sym", name)
    outs = e.entry(b)
    rep.absorb(e)
    rep.paths += len(outs)
    for s, k, v in outs:
        if k != "ret":
            continue
        d = e.variant(s, v)
        if d == 0:
            continue
        n += 1
        ev = s.trace()
        asked = [x for x in ev if x.kind in ("call", "suspend") and own(x, cx)]
        why = "nothing that it polled is pending"
        ok = False
        for x in asked:
            if x.kind == "call" and strip(x.name).rsplit("::", 1)[-1] in WAKES:
                ok = True
                break
            if x.kind == "suspend":
                pend = d == 1
            else:
                r = x.ret
                if r is None:
                    continue
                pend = (d is None and mentions(v, r)) or (d == 1 and e.variant(s, r) == 1)
            if not pend:
                continue
            good, w = woken(e, s, ev, cx, x)
            if good:
                ok = True
                break
            why = "what is pending (%s) %s" % (strip(x.name).rsplit("::", 1)[-1], w)
        rep.check(ok, "a pending poll has polled something that is pending, lasts, and wakes the caller", "asleep:%s:%s" % (b.path, f),
                  "%s is pending, but %s" % (b.path, why), "%s (%s)" % (b.span, b.path))
    return n


@prop("P37", technique="path-partitioned dataflow over MIR of every function that is given a task context, with effects of the polls that it makes; query over MIR for wakers and futures that wake nobody",
      assumptions=["libraries wake what they were polled with, as documented"])
def p37(ctx):
    rep = ctx.rep
    for f in ctx.features:
        F = ctx.F[f]
        n = m = c = 0
        for b in list(F.bodies.values()):
            if not b.local:
                continue
            if context_param(b) is not None and polls(b):
                n += 1
                m += p37_poll(rep, f, F, b)
            for blk in b.blocks:
                t = blk["t"]
                if not isinstance(t, dict):
                    continue
                names = set()
                named(t, names)
                named(blk.get("s", blk.get("stmts", [])), names)
                site = "%s (%s)" % (t.get("sp", "") or b.span, b.path)
                for p in names:
                    c += 1
                    q = strip(p)
                    rep.sites.add((b.path, q, site))
                    why = next((w for r, w in ASLEEP if r.search(q)), None)
                    rep.check(why is None, "no task is polled without a waker", "noop:%s:%s:%s" % (b.path, q, f), "%s calls %s, which %s" % (b.path, q, why), site)
        rep.floor(n, 12, "functions that poll (%s)" % f)
        rep.floor(m, 5, "pending outcomes (%s)" % f)
