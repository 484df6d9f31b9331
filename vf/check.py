"""Usage: python3 -m vf.check P07 … (VERIF_SEED, VERIF_TIER)"""
import os, sys, traceback

from .facts import BuildError
from .lib import Ctx, finish
from .rules import RULES
from .rules import build, client, codec, dispatch, interface, locks, panics, process, progress, service, transport, values, wakeups, wire


def run(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    f, features, technique, assumptions = RULES[pid]
    try:
        ctx = Ctx(pid, tier, features)
    except BuildError as e:
        print("%s: /repo does not build: %s" % (pid, e))
        return 2
    ctx.run(f)
    return finish(ctx, technique, assumptions, seed)


if __name__ == "__main__":
    import gc
    gc.disable()
    rc = 0
    for a in sys.argv[1:]:
        rc = max(rc, run(a))
    sys.exit(rc)
