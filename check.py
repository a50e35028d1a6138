#!/usr/bin/env python3
"""Decide one property from /repo's current source:  check.py C01 [--thorough]"""
import importlib, os, signal, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.report import R, finish
from sa.ir import Broken
from sa.rules import TABLE

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    mod, fn = TABLE[prop]
    r = R(prop, tier, seed)
    m = importlib.import_module("sa.rules." + mod)
    f = getattr(m, fn)
    broken = None
    t0 = time.time()
    def tick(*_):
        # what was found is reported in time; an analysis that does not end has no answer
        if r.viol and time.time() - t0 > 100: raise Broken("stopped after finding violations")
        if time.time() - t0 > 800: raise Broken("out of time")
    signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, 10, 10)
    try:
        f(r)
        broken = r.deferred
    except Broken as e:
        broken = str(e)
    except RecursionError:
        broken = "recursion limit"
    except Exception:
        broken = "internal error: " + traceback.format_exc()[-1500:]
    signal.setitimer(signal.ITIMER_REAL, 0)
    sys.exit(finish(r, (f.__doc__ or prop).strip(), broken))

if __name__ == "__main__":
    main()
