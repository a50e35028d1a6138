"""The graceful-shutdown helper and its use in the daemon (part of C17)."""
from .common import *
from ..machine import *

def fnof(R, t):
    if t is None or t.op != "fn": return None
    k = t.a[0]
    if ":" in k:
        src, n = k.rsplit(":", 1)
        return R.prog.mods[src].funcs.get(n)
    return R.prog.lookup(k)

def C17_graceful(R):
    init = R.prog.need("graceful_shutdown_initialize")
    begin, cookie = a = params(init)
    m = Machine(R, merge=False, inits=True)
    st = State()
    for x in a: st.assume(mk("eq0", x), False)
    ini = m.call(init, a, st, "graceful_shutdown_initialize")
    good = [t for t in ini if not isinstance(t.ret, str) and t.st.iszero(t.ret) is True]
    bad = [t for t in ini if t not in good]
    R.need(len(good), "graceful-initialised")
    at = lambda t: "graceful shutdown: " + trail(t)
    hand = None
    for t in good:
        sg = [e for e in t.evs if e.kind == "call" and e.name in ("signal", "sigaction", "__sysv_signal") and e.args[0] is c(15)]
        ae = [e for e in t.evs if e.kind == "call" and e.name == "atexit"]
        R.ok(len(sg) == 1 and fnof(R, sg[0].args[1]) is not None, "handler-installed", at(t), "%d handlers installed for SIGTERM" % len(sg), t.st)
        if sg: hand = fnof(R, sg[0].args[1])
        t.st.aux["exit"] = fnof(R, ae[0].args[0]) if ae else None
    if hand is None: return
    # the handler does nothing but record the signal
    e, ha, hres = analyse(R, hand)
    for s, r in hres:
        ev = [x for x in s.evlist() if x.kind in ("call", "icall", "mem")]
        R.ok(not ev, "handler-only-records", where(hand), "the signal handler calls %s" % [x.name for x in ev], s)
        for b, reg in s.mem.items():
            if b.op == "stk": continue
            R.ok(b.op == "glob" and b.a[0] != "errno", "handler-only-records", where(hand), "the signal handler writes %s" % show(b), s)
    def ops(st):
        o = []
        if not st.aux.get("sig"): o.append(("SIGTERM", hand, [c(15)], {"sig": 1}))
        g = R.prog.lookup("graceful_shutdown_manual")
        if g is not None and not st.aux.get("begun") and not st.aux.get("manual"): o.append(("graceful_shutdown_manual", g, [], {"sig": 1, "manual": 1}))
        x = st.aux.get("exit")
        if x is not None and not st.aux.get("exited"): o.append(("atexit", x, [], {"exited": 1}))
        return o
    n = [0]
    def stop(t):
        if isinstance(t.ret, str): return True
        if t.st.aux.get("exited"): return True
        k = len([e for e in t.evs if e.kind == "icall"])
        if k: t.st.aux["begun"] = 1
        return t.kind == "cb" and t.st.iszero(t.ret) is not True
    m.extra = lambda s: (s.aux.get("sig", 0), s.aux.get("begun", 0), s.aux.get("manual", 0))
    m.explore(good, ops, stop)
    for t in m.trans:
        st = t.st
        if isinstance(t.ret, str): continue
        calls = icalls(t.evs, begin)
        oth = [x for x in t.evs if x.kind == "icall" and x.args[0] is not begin]
        R.ok(not oth, "calls-only-begin", at(t), "calls %s" % [show(x.args[0]) for x in oth], st)
        timers = [p for p in pend(st) if p.kind == "events_timer"]
        for x in t.evs:
            if x.kind == "reg" and x.name == "events_timer":
                R.ok(period_ok(x), "check-is-periodic", at(t), "the check is scheduled after %s" % show(x.args[2]), x.st)
        if t.kind == "cb":
            n[0] += 1
            if t.pre.aux.get("sig") and not t.pre.aux.get("begun"):
                R.ok(len(calls) == 1 and calls[0].args[1] is cookie, "signal-noticed", at(t), "the check after the signal begins the shutdown %d times" % len(calls), st)
                if len(calls) == 1:
                    z = st.iszero(st.simp(calls[0].ret))
                    if z is False: R.ok(st.iszero(t.ret) is False, "begin-failure-reported", at(t), "a failure to begin the shutdown is ignored", st)
            elif not t.pre.aux.get("sig"):
                R.ok(not calls, "only-after-signal", at(t), "the shutdown begins without a signal", st)
                if st.iszero(t.ret) is not True:
                    R.ok(internal_failure(t.evs, st) is not None, "check-fails-only-internally", at(t), "the check fails without cause", st)
            else:
                R.ok(not calls, "begins-once", at(t), "the shutdown begins a second time", st)
        if t.label == "SIGTERM":
            R.ok(not calls, "handler-only-records", at(t), "the handler begins the shutdown itself", st)
        if t.label == "atexit":
            R.ok(not timers, "check-cancelled-at-exit", at(t), "a timer is left at exit", st)
        elif not st.aux.get("begun") and not calls and (t.kind == "op" or st.iszero(t.ret) is True) and t not in bad:
            R.ok(len(timers) == 1, "check-stays-scheduled", at(t), "%d checks are scheduled before the shutdown began" % len(timers), st)
    nofaults(R, m.trans, at)
    R.need(n[0], "checks-explored", 3)
    from . import opts
    opts.C17_main(R)

def period_ok(x):
    v = x.args[2]
    if v.op == "f":
        return 0 < (fnum(v) or 0) <= 60
    b, o = base_off(v)
    if b is None: return False
    s = mem_read(x.st, b, o, 8, False); u = mem_read(x.st, b, add(o, c(8)), 8, False)
    lo, hi = x.st.bounds(s); l2, h2 = x.st.bounds(u)
    return lo >= 0 and hi <= 60 and l2 >= 0 and (lo > 0 or l2 > 0)

