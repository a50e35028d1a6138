"""Timers: C22."""
from .common import *
from ..machine import *
from ..absint import Region
from . import netio, start

BASE = 500000                   # expiry times stay in [BASE, BASE + 100000), in seconds or microseconds
STEP = 10
TEN6 = 1000000

def lin_tv(st, b, o):
    """(sec, usec) of a struct timeval"""
    return st.simp(mem_read(st, b, o, 8, False)), st.simp(mem_read(st, b, add(o, c(8)), 8, False))

class Timers:
    """every sequence of operations on up to n timers, up to the order of their expiry times"""
    def __init__(self, R, n, ties, limit, us=False):
        P = R.prog; self.R, self.N, self.ties, self.us = R, n, ties, us
        mods = dict(netio.MPOOL)
        mods.update({"monoclock_get": self.clock, "atexit": start.outcome("atexit", (0, 0))})
        m = self.m = Machine(R, models=mods, merge=False, inits=True, unroll_all=40)
        for x in ("events_timer_register", "events_timer_cancel", "events_timer_reset"): m.e.cfg.models.pop(x, None)
        self.F = atom("param", "handler", p=True, nn=True)
        self.ck = [atom("param", "cookie%d" % i, p=True, nn=True) for i in range(n)] + [atom("param", "cookie-new", p=True, nn=True)]
        self.timeo, self.out = atom("param", "timeo", p=True, nn=True), atom("param", "out", p=True, nn=True)
        self.k = {"added": 0, "cancelled": 0, "postponed": 0, "fired": 0, "none-fired": 0, "minima": 0}
        st = State(); st.aux["timers"] = ()
        self.work = [(st, ())]; self.seen = {}
        while self.work:
            st, tr = self.work.pop()
            st = self.normal(st)
            key = canon(st, (), (len(st.aux["timers"]), self.handles(st)))
            if key in self.seen: continue
            self.seen[key] = 1
            if R.viol: break
            if len(self.seen) > limit:
                R.deferred = "too many states of the timer queue"; break
            self.step(st, tr)
        R.used(m.e)
        R.stats["states"] = R.stats.get("states", 0) + len(self.seen)
        for k, v in self.k.items():
            if not R.viol: R.need(v, "timers-" + k)
    def handles(self, st): return tuple(str(h.op) for h, x, q in st.aux["timers"])
    def clock(self, e, st, fr, a, ins):
        s2 = st.fork()
        e.event(s2, "call", "monoclock_get", tuple(a), c(-1), fr, ins)
        b, o = base_off(st.simp(a[0]))
        self.put(st, b, o, self.now, 1000)
        e.event(st, "call", "monoclock_get", tuple(a), ZERO, fr, ins)
        return [(s2, c(-1)), (st, ZERO)]
    def put(self, st, b, o, x, other):
        v = (c(other), c(x)) if self.us else (c(x), ZERO)
        mem_write(st, b, o, c(8), v[0]); mem_write(st, b, add(o, c(8)), c(8), v[1])
    def normal(self, st):
        """expiry times become their ranks, cookies the rank of their timer"""
        st = st.fork(); st.ev = None; st.path = None
        ts = sorted(st.aux["timers"], key=lambda t: t[1])
        xs = sorted({t[1] for t in ts}); new = {x: BASE + STEP * (i + 1) for i, x in enumerate(xs)}
        old = {c(x): c(y) for x, y in new.items()}
        ren = {q: self.ck[i] for i, (h, x, q) in enumerate(ts)}
        st.wmem().pop(M.ERRNO, None)
        for b in [b for b in st.mem if b.op == "param"]: del st.wmem()[b]
        # what an array of pointers holds behind as many as there are timers is dead
        for b, r in list(st.mem.items()):
            if b.op == "heap" and b.a[0] == "realloc" and r.freed is None:
                st.wmem()[b] = Region(r.d, tuple(x for x in r.segs if cv(x[0]) is None or cv(x[0]) < 8 * len(ts)), r.freed, r.size)
        live = set(); todo = [b for b in st.mem if b.op == "glob"] + [base_off(h)[0] for h, x, q in ts]
        while todo:
            b = todo.pop()
            if b in live or b not in st.mem: continue
            live.add(b)
            if st.mem[b].freed is None: todo += [q for q in (base_off(v)[0] for o, z, v in st.mem[b].segs if isinstance(v, T) and not v.op.startswith("b.")) if q in st.mem]
        for b in [b for b in st.mem if b.op == "heap" and b not in live]: del st.wmem()[b]
        for b, r in list(st.mem.items()):
            if r.freed is None and any(v.op.startswith("b.") for o, z, v in r.segs if isinstance(v, T)):
                # copied structures, cell by cell
                segs = []
                for o, z, v in r.segs:
                    k, n = cv(o), cv(z)
                    if not v.op.startswith("b.") or k is None or n is None or k % 8 or n % 8: segs.append((o, z, v)); continue
                    xs2 = [st.simp(mem_read(st, b, c(k + i), 8, True)) for i in range(0, n, 8)]
                    if all(cv(x) is not None or base_off(x)[0] in st.mem for x in xs2): segs += [(c(k + 8 * i), c(8), x) for i, x in enumerate(xs2)]
                    else: segs.append((o, z, v))
                r = st.wmem()[b] = Region(r.d, tuple(segs), r.freed, r.size)
            if r.freed is None and any(v in old or v in ren for o, z, v in r.segs):
                st.wmem()[b] = Region(r.d, tuple((o, z, old.get(v, ren.get(v, v))) for o, z, v in r.segs), r.freed, r.size)
        st.aux["timers"] = tuple((h, new[x], self.ck[i]) for i, (h, x, q) in enumerate(ts))
        return st
    def call(self, name, args, st, tr, label):
        R = self.R; self.cur = tr + (label,); self.m.e.steps = 0
        s = st.fork()
        ab = len(self.m.aborts)
        res = self.m.call(name, args, s, label, tr[-10:])
        at = " -> ".join(self.cur[-11:])
        for t in self.m.aborts[ab:]: R.ok(False, "no-assertion-failure", at, "an assertion fails", t.st)
        out = []
        for t in res:
            for x in memfaults(t.evs): R.ok(False, "memory-safe", at + " " + locs(x), "%s of %s" % (x.name, show(x.args[0]) if x.args else ""), x.st)
            if isinstance(t.ret, str): R.ok(False, "operations-end", at, "ends in %s" % t.ret, t.st)
            else: out.append(t)
        R.ok(True, "memory-safe", at, "")
        if any(x.kind == "loopback" for t in res for x in t.evs): R.ok(False, "operations-end", at, "a loop does not end")
        self.m.trans.clear()
        return out
    def gaps(self, n): return [BASE + STEP * i + STEP // 2 for i in range(n + 1)]
    def failed(self, t): return internal_failure(t.evs, t.st) or [x for x in t.evs if x.name == "monoclock_get" and x.ret is not ZERO]
    def step(self, st, tr):
        R = self.R; ts = st.aux["timers"]; n = len(ts); TO = 5
        name = lambda x: "%d.%d" % ((x - BASE) // STEP, (x - BASE) % STEP)
        # what one more timer does
        if n < self.N:
            for x in self.gaps(n) + ([t[1] for t in ts] if self.ties else []):
                s = st.fork(); self.now = x - TO
                self.put(s, self.timeo, ZERO, TO, 0)
                for t in self.call("events_timer_register", [self.F, self.ck[-1], self.timeo], s, tr, "register(%s)" % name(x)):
                    at = " -> ".join(t.trail)
                    if t.st.isnull(t.ret) is True:
                        R.ok(bool(self.failed(t)), "registers", at, "fails without cause", t.st)
                        if n == 0: self.push(t.st, ts, t.trail)
                        continue
                    self.k["added"] += 1
                    self.push(t.st, ts + ((t.ret, x, self.ck[-1]),), t.trail)
        for i, (h, x, q) in enumerate(ts):
            for t in self.call("events_timer_cancel", [h], st, tr, "cancel(%d)" % (i + 1)):
                self.k["cancelled"] += 1
                self.push(t.st, ts[:i] + ts[i + 1:], t.trail)
            for y in [g for g in self.gaps(n) if g > x]:
                self.now = y - TO
                for t in self.call("events_timer_reset", [h], st, tr, "reset(%d,%s)" % (i + 1, name(y))):
                    at = " -> ".join(t.trail)
                    if t.st.iszero(t.ret) is True:
                        self.k["postponed"] += 1
                        self.push(t.st, ts[:i] + ((h, y, q),) + ts[i + 1:], t.trail)
                    else: R.ok(bool(self.failed(t)), "resets", at, "fails without cause", t.st)
        for x in self.gaps(n) + [t[1] for t in ts]:
            self.now = x
            due = [t for t in ts if t[1] <= x]
            for t in self.call("events_timer_get", [self.out], st, tr, "expire(%s)" % name(x)):
                at = " -> ".join(t.trail)
                if t.st.iszero(t.ret) is not True:
                    R.ok(bool(self.failed(t)), "expiry-reported", at, "fails without cause", t.st); continue
                r = t.st.simp(mem_read(t.st, self.out, ZERO, 8, True))
                if t.st.isnull(r) is True:
                    self.k["none-fired"] += 1
                    R.ok(not [y for y in due if y[1] < x], "due-timers-fire", at, "no timer fires although %d are due" % len(due), t.st)
                    continue
                b, o = base_off(r)
                vals = {v for so, sz, v in mem_region(t.st, b).segs} if b is not None else set()
                if not R.ok(b is not None and mem_region(t.st, b).freed is None and self.F in vals, "fires-registered-timer", at, "hands out %s" % show(r), t.st): continue
                who = [i for i, y in enumerate(ts) if y[2] in vals]
                if not R.ok(len(who) == 1, "fires-registered-timer", at, "fires a timer which is not registered", t.st): continue
                i = who[0]; self.k["fired"] += 1
                R.ok(ts[i][1] <= x, "never-early", at, "timer %d of expiry %s fires at %s" % (i + 1, name(ts[i][1]), name(x)), t.st)
                for u in self.call("events_freerec", [r], t.st, t.trail, "done"): self.push(u.st, ts[:i] + ts[i + 1:], u.trail)
            for t in self.call("events_timer_min", [self.out], st, tr, "wait(%s)" % name(x)):
                at = " -> ".join(t.trail)
                if t.st.iszero(t.ret) is not True:
                    R.ok(bool(self.failed(t)), "wait-reported", at, "fails without cause", t.st); continue
                self.k["minima"] += 1
                r = t.st.simp(mem_read(t.st, self.out, ZERO, 8, True))
                if t.st.isnull(r) is True:
                    R.ok(not ts, "wait-bounded", at, "no time limit although a timer is pending", t.st); continue
                b, o = base_off(r)
                v = lin_tv(t.st, b, o)
                want = max(0, min([y[1] for y in ts], default=10 ** 9) - x)
                R.ok(cv(v[0]) is not None and cv(v[1]) is not None and 0 <= cv(v[1]) < TEN6 and 0 <= cv(v[0]) and cv(v[0]) * TEN6 + cv(v[1]) <= want * (1 if self.us else TEN6), "wait-bounded", at,
                     "waits %s s %s us with %d %s to the next timer" % (show(v[0]), show(v[1]), want, "us" if self.us else "s"), t.st)
    def push(self, st, ts, tr):
        s = st.fork(); s.aux["timers"] = tuple(ts)
        self.work.append((s, tr))

def sym_clock(lo=0):
    """monoclock_get: any well-formed time"""
    def f(e, st, fr, a, ins):
        s2 = st.fork()
        e.event(s2, "call", "monoclock_get", tuple(a), c(-1), fr, ins)
        k = st.fresh(); s_, u_ = mk("ret", "now.sec", k), mk("ret", "now.usec", k)
        st.wfacts(); st.iv[s_] = (lo, 2 ** 40); st.iv[u_] = (0, TEN6 - 1)
        b, o = base_off(st.simp(a[0]))
        mem_write(st, b, o, c(8), s_); mem_write(st, b, add(o, c(8)), c(8), u_)
        e.event(st, "call", "monoclock_get", tuple(a), ZERO, fr, ins, (s_, u_))
        return [(s2, c(-1)), (st, ZERO)]
    return f

def tv_in(st, p, name):
    s_, u_ = atom("param", name + ".sec"), atom("param", name + ".usec")
    st.wfacts(); st.iv[s_] = (0, 2 ** 40); st.iv[u_] = (0, TEN6 - 1)
    mem_write(st, p, ZERO, c(8), s_); mem_write(st, p, c(8), c(8), u_)
    return s_, u_

def total(s_, u_): return add(scale(s_, TEN6), u_)

def expiry(R):
    """the expiry time given to the queue is the time now plus the timeout, in canonical form"""
    tq = R.prog.need("timerqueue_add"); tu = R.prog.need("timerqueue_increase")
    def note(i):
        def f(e, st, fr, a, ins):
            b, o = base_off(st.simp(a[i]))
            v = lin_tv(st, b, o)
            s2 = st.fork(); e.event(s2, "call", "queued", tuple(a), ZERO, fr, ins, v)
            e.event(st, "call", "queued", tuple(a), atom("heap", "queued", 0, 0, p=True), fr, ins, v)
            st.assume(mk("eq0", atom("heap", "queued", 0, 0, p=True)), False)
            return [(s2, ZERO), (st, atom("heap", "queued", 0, 0, p=True))]
        return f
    n = 0
    mods = dict(netio.MPOOL); mods.update({"monoclock_get": sym_clock(), "atexit": start.outcome("atexit", (0, 0)), "timerqueue_add": note(1), "timerqueue_increase": note(2)})
    m = Machine(R, models=mods, merge=False)
    for x in ("events_timer_register", "events_timer_reset"): m.e.cfg.models.pop(x, None)
    F, C, TV = atom("param", "handler", p=True, nn=True), atom("param", "cookie", p=True), atom("param", "timeo", p=True, nn=True)
    st = State(); ts = tv_in(st, TV, "timeo")
    reg = m.call("events_timer_register", [F, C, TV], st, "events_timer_register")
    def judge(t, at):
        for x in memfaults(t.evs): R.ok(False, "memory-safe", at + " " + locs(x), "%s" % x.name, x.st)
        k = 0
        nows = [x.x for x in t.evs if x.name == "monoclock_get" and x.x]
        for q in [x for x in t.evs if x.name == "queued"]:
            s = q.st; k += 1
            if not R.ok(len(nows) >= 1, "expiry-is-now-plus-timeout", at, "the time is not looked up", s): continue
            R.ok(s.lb(q.x[1]) >= 0 and s.ub(q.x[1]) < TEN6, "expiry-well-formed", at, "microseconds of the expiry time in %s..%s" % s.bounds(q.x[1]), s)
            d = sub(total(*q.x), add(total(*nows[-1]), total(*ts)))
            R.ok(s.iszero(s.simp(d)) is True, "expiry-is-now-plus-timeout", at, "the expiry time is off by %s us" % show(d), s)
        return k
    for t in reg:
        if isinstance(t.ret, str): R.ok(False, "no-exit", t.label, "ends in %s" % t.ret, t.st); continue
        n += judge(t, "events_timer_register")
        if t.st.isnull(t.ret) is not False: continue
        for u in m.call("events_timer_reset", [t.ret], t.st, "events_timer_reset", t.trail):
            if isinstance(u.ret, str): R.ok(False, "no-exit", u.label, "ends in %s" % u.ret, u.st); continue
            k = judge(u, "events_timer_reset"); n += k
            R.ok((u.st.iszero(u.ret) is True) == (k > 0), "reset-reported", "events_timer_reset", "returns %s after %d updates" % (show(u.ret), k), u.st)
    R.used(m.e); R.need(n, "expiry-times", 3)

def seconds(R):
    """a timeout given in seconds as a fraction is the same time, to the microsecond"""
    m = Machine(R, models={"events_timer_register": lambda e, st, fr, a, ins: [(e.event(st, "call", "register", tuple(a), ZERO, fr, ins, lin_tv(st, *base_off(st.simp(a[2])))) and st or st, atom("heap", "t", 0, 0, p=True))]}, merge=False)
    m.e.cfg.models.pop("events_timer_register_double", None)
    f = R.prog.need("events_timer_register_double"); F, C = atom("param", "handler", p=True, nn=True), atom("param", "cookie", p=True)
    n = 0
    for x in (0.0, 0.000001, 0.25, 0.5, 0.999999, 1.0, 1.5, 4.75, 5.0, 59.999, 60.0, 86400.0, 1e9 + 0.125):
        st = State()
        for t in m.call(f, [F, C, mk("f", repr(x))], st, f.name):
            for q in [y for y in t.evs if y.name == "register"]:
                n += 1
                s_, u_ = cv(q.x[0]), cv(q.x[1])
                R.ok(s_ is not None and u_ is not None and 0 <= u_ < TEN6 and abs(s_ * TEN6 + u_ - x * TEN6) <= 1 + x * 1e-9, "seconds-converted", "events_timer_register_double(%r)" % x, "becomes %s s %s us" % (show(q.x[0]), show(q.x[1])), q.st)
    R.used(m.e); R.need(n, "seconds-converted", 10)

def waiting(R):
    """the wait handed out is what is left until the earliest timer, zero when that is over, in canonical form"""
    EX = atom("heap", "earliest", 0, 0, p=True)
    def getmin(e, st, fr, a, ins):
        s2 = st.fork(); e.event(s2, "call", "getmin", tuple(a), ZERO, fr, ins)
        ts = tv_in(st, EX, "expiry"); st.assume(mk("eq0", EX), False)
        e.event(st, "call", "getmin", tuple(a), EX, fr, ins, ts)
        return [(s2, ZERO), (st, EX)]
    m = Machine(R, models={"monoclock_get": sym_clock(), "timerqueue_getmin": getmin}, merge=False)
    f = R.prog.need("events_timer_min"); out = atom("param", "out", p=True, nn=True)
    at = where(f); n = 0
    for t in m.call(f, [out], State(), f.name):
        s = t.st
        for x in memfaults(t.evs): R.ok(False, "memory-safe", at + " " + locs(x), "%s" % x.name, x.st)
        if isinstance(t.ret, str): R.ok(False, "no-exit", at, "ends in %s" % t.ret, s); continue
        mins = [x for x in t.evs if x.name == "getmin" and x.x]; nows = [x.x for x in t.evs if x.name == "monoclock_get" and x.x]
        if s.iszero(t.ret) is not True:
            R.ok(bool(internal_failure(t.evs, s) or [x for x in t.evs if x.name == "monoclock_get" and x.x is None]), "wait-reported", at, "fails without cause", s); continue
        r = s.simp(mem_read(s, out, ZERO, 8, True))
        if not mins:
            R.ok(s.isnull(r) is True, "wait-bounded", at, "without a timer the wait is %s" % show(r), s); continue
        if not R.ok(s.isnull(r) is False and nows, "wait-bounded", at, "the wait is unlimited although a timer is pending", s): continue
        n += 1
        v = lin_tv(s, *base_off(r))
        R.ok(s.lb(v[1]) >= 0 and s.ub(v[1]) < TEN6 and s.lb(v[0]) >= 0, "wait-well-formed", at, "the wait has %s..%s us and at least %s s" % (*s.bounds(v[1]), s.lb(v[0])), s)
        d = sub(total(*mins[-1].x), total(*nows[-1]))     # what is left
        zero = s.iszero(v[0]) is True and s.iszero(v[1]) is True
        R.ok(zero or s.lb(s.simp(sub(d, total(*v)))) >= 0, "wait-bounded", at, "the wait is %s s %s us with %s us left" % (show(v[0]), show(v[1]), show(d)), s)
        if zero: R.ok(s.ub(sub(mins[-1].x[0], nows[-1][0])) <= 0, "wait-not-cut-short", at, "does not wait although time is left", s)
    R.used(m.e); R.need(n, "waits", 2)

def polling(R):
    """the wait in milliseconds given to the kernel"""
    f = R.prog.need("events_network_select"); at = where(f)
    TV, IQ = atom("param", "tv", p=True), atom("param", "interrupt", p=True, nn=True)
    n = 0
    mods = {k: (lambda e, st, fr, a, ins: [(st, None)]) for k in ("events_network_selectstats_startclock", "events_network_selectstats_stopclock", "events_network_selectstats_select")}
    mods.update({"poll": start.outcome("poll", (-1, 2 ** 20)), "atexit": start.outcome("atexit", (0, 0))})
    m = Machine(R, models=mods, merge=False)
    for null in (True, False):
        st = State(); st.assume(mk("eq0", TV), null)
        if not null: s_, u_ = tv_in(st, TV, "wait")
        for t in m.call(f, [ZERO if null else TV, IQ], st, f.name):
            for x in [x for x in t.evs if x.name == "poll"]:
                n += 1; s = x.st; w = s.simp(x.args[2])
                if null: R.ok(w is c(-1), "poll-timeout", at, "without a timer the kernel is given %s ms" % show(w), s); continue
                R.ok(s.lb(w) >= 0, "poll-timeout", at, "a limited wait becomes %s ms" % show(w), s)
                R.ok(s.ub(sub(w, scale(s_, 1000))) <= 1000, "poll-timeout", at, "the wait becomes %s ms" % show(w), s)
                R.ok(s.ub(u_) > 0 or s.lb(sub(scale(s_, 1000), w)) <= 0, "poll-timeout", at, "the wait becomes %s ms" % show(w), s)
    R.used(m.e); R.need(n, "poll-timeout", 3)

def clock(R):
    """the time comes from the monotonic clock; from another one only on a system without"""
    f = R.prog.need("monoclock_get"); at = where(f); TV = params(f)[0]
    def gettime(e, st, fr, a, ins):
        s2 = st.fork(); e.event(s2, "call", "clock_gettime", tuple(a), c(-1), fr, ins); M.set_errno(s2, "clock_gettime")
        k = st.fresh(); s_, n_ = mk("ret", "tp.sec", k), mk("ret", "tp.nsec", k)
        st.wfacts(); st.iv[s_] = (0, 2 ** 40); st.iv[n_] = (0, 10 ** 9 - 1)
        b, o = base_off(st.simp(a[1]))
        mem_write(st, b, o, c(8), s_); mem_write(st, b, add(o, c(8)), c(8), n_)
        e.event(st, "call", "clock_gettime", tuple(a), ZERO, fr, ins, (s_, n_))
        return [(s2, c(-1)), (st, ZERO)]
    st = State(); st.assume(mk("eq0", TV), False)
    e, a, res = analyse(R, f, [TV], st, {"clock_gettime": gettime}, merge=False)
    n = 0
    for s, r in res:
        if isinstance(r, str): R.ok(False, "no-exit", at, "ends in %s" % r, s); continue
        cs = [x for x in s.evlist() if x.name == "clock_gettime"]
        good = [x for x in cs if x.x]
        if s.iszero(r) is not True:
            R.ok(len(good) < len(cs), "clock-failure", at, "fails although the clock was read", s); continue
        if not R.ok(bool(good), "monotonic-clock", at, "succeeds without a time", s): continue
        n += 1
        x = good[-1]; k = cv(x.args[0])
        if k not in (1, 4, 6, 7):
            miss = [y for y in cs if not y.x and cv(y.args[0]) in (1, 4, 6, 7)]
            E = mem_read(x.st, M.ERRNO, ZERO, 4, False)
            R.ok(bool(miss) and any(x.st.iszero(addc(E, -v)) is True for v in (38, 22)), "monotonic-clock", at, "the time comes from clock %s" % k, s)
        v = lin_tv(s, TV, ZERO)
        R.ok(s.iszero(sub(v[0], x.x[0])) is True, "clock-value", at, "seconds are %s" % show(v[0]), s)
        R.ok(s.lb(v[1]) >= 0 and s.ub(v[1]) < TEN6 and v[1].op in ("udiv", "sdiv") and v[1].a[0] is x.x[1] and cv(v[1].a[1]) == 1000, "clock-value", at, "microseconds are %s" % show(v[1]), s)
    R.need(n, "clock-read")

def C22(R):
    """Typestate of the timer queue over every sequence of operations on a few timers, up to the order of their expiry times, against the list of pending
    timers; and value analysis of the time arithmetic."""
    clock(R); expiry(R); seconds(R); waiting(R); polling(R)
    Timers(R, 4, True, 20000)
    Timers(R, 4, False, 20000, us=True)
    Timers(R, 8 if R.tier == "thorough" else 7, False, 20000)
