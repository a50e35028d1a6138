"""The event loop: C21 (socket events and dispatch) and C22 (timers)."""
import itertools
from .common import *
from ..machine import *
from ..absint import Region
from . import netio, start

IN, OUT, PERR, PHUP = 1, 4, 8, 16
STATS = ("events_network_selectstats_startclock", "events_network_selectstats_stopclock", "events_network_selectstats_select")

def nothing(e, st, fr, a, ins):
    return [(st, None)]

class Net:
    """the socket table of the event loop from process start, over every sequence of registrations, cancellations, polls and deliveries of a few sockets"""
    def __init__(self, R, pairs, revs, limit):
        P = R.prog
        self.R, self.pairs, self.revs = R, pairs, revs
        self.f = {n: P.need(n) for n in ("events_network_register", "events_network_cancel", "events_network_select", "events_network_get", "events_freerec")}
        mods = dict(netio.MPOOL)
        mods.update({n: nothing for n in STATS})
        mods.update({"poll": self.poll, "atexit": start.outcome("atexit", (0, 0), (1, 1))})
        m = Machine(R, models=mods, merge=False, inits=True, unroll_mem=True)
        for n in ("events_network_register", "events_network_cancel"): m.e.cfg.models.pop(n, None)
        self.m = m
        self.fn = {(s, op): atom("param", "handler%d%s" % (s, "rw"[op]), p=True, nn=True) for s, op in pairs}
        self.ck = {(s, op): atom("param", "cookie%d%s" % (s, "rw"[op]), p=True, nn=True) for s, op in pairs}
        self.tv = atom("param", "tv", p=True); self.irq = atom("param", "interrupt", p=True, nn=True)
        self.n = {"registered": 0, "cancelled": 0, "polled": 0, "delivered": 0, "refused": 0}
        self.seen = {}
        st = State()
        self.work = [(st, ())]
        while self.work:
            st, tr = self.work.pop()
            key = canon(st, (), (st.aux.get("reg", ()), st.aux.get("ready", ()), st.aux.get("hup", ()), st.aux.get("scanned")))
            if key in self.seen: continue
            self.seen[key] = 1
            if R.viol: break
            if len(self.seen) > limit:
                R.deferred = "too many states of the socket table"; break
            self.step(st, tr)
        R.used(m.e)
        R.stats["states"] = R.stats.get("states", 0) + len(self.seen)
        for k, v in self.n.items():
            if not R.viol: R.need(v, "socket-events-" + k, 4)
    def want(self, st):
        w = {}
        for s, op in st.aux.get("reg", ()): w[s] = w.get(s, 0) | (IN, OUT)[op]
        return w
    def poll(self, e, st, fr, a, ins):
        """poll(2): what it is given, and every combination of what it may find"""
        R = self.R; at = "%s: %s" % (e.loc(fr, ins)[0].split("/repo/")[-1], " -> ".join(self.cur))
        want = self.want(st)
        n = cv(st.simp(a[1]))
        e.event(st, "call", "poll", tuple(a), None, fr, ins)
        if not R.ok(n == len(want), "table-lists-registered", at, "%s sockets are registered and %s are listed" % (len(want), show(a[1])), st): return []
        b, o = base_off(st.simp(a[0]))
        got = {}
        if n:
            M.chk_freed(e, st, b, a[0], fr, ins)
            if not R.ok(b is not None and (mem_region(st, b).size is None or st.ub(sub(add(o, c(8 * n)), mem_region(st, b).size)) <= 0), "table-lists-registered", at, "the table of %d entries is %s" % (n, show(a[0])), st): return []
            for i in range(n):
                fd = cv(st.simp(mem_read(st, b, add(o, c(8 * i)), 4, False))); ev = cv(st.simp(mem_read(st, b, add(o, c(8 * i + 4)), 2, False)))
                if fd in got: R.ok(False, "table-lists-registered", at, "socket %s is listed twice" % fd, st)
                got[fd] = ev
        R.ok(got == want, "table-lists-registered", at, "registered: %s, listed: %s" % (want, got), st)
        if got != want: return []
        self.n["polled"] += 1
        out = []
        s2 = st.fork()
        e.event(s2, "call", "poll-failed", tuple(a), c(-1), fr, ins)
        M.set_errno(s2, "poll")
        out.append((s2, c(-1)))
        fds = [cv(st.simp(mem_read(st, b, add(o, c(8 * i)), 4, False))) for i in range(n)] if n else []
        for combo in itertools.product(self.revs, repeat=n):
            s = st.fork()
            ready = []
            for i, rv in enumerate(combo):
                v = rv & (want[fds[i]] | PERR | PHUP)
                mem_write(s, b, add(o, c(8 * i + 6)), c(2), c(v))
                for op, bit in ((0, IN), (1, OUT)):
                    if want[fds[i]] & bit and v & (bit | PERR | PHUP): ready.append((fds[i], op))
            s.aux["ready"] = tuple(sorted(ready)); s.aux["hup"] = tuple(sorted(fds[i] for i, rv in enumerate(combo) if rv & (PERR | PHUP))); s.aux["polled"] = True; s.aux["table"] = b
            e.event(s, "call", "poll-returned", (), c(sum(1 for x in combo if x)), fr, ins)
            out.append((s, c(sum(1 for x in combo if x))))
        return out
    def call(self, name, args, st, tr, label):
        self.cur = tr + (label,)
        s = st.fork(); s.ev = None; s.path = None; self.m.e.steps = 0
        s.aux.pop("polled", None)
        ab = len(self.m.aborts)
        res = self.m.call(self.f[name], args, s, label, tr)
        for t in self.m.aborts[ab:]:
            self.R.ok(False, "no-assertion-failure", " -> ".join(self.cur) + " " + locs(t.evs[-1]), "an assertion fails", t.st)
        for t in res:
            for e in memfaults(t.evs):
                self.R.ok(False, "memory-safe", " -> ".join(self.cur) + " " + locs(e), "%s of %s" % (e.name, show(e.args[0]) if e.args else ""), e.st)
            self.R.ok(True, "memory-safe", label, "")
            if isinstance(t.ret, str): self.R.ok(False, "no-exit", " -> ".join(self.cur), "ends in %s" % t.ret, t.st)
        self.m.trans.clear()
        return [t for t in res if not isinstance(t.ret, str)]
    def step(self, st, tr):
        R = self.R
        if len(tr) > 12: tr = ("...",) + tr[-11:]
        reg = st.aux.get("reg", ())
        for s, op in self.pairs:
            lab = "register(%d,%s)" % (s, ("read", "write")[op])
            for t in self.call("events_network_register", [self.fn[s, op], self.ck[s, op], c(s), c(op)], st, tr, lab):
                at = " -> ".join(t.trail)
                z = t.st.iszero(t.ret)
                if (s, op) in reg:
                    R.ok(z is False, "registering-twice-fails", at, "succeeds although it is registered", t.st); self.n["refused"] += 1
                    self.push(t.st, t.trail)
                elif z is True:
                    t.st.aux["reg"] = tuple(sorted(reg + ((s, op),))); self.n["registered"] += 1
                    self.push(t.st, t.trail)
                else:
                    f = internal_failure(t.evs, t.st) or [x for x in t.evs if x.name == "atexit" and x.ret is ONE]
                    R.ok(bool(f), "registers", at, "fails (%s) without cause" % show(t.ret), t.st)
                    self.push(t.st, t.trail)
            lab = "cancel(%d,%s)" % (s, ("read", "write")[op])
            for t in self.call("events_network_cancel", [c(s), c(op)], st, tr, lab):
                at = " -> ".join(t.trail)
                z = t.st.iszero(t.ret)
                if (s, op) in reg:
                    R.ok(z is True, "cancels", at, "fails (%s)" % show(t.ret), t.st)
                    t.st.aux["reg"] = tuple(x for x in reg if x != (s, op)); self.n["cancelled"] += 1
                    t.st.aux["ready"] = tuple(x for x in st.aux.get("ready", ()) if x != (s, op))
                else:
                    f = internal_failure(t.evs, t.st)
                    R.ok(z is False, "cancels-only-registered", at, "succeeds although nothing is registered", t.st)
                self.push(t.st, t.trail)
        # the next delivery after a poll; before any poll the loop does not ask for one
        if st.aux.get("scanned"):
            for t in self.call("events_network_get", [], st, tr, "get"):
                at = " -> ".join(t.trail)
                if t.st.isnull(t.ret) is True:
                    t.st.aux["scanned"] = False
                    self.push(t.st, t.trail); continue
                b, o = base_off(t.ret)
                vals = {v for so, sz, v in mem_region(t.st, b).segs} if b is not None else set()
                who = [k for k in self.fn if self.fn[k] in vals and self.ck[k] in vals]
                if not R.ok(len(who) == 1 and mem_region(t.st, b).freed is None, "delivers-to-registered", at, "delivers %s" % show(t.ret), t.st): continue
                k = who[0]
                R.ok(k in reg, "delivers-to-registered", at, "delivers %s of socket %d, which is not registered" % (("reading", "writing")[k[1]], k[0]), t.st)
                R.ok(k in st.aux.get("ready", ()) or k[0] in st.aux.get("hup", ()), "delivers-only-ready", at, "delivers %s of socket %d, which is not ready" % (("reading", "writing")[k[1]], k[0]), t.st)
                self.n["delivered"] += 1
                t.st.aux["reg"] = tuple(x for x in reg if x != k)
                t.st.aux["ready"] = tuple(x for x in st.aux.get("ready", ()) if x != k)
                for u in self.call("events_freerec", [t.ret], t.st, t.trail, "done"): self.push(u.st, u.trail)
        for tv in ("none", "zero"):
            s = st.fork()
            if tv == "none": arg = ZERO
            else:
                arg = self.tv; s.assume(mk("eq0", self.tv), False)
                mem_write(s, self.tv, ZERO, c(8), ZERO); mem_write(s, self.tv, c(8), c(8), ZERO)
            irq = mk("interrupted", 0)
            mem_write(s, self.irq, ZERO, c(4), irq)
            for t in self.call("events_network_select", [arg, self.irq], s, tr, "poll"):
                at = " -> ".join(t.trail)
                fl = [x for x in t.evs if x.name == "poll-failed"]
                okp = [x for x in t.evs if x.name == "poll-returned"]
                z = t.st.iszero(t.ret)
                if okp:
                    R.ok(z is True, "wait-succeeds", at, "fails although the wait did not", t.st)
                    t.st.aux["scanned"] = True
                    if tv == "none": self.push(t.st, t.trail)
                elif fl:
                    E = mem_read(t.st, M.ERRNO, ZERO, 4, False)
                    k = t.st.iszero(addc(E, -4))
                    if z is True:
                        R.ok(k is True and t.st.iszero(t.st.simp(irq)) is False, "interrupted-wait-retried", at, "a failed wait is taken for a success", t.st)
                    else:
                        R.ok(k is False, "interrupted-wait-retried", at, "an interrupted wait is reported as a failure", t.st)
                else: R.ok(internal_failure(t.evs, t.st) is not None or [x for x in t.evs if x.name == "atexit" and x.ret is ONE], "waits", at, "does not wait", t.st)
        return
    def push(self, st, tr):
        st.ev = None
        for b in [b for b in st.mem if b.op == "param"]: del st.wmem()[b]
        st.wmem().pop(M.ERRNO, None)
        # what lies behind the listed entries is dead, and so is what an earlier wait found once it was scanned
        fb = st.aux.get("table")
        if fb is not None and fb in st.mem and st.mem[fb].freed is None:
            n = len(self.want(st))
            es = []
            for i in range(n):
                for o, z in ((0, 4), (4, 2), (6, 2)):
                    v = st.simp(mem_read(st, fb, c(8 * i + o), z, False)) if o < 6 or st.aux.get("scanned") else ZERO
                    es.append((c(8 * i + o), c(z), v))
            if all(cv(v) is not None for o, z, v in es):
                r = st.mem[fb]
                st.wmem()[fb] = Region(r.d, tuple(es), r.freed, r.size)
        # what nothing refers to any more
        live = set(); todo = [b for b in st.mem if b.op == "glob"]
        while todo:
            b = todo.pop()
            if b in live: continue
            live.add(b)
            if st.mem[b].freed is None: todo += [q for q in (base_off(v)[0] for o, z, v in st.mem[b].segs if isinstance(v, T) and not v.op.startswith("b.")) if q in st.mem]
        for b in [b for b in st.mem if b.op == "heap" and b not in live]: del st.wmem()[b]
        self.work.append((st, tr))

GH = atom("glob", "ghost:loop", p=True, nn=True)
CUR, RC, TV, LEFT, WAITS, IDLE = 0, 8, 16, 24, 32, 40            # record obtained; result of the last handler; wait computed
SRC = ("immediate", "network", "timer")

class Loop:
    """the dispatch loop against its sources of events: what it does with each record obtained, when it waits and when it returns"""
    def __init__(self, R):
        P = R.prog; self.R = R
        mods = dict(netio.MPOOL)
        mods.update({"events_immediate_get": self.get(1), "events_network_get": self.get(2), "events_timer_get": self.tget, "events_timer_min": self.tmin,
                     "events_network_select": self.select, "*icall": self.handler})
        m = self.m = Machine(R, models=mods, merge=False, on_store=self.store, inits=True, unroll_all=7)
        e = m.e
        F, C = self.F, self.C = atom("param", "handler", p=True, nn=True), atom("param", "hcookie", p=True)
        # how a record is laid out, and what interrupting the loop sets
        st = State()
        recs = [t for t in m.call("events_mkrec", [F, C], st, "events_mkrec") if not isinstance(t.ret, str) and t.st.isnull(t.ret) is False]
        R.need(len(recs), "record-made")
        b, o = base_off(recs[0].ret); self.lay = recs[0].st.mem[b]
        vs = [v for o, z, v in self.lay.segs]
        R.need(F in vs and C in vs, "record-holds-handler")
        st = State(); it = m.call("events_interrupt", [], st, "events_interrupt")
        self.irq = [(b, r.segs) for t in it for b, r in t.st.mem.items() if b.op == "glob" and r.segs and b is not M.ERRNO]
        R.need(len(self.irq) == 1 and len(self.irq[0][1]) == 1, "interrupt-flag")
        self.irq = (self.irq[0][0],) + self.irq[0][1][0]
        self.recs = [atom("heap", "record of " + n, 0, 0, p=True) for n in SRC]
        for r in self.recs: r.nn = True
        self.k = {"handled": 0, "waits": 0, "stopped": 0, "interrupted": 0, "done": 0}
        m.trans.clear()
        x = 1 if R.tier == "thorough" else 0
        self.events, self.waits = 3 + x, 4 + x
        self.run("events_run")
        self.events, self.waits = 2 + x, 4 + x
        self.run("events_spin")
        R.used(e)
        for k, v in self.k.items(): R.need(v, "loop-" + k)
    def g(self, st, o): return cv(st.simp(mem_read(st, GH, c(o), 8, False)))
    def s(self, st, o, v): mem_write(st, GH, c(o), c(8), c(v))
    def at(self, e, st, fr, ins): return "%s:%s in %s" % (e.loc(fr, ins)[0].split("/repo/")[-1], e.loc(fr, ins)[1], fr.fn.name)
    def idle(self, e, st, fr, ins, what):
        """before anything else is looked for, the last record was run and did not fail"""
        R = self.R; at = self.at(e, st, fr, ins)
        R.ok(self.g(st, CUR) == 0, "runs-each-event", at, "%s although an event obtained was not run" % what, st)
        R.ok(self.g(st, RC) == 0, "failure-stops-loop", at, "%s after a handler failed" % what, st)
        R.ok(self.g(st, RC) != 2, "failure-stops-loop", at, "%s after an internal failure" % what, st)
        if self.interrupted(st): R.ok(False, "interrupt-stops-loop", at, "%s after the loop was interrupted" % what, st)
    irq = None
    def interrupted(self, st): return st.iszero(mem_read(st, self.irq[0], self.irq[1], cv(self.irq[2]), False)) is False
    def store(self, e, st, base, off, size, v, fr, ins):
        if self.irq and base is self.irq[0]: st.aux["was-interrupted"] = self.interrupted(st)
    def record(self, st, i):
        r = self.recs[i]
        st.wmem()[r] = Region(self.lay.d, self.lay.segs, None, self.lay.size)
        st.assume(mk("eq0", r), False)
        self.s(st, CUR, i + 1); self.s(st, LEFT, self.g(st, LEFT) - 1)
        return r
    def get(self, i):
        def f(e, st, fr, a, ins):
            self.idle(e, st, fr, ins, "another event is taken")
            if i == 2: self.R.ok(self.g(st, IDLE) == 1, "immediate-first", self.at(e, st, fr, ins), "a socket event is taken although events to be run at once may be queued", st)
            s2 = st.fork()
            if i == 1: self.s(s2, IDLE, 1)
            e.event(s2, "call", "get", (), ZERO, fr, ins)
            if not self.g(st, LEFT): return [(s2, ZERO)]
            r = self.record(st, i - 1)
            e.event(st, "call", "get", (), r, fr, ins)
            return [(s2, ZERO), (st, r)]
        return f
    def tget(self, e, st, fr, a, ins):
        self.idle(e, st, fr, ins, "a timer is taken")
        self.R.ok(self.g(st, IDLE) == 1, "immediate-first", self.at(e, st, fr, ins), "a timer is taken although events to be run at once may be queued", st)
        b, o = base_off(st.simp(a[0]))
        s1 = st.fork(); self.s(s1, RC, 2)
        e.event(s1, "call", "timer-failed", tuple(a), c(-1), fr, ins)
        s2 = st.fork(); mem_write(s2, b, o, c(8), ZERO)
        if not self.g(st, LEFT): return [(s1, c(-1)), (s2, ZERO)]
        mem_write(st, b, o, c(8), self.record(st, 2))
        return [(s1, c(-1)), (s2, ZERO), (st, ZERO)]
    def tmin(self, e, st, fr, a, ins):
        self.idle(e, st, fr, ins, "the next timer is looked up")
        b, o = base_off(st.simp(a[0]))
        s1 = st.fork(); self.s(s1, RC, 2)
        s2 = st.fork(); mem_write(s2, b, o, c(8), ZERO); self.s(s2, TV, 1)
        t = M.new_heap(e, st, fr, ins, "timer_min", c(16), False)
        st.assume(mk("eq0", t), False)
        M.write_out(e, st, t, c(16), "timer_min", t, 0)
        mem_write(st, b, o, c(8), t); self.s(st, TV, 2)
        st.aux["tv"] = t
        return [(s1, c(-1)), (s2, ZERO), (st, ZERO)]
    def select(self, e, st, fr, a, ins):
        R = self.R; at = self.at(e, st, fr, ins)
        self.idle(e, st, fr, ins, "the loop waits")
        self.k["waits"] += 1
        if not self.g(st, WAITS): return []
        self.s(st, WAITS, self.g(st, WAITS) - 1)
        tv = st.simp(a[0]); b, o = base_off(tv)
        fresh = self.g(st, TV)
        if st.isnull(tv) is True: ok = fresh == 1
        elif fresh == 2 and tv is st.aux.get("tv"): ok = mem_region(st, b).freed is None
        else: ok = b is not None and all(st.iszero(mem_read(st, b, add(o, c(i)), 8, False)) is True for i in (0, 8))
        if b is None or not all(st.iszero(mem_read(st, b, add(o, c(i)), 8, False)) is True for i in (0, 8)):
            R.ok(self.g(st, IDLE) == 1, "waits-only-when-idle", at, "the loop may block although events to be run at once may be queued", st)
        R.ok(ok, "waits-for-next-timer", at, "the loop may block although the time to the next timer was not computed since the last event", st)
        ib, io = base_off(st.simp(a[1]))
        R.ok(ib is self.irq[0] and st.iszero(sub(io, self.irq[1])) is True, "wait-interruptible", at, "the wait is given %s" % show(a[1]), st)
        self.s(st, TV, 0)
        s1 = st.fork(); self.s(s1, RC, 2)
        e.event(s1, "call", "select-failed", tuple(a), c(-1), fr, ins)
        e.event(st, "call", "select", tuple(a), ZERO, fr, ins)
        return [(s1, c(-1)), (st, ZERO)]
    def handler(self, e, st, fr, a, ins):
        fnt, args = a[0], a[1:] if isinstance(a, (list, tuple)) else ()
        return self.run_handler(e, st, fr, fnt, args, ins)
    def run_handler(self, e, st, fr, fnt, args, ins):
        R = self.R; at = self.at(e, st, fr, ins)
        cur = self.g(st, CUR)
        R.ok(fnt is self.F and len(args) == 1 and args[0] is self.C, "runs-registered-handler", at, "calls %s(%s)" % (show(fnt), ", ".join(map(show, args))), st)
        R.ok(cur != 0, "runs-each-event", at, "a handler is called again, or for no event", st)
        self.k["handled"] += 1
        self.s(st, CUR, 0); self.s(st, TV, 0); self.s(st, IDLE, 0)
        out = []
        s1 = st.fork(); self.s(s1, RC, 1)
        out.append((s1, self.status(s1)))
        s2 = st.fork()
        mem_write(s2, self.irq[0], self.irq[1], self.irq[2], self.irq[3])
        out.append((s2, ZERO))
        s3 = st.fork()
        if self.done is not None: mem_write(s3, self.done, ZERO, c(4), ONE)
        out.append((s3, ZERO))
        if self.done is not None: out.append((st, ZERO))
        return out
    def status(self, st):
        t = atom("param", "status")
        st.assume(mk("eq0", t), False)
        return t
    def run(self, name):
        R, m = self.R, self.m
        f = R.prog.need(name); a = params(f)
        st = State()
        for o, v in ((CUR, 0), (RC, 0), (TV, 0), (LEFT, self.events), (IDLE, 0), (WAITS, self.waits)): self.s(st, o, v)
        st.wmem()[self.irq[0]] = Region(("init", 0)); mem_write(st, self.irq[0], self.irq[1], self.irq[2], ZERO)
        self.done = None
        if a:
            self.done = a[0]; st.assume(mk("eq0", a[0]), False); mem_write(st, a[0], ZERO, c(4), ZERO)
        w = where(f)
        for t in m.call(f, a, st, name):
            s = t.st
            for x in memfaults(t.evs): R.ok(False, "memory-safe", w + " " + locs(x), "%s of %s" % (x.name, show(x.args[0])), x.st)
            R.ok(True, "memory-safe", w, "")
            if t.ret == "loopback": continue
            if isinstance(t.ret, str):
                R.ok(False, "no-exit", w, "ends in %s" % t.ret, s); continue
            rc = self.g(s, RC)
            R.ok(self.g(s, CUR) == 0, "runs-each-event", w, "returns although an event obtained was not run", s)
            if rc == 1:
                self.k["stopped"] += 1
                R.ok(t.ret is atom("param", "status"), "failure-is-returned", w, "a handler failed and %s is returned" % show(t.ret), s)
            elif rc == 2:
                R.ok(s.iszero(t.ret) is False, "failure-is-returned", w, "the loop failed and %s is returned" % show(t.ret), s)
            else:
                irq = s.aux.get("was-interrupted"); done = self.done is not None and s.iszero(mem_read(s, self.done, ZERO, 4, False)) is False
                if irq: self.k["interrupted"] += 1
                if done: self.k["done"] += 1
                R.ok(s.iszero(t.ret) is True, "success-is-returned", w, "nothing failed and %s is returned" % show(t.ret), s)
                if self.done is not None: R.ok(irq or done, "spins-until-done", w, "returns although neither done nor interrupted", s)
            R.ok(s.iszero(mem_read(s, self.irq[0], self.irq[1], cv(self.irq[2]), False)) is True, "interrupt-consumed", w, "an earlier interruption would stop the next run", s)
            live = [b for b, r in s.mem.items() if b.op == "heap" and r.freed is None and s.isnull(b) is not True and (b in self.recs or "timer_min" in b.a)]
            R.ok(not live, "records-released", w, "%d objects are not released" % len(live), s)

def C21(R):
    """Typestate of the event loop's socket table over every sequence of operations on a few sockets, against the set of registrations; and path-sensitive
    dataflow through the loop's dispatch."""
    Loop(Only(R, lambda r: r not in ("immediate-first", "waits-only-when-idle")))
    Net(R, ((0, 0), (0, 1), (1, 0), (1, 1)), (0, IN | OUT), 60000)
    Net(R, ((0, 0), (0, 1), (1, 0)), (0, IN, OUT, IN | OUT, PERR, PHUP), 60000)
    if R.tier == "thorough":
        Net(R, ((0, 0), (1, 1), (2, 0)), (0, IN | OUT), 60000)
        Net(R, ((0, 0), (0, 1), (1, 0), (1, 1)), (0, IN, OUT, IN | OUT, PHUP), 60000)
