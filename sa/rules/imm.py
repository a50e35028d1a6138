"""Events to be run at once: C37."""
from .common import *
from ..machine import *
from . import netio, evloop

class Queue:
    """the queue of immediate events from process start, over every sequence of registrations, cancellations and removals with a few events queued,
    against a list ordered by priority and then by age"""
    def __init__(self, R, prios, depth, limit):
        P = R.prog
        self.R, self.prios, self.depth = R, prios, depth
        self.f = {n: P.need(n) for n in ("events_immediate_register", "events_immediate_cancel", "events_immediate_get", "events_freerec")}
        m = self.m = Machine(R, models=dict(netio.MPOOL), merge=False, inits=True, unroll_all=40)
        for n in ("events_immediate_register", "events_immediate_cancel"): m.e.cfg.models.pop(n, None)
        self.fn = [atom("param", "handler%d" % i, p=True, nn=True) for i in range(depth)]
        self.ck = [atom("param", "cookie%d" % i, p=True, nn=True) for i in range(depth)]
        self.n = {"registered": 0, "cancelled": 0, "taken": 0, "empty": 0}
        self.seen = set(); self.work = [(State(), ())]
        while self.work:
            st, tr = self.work.pop()
            q = st.aux.get("q", ())
            key = canon(st, tuple(h for s, p, h in q), tuple((s, p) for s, p, h in q))
            if key in self.seen: continue
            self.seen.add(key)
            if R.viol: break
            if len(self.seen) > limit:
                R.deferred = "too many states of the queue of immediate events"; break
            self.step(st, tr, q)
        R.used(m.e)
        R.stats["states"] = R.stats.get("states", 0) + len(self.seen)
        for k, v in self.n.items():
            if not R.viol: R.need(v, "immediate-events-" + k, 4)
    def call(self, name, args, st, tr, label):
        s = st.fork(); s.ev = None; s.path = None; self.m.e.steps = 0
        cur = " -> ".join(tr + (label,)); ab = len(self.m.aborts)
        res = self.m.call(self.f[name], args, s, label, tr)
        for t in self.m.aborts[ab:]:
            self.R.ok(False, "no-assertion-failure", cur + " " + locs(t.evs[-1]), "an assertion fails", t.st)
        for t in res:
            for e in memfaults(t.evs):
                self.R.ok(False, "memory-safe", cur + " " + locs(e), "%s of %s" % (e.name, show(e.args[0]) if e.args else ""), e.st)
            self.R.ok(True, "memory-safe", label, "")
            if isinstance(t.ret, str): self.R.ok(False, "no-exit", cur, "ends in %s" % t.ret, t.st)
        self.m.trans.clear()
        return [t for t in res if not isinstance(t.ret, str)]
    def kept(self, t, q, extra, at):
        """memory: what the queued events need, and nothing else"""
        live = [b for b, r in t.st.mem.items() if b.op == "heap" and r.freed is None and t.st.isnull(b) is not True]
        k = self.per
        if k is not None: self.R.ok(len(live) == k * len(q) + extra, "records-released", at, "%d events are queued and %d records are kept" % (len(q), len(live)), t.st)
        return len(live)
    per = None
    def step(self, st, tr, q):
        R = self.R
        if len(tr) > 12: tr = ("...",) + tr[-11:]
        free = [i for i in range(self.depth) if i not in [s for s, p, h in q]]
        if free:
            i = free[0]
            for p in self.prios:
                lab = "register(%d)" % p
                for t in self.call("events_immediate_register", [self.fn[i], self.ck[i], c(p)], st, tr, lab):
                    at = " -> ".join(t.trail)
                    if t.st.isnull(t.ret) is not True:
                        if self.per is None: self.per = len([b for b, r in t.st.mem.items() if b.op == "heap" and r.freed is None and t.st.isnull(b) is not True])
                        n = q + ((i, p, t.ret),); self.n["registered"] += 1
                        self.kept(t, n, 0, at); self.push(t, n)
                    else:
                        R.ok(internal_failure(t.evs, t.st) is not None, "registers", at, "fails without cause", t.st)
                        self.kept(t, q, 0, at); self.push(t, q)
        for k, (i, p, h) in enumerate(q):
            for t in self.call("events_immediate_cancel", [h], st, tr, "cancel(%d of %s)" % (k + 1, [x[1] for x in q])):
                self.n["cancelled"] += 1; n = q[:k] + q[k + 1:]
                self.kept(t, n, 0, " -> ".join(t.trail)); self.push(t, n)
        for t in self.call("events_immediate_get", [], st, tr, "get"):
            at = " -> ".join(t.trail)
            if t.st.isnull(t.ret) is True:
                self.n["empty"] += 1
                R.ok(not q, "every-event-runs", at, "nothing is taken from a queue of %d events" % len(q), t.st)
                self.push(t, q); continue
            b, o = base_off(t.ret)
            vals = {v for so, sz, v in mem_region(t.st, b).segs} if b is not None else set()
            who = [x for x in q if self.fn[x[0]] in vals and self.ck[x[0]] in vals]
            if not R.ok(len(who) == 1 and mem_region(t.st, b).freed is None, "only-queued-events", at, "%s is taken, which is no queued event" % show(t.ret), t.st): continue
            first = min(q, key=lambda x: x[1])
            R.ok(who[0] is first, "in-order", at, "of the priorities %s, the event number %d is taken" % ([x[1] for x in q], q.index(who[0]) + 1), t.st)
            self.n["taken"] += 1
            n = tuple(x for x in q if x is not who[0])
            for u in self.call("events_freerec", [t.ret], t.st, t.trail, "done"):
                self.kept(u, n, 0, at); self.push(u, n)
    def push(self, t, q):
        st = t.st
        if self.R.viol: return
        st.ev = None; st.aux["q"] = q
        for b in [b for b in st.mem if b.op == "param" or b.op == "heap" and st.mem[b].freed is not None]: del st.wmem()[b]
        st.wmem().pop(M.ERRNO, None)
        self.work.append((st, t.trail))

def C37(R):
    """Typestate of the queue of immediate events over every sequence of operations with a few events queued, against a list kept in order; and
    path-sensitive dataflow through the event loop: it blocks only after it found that queue empty."""
    Queue(R, (0, 5, 31), 3, 40000)
    if R.tier == "thorough": Queue(R, (0, 31), 4, 200000)
    evloop.Loop(Only(R, lambda r: r in ("waits-only-when-idle", "immediate-first", "runs-each-event", "runs-registered-handler")))
