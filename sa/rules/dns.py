"""The name-lookup thread: C23."""
from .common import *
from ..machine import *
from ..absint import Region
from . import start

GH = atom("glob", "ghost:lookup", p=True, nn=True)
HELD, BUSY, SIG, CRE = 0, 8, 16, 24      # lock held; a lookup's result is not yet handed over; completions signalled; the other thread runs
RESULT = 32
UNSAFE = {"gethostbyname", "gethostbyaddr", "gethostbyname2", "getservbyname", "getservbyport", "getprotobyname", "strtok", "inet_ntoa", "localtime", "gmtime", "ctime", "asctime",
          "rand", "srand", "setlocale", "setenv", "putenv", "unsetenv", "getpwnam", "getpwuid", "getgrnam", "readdir", "crypt", "ttyname", "hcreate", "res_init"}

class Dns:
    def __init__(self, R):
        self.R = R; P = R.prog
        self.acc = []                   # (side, field offset, size or None, write, held, place, state)
        self.side = None; self.T = None
        ok = lambda n: start.outcome(n, (0, 0), (1, 200))
        mods = {"pthread_mutex_lock": self.lock, "pthread_mutex_unlock": self.unlock, "pthread_cond_wait": self.wait, "pthread_cond_timedwait": self.wait, "pthread_mutex_init": ok("pthread_mutex_init"),
                "pthread_mutex_destroy": self.destroy, "pthread_cond_init": ok("pthread_cond_init"), "pthread_cond_destroy": ok("pthread_cond_destroy"),
                "pthread_cond_signal": ok("pthread_cond_signal"), "pthread_cond_broadcast": ok("pthread_cond_signal"), "pthread_join": self.join, "pthread_detach": ok("pthread_detach"),
                "pthread_create": self.create, "sock_resolve": self.resolve, "noeintr_write": self.sendbyte, "write": self.sendbyte, "send": self.sendbyte, "read": self.getbyte, "recv": self.getbyte,
                "close": start.m_close_retry, "socketpair": self.pair, "*icall": self.icall, "exit": self.exit, "_exit": self.exit}
        m = self.m = Machine(R, models=mods, merge=False, unroll_all=3, memevents=True, on_load=self.load, on_store=self.store)
        for n in ("dnsthread_spawn", "dnsthread_resolveone", "dnsthread_kill", "dnsthread_resolve"): m.e.cfg.models.pop(n, None)
        self.n = {"locks": 0, "waits": 0, "lookups": 0, "completions": 0, "callbacks": 0}
        self.fixed = {}                 # cells set once before the thread exists
        self.nshared = 0
    # ---- ghost state
    def g(self, st, o): return cv(st.simp(mem_read(st, GH, c(o), 8, False)))
    def s(self, st, o, v): mem_write(st, GH, c(o), c(8), v if isinstance(v, T) else c(v))
    def ghost(self, st):
        for o in (HELD, BUSY, SIG, CRE, RESULT): self.s(st, o, 0)
    def at(self, e, st, fr, ins): return "%s:%s in %s" % (e.loc(fr, ins)[0].split("/repo/")[-1], e.loc(fr, ins)[1], fr.fn.name)
    def exit(self, e, st, fr, a, ins):
        e.event(st, "call", "exit", tuple(a), None, fr, ins)
        return []
    # ---- shared accesses
    def note(self, e, st, base, off, size, write, fr, ins):
        if base is not self.T or self.side is None: return
        if self.side == "spawn" and not self.g(st, CRE): return
        o = cv(st.simp(off)); n = cv(size) if isinstance(size, T) else size
        self.acc.append((self.side, o, n, write, self.g(st, HELD), self.at(e, st, fr, ins), st))
    def load(self, e, st, base, off, size, fr, ins): self.note(e, st, base, off, size, False, fr, ins)
    def store(self, e, st, base, off, size, v, fr, ins):
        if base is self.T and self.side == "worker" and self.so is not None and cv(st.simp(off)) == self.so:
            x = mem_read(st, base, c(self.so), 4, False)
            self.R.ok(st.iszero(addc(x, -self.k2)) is False or st.simp(v) is c(self.k2), "stop-not-forgotten", self.at(e, st, fr, ins), "the thread's state is overwritten although it may have been told to stop", st)
        self.note(e, st, base, off, size, True, fr, ins)
    def foreign(self, e, st):
        """what the other thread may have done while the lock was not held"""
        if self.T is None or self.T not in st.mem and self.side == "spawn" or self.alone: return
        r = mem_region(st, self.T)
        if r.freed is not None: return
        k = st.fresh()
        keep = [x for x in r.segs if cv(x[0]) is not None and any(o <= cv(x[0]) < o + n for o, n in self.fixed.items())]
        st.wmem()[self.T] = Region(("init", ("shared", k)), tuple(keep), r.freed, r.size)
        for o, n in self.fixed.items():
            if not any(cv(x[0]) == o for x in keep):
                mem_write(st, self.T, c(o), c(n), atom("param", "field%d" % o))
        if self.states:
            x = mk("shared-state", k)
            st.wfacts(); st.iv[x] = (min(self.states), max(self.states))
            mem_write(st, self.T, c(self.so), c(4), x)
    states = None; alone = False
    def lock(self, e, st, fr, a, ins):
        R = self.R; at = self.at(e, st, fr, ins)
        R.ok(self.g(st, HELD) == 0, "lock-balanced", at, "the lock is taken while it is held", st)
        R.ok(self.mutex(st, a[0]), "one-lock", at, "%s is locked" % show(a[0]), st)
        self.n["locks"] += 1
        s2 = st.fork(); e.event(s2, "call", "pthread_mutex_lock", tuple(a), ONE, fr, ins)
        self.s(st, HELD, 1); self.foreign(e, st)
        e.event(st, "call", "pthread_mutex_lock", tuple(a), ZERO, fr, ins)
        return [(s2, c(35)), (st, ZERO)]
    mo = None
    def mutex(self, st, p):
        b, o = base_off(st.simp(p))
        if b is not self.T: return False
        if self.mo is None: self.mo = cv(o)
        return cv(o) == self.mo
    def release(self, e, st, fr, ins, what):
        R = self.R; at = self.at(e, st, fr, ins)
        R.ok(self.g(st, HELD) == 1, "lock-balanced", at, "%s although the lock is not held" % what, st)
        if self.side == "worker" and self.g(st, BUSY):
            if self.g(st, SIG): self.handed(st, at)
    def handed(self, st, at):
        """the completion is out: the result must be there and the thread must be ready for the next request"""
        R = self.R
        R.ok(self.g(st, SIG) == 1, "signals-once", at, "a completion is signalled %s times" % self.g(st, SIG), st)
        want = mem_read(st, GH, c(RESULT), 8, True); have = st.simp(mem_read(st, self.T, c(self.ro), 8, True))
        R.ok(have is st.simp(want), "result-before-signal", at, "the completion is signalled and the result read by the other side is %s" % show(have), st)
        if st.isnull(want) is True:
            E = [st.simp(mem_read(st, self.T, c(o), 4, False)) for o in self.eos]
            R.ok(not E or any(x.op == "lookup-errno" and x.a == (want.a[-1],) for x in E), "result-before-signal", at, "the completion is signalled and the reason of the failure is not stored", st)
        if self.g(st, HELD) == 1:
            x = mem_read(st, self.T, c(self.so), 4, False)
            R.ok(st.iszero(addc(x, -self.k1)) is False, "ready-after-completion", at, "the completion is signalled and the thread still counts as busy", st)
        self.s(st, BUSY, 0); self.s(st, SIG, 0); self.n["completions"] += 1
    def unlock(self, e, st, fr, a, ins):
        self.R.ok(self.mutex(st, a[0]), "one-lock", self.at(e, st, fr, ins), "%s is unlocked" % show(a[0]), st)
        self.release(e, st, fr, ins, "unlocks")
        s2 = st.fork(); self.s(s2, HELD, 2); e.event(s2, "call", "pthread_mutex_unlock", tuple(a), ONE, fr, ins)
        e.event(st, "call", "pthread_mutex_unlock", tuple(a), ZERO, fr, ins)
        self.s(st, HELD, 0)
        return [(s2, ONE), (st, ZERO)]
    def wait(self, e, st, fr, a, ins):
        at = self.at(e, st, fr, ins)
        self.R.ok(self.mutex(st, a[1]), "one-lock", at, "waits with %s" % show(a[1]), st)
        self.release(e, st, fr, ins, "waits")
        if self.side == "worker":
            self.R.ok(not self.g(st, BUSY), "lookup-reported", at, "waits for the next request although the last lookup was not reported", st)
            if self.so is not None:
                x = mem_read(st, self.T, c(self.so), 4, False)
                self.R.ok(st.iszero(addc(x, -self.k0)) is True, "waits-only-idle", at, "waits although there may be something to do", st)
        self.n["waits"] += 1
        s2 = st.fork(); e.event(s2, "call", "pthread_cond_wait", tuple(a), ONE, fr, ins)
        self.foreign(e, st)
        e.event(st, "call", "pthread_cond_wait", tuple(a), ZERO, fr, ins)
        return [(s2, ONE), (st, ZERO)]
    so = ro = None; eos = ()
    def destroy(self, e, st, fr, a, ins):
        if self.side == "worker": self.R.ok(self.g(st, HELD) == 0, "lock-balanced", self.at(e, st, fr, ins), "the lock is destroyed while it is held", st)
        s2 = st.fork(); e.event(s2, "call", "pthread_mutex_destroy", tuple(a), ONE, fr, ins)
        e.event(st, "call", "pthread_mutex_destroy", tuple(a), ZERO, fr, ins)
        return [(s2, ONE), (st, ZERO)]
    def join(self, e, st, fr, a, ins):
        self.R.ok(self.g(st, HELD) != 1, "lock-not-held", self.at(e, st, fr, ins), "waits for the thread with the lock held", st)
        s2 = st.fork(); e.event(s2, "call", "pthread_join", tuple(a), ONE, fr, ins)
        e.event(st, "call", "pthread_join", tuple(a), ZERO, fr, ins)
        return [(s2, ONE), (st, ZERO)]
    def create(self, e, st, fr, a, ins):
        s2 = st.fork(); e.event(s2, "call", "pthread_create", tuple(a), ONE, fr, ins)
        b, o = base_off(st.simp(a[0]))
        if b is not None: mem_write(st, b, o, c(8), mk("thread", st.fresh()))
        e.event(st, "call", "pthread_create", tuple(a), ZERO, fr, ins)
        self.s(st, CRE, 1)
        return [(s2, c(11)), (st, ZERO)]
    def pair(self, e, st, fr, a, ins):
        s2 = st.fork(); e.event(s2, "call", "socketpair", tuple(a), c(-1), fr, ins); M.set_errno(s2, "socketpair")
        b, o = base_off(st.simp(a[3]))
        for i in (0, 1):
            t = mk("wakefd", i); st.wfacts(); st.iv[t] = (0, 2 ** 31 - 1)
            mem_write(st, b, add(o, c(4 * i)), c(4), t)
        e.event(st, "call", "socketpair", tuple(a), ZERO, fr, ins)
        return [(s2, c(-1)), (st, ZERO)]
    # ---- the worker's lookups
    def resolve(self, e, st, fr, a, ins):
        R = self.R; at = self.at(e, st, fr, ins)
        R.ok(self.g(st, HELD) == 0, "lock-not-held", at, "looks up with the lock held", st)
        if self.side == "worker":
            R.ok(not self.g(st, BUSY), "lookup-reported", at, "looks up again although the last lookup was not reported", st)
            x = mem_read(st, self.T, c(self.so), 4, False)
            R.ok(st.iszero(addc(x, -self.k0)) is False and st.iszero(addc(x, -self.k2)) is False, "condition-rechecked", at, "looks up although nothing may have been requested", st)
            ad = st.simp(mem_read(st, self.T, c(self.ao), 8, True))
            R.ok(st.simp(a[0]) is ad, "looks-up-requested", at, "looks up %s" % show(a[0]), st)
            self.n["lookups"] += 1
        k = st.fresh()
        t = atom("heap", "sock_resolve", k, p=True)
        s2 = st.fork()
        s2.assume(mk("eq0", t), True); st.assume(mk("eq0", t), False)
        for s in (st, s2):
            mem_write(s, M.ERRNO, ZERO, c(4), mk("lookup-errno", k)) if s is s2 else None
            e.event(s, "call", "sock_resolve", tuple(a), t, fr, ins)
            self.s(s, BUSY, 1); self.s(s, SIG, 0); mem_write(s, GH, c(RESULT), c(8), t)
        return [(s2, t), (st, t)]
    def sendbyte(self, e, st, fr, a, ins):
        R = self.R; at = self.at(e, st, fr, ins)
        n = st.simp(a[2])
        s2 = st.fork(); e.event(s2, "call", "signal-failed", tuple(a), c(-1), fr, ins); M.set_errno(s2, "write")
        if self.side == "worker":
            R.ok(st.simp(a[0]) is self.wake(0), "signals-other-side", at, "writes to %s" % show(a[0]), st)
            R.ok(n is ONE, "signals-once", at, "writes %s bytes" % show(n), st)
            R.ok(self.g(st, BUSY) == 1, "signals-once", at, "signals a completion although no lookup was made", st)
            self.s(st, SIG, (self.g(st, SIG) or 0) + 1)
            if self.g(st, HELD) != 1 and self.g(st, BUSY): self.handed(st, at)
        e.event(st, "call", "signal", tuple(a), n, fr, ins)
        return [(s2, c(-1)), (st, n)]
    def wake(self, i): return mk("wakefd", i)
    def getbyte(self, e, st, fr, a, ins):
        out = []
        for v in (-1, 0):
            s2 = st.fork(); e.event(s2, "call", "byte-missing", tuple(a), c(v), fr, ins); M.set_errno(s2, "read"); out.append((s2, c(v)))
        e.event(st, "call", "byte", tuple(a), ONE, fr, ins)
        return out + [(st, ONE)]
    def icall(self, e, st, fr, a, ins):
        self.R.ok(self.g(st, HELD) == 0, "lock-not-held", self.at(e, st, fr, ins), "calls back with the lock held", st)
        e.event(st, "icall", "icall", tuple(a), None, fr, ins)
        r = mk("ret", "icall", st.fresh())
        if mem_region(st, GH).segs: self.foreign(e, st)
        return [(st, r)]
    # ---- the parts
    def run(self, name, args, st, side, fn=None):
        self.side = side
        if side != "spawn": self.ghost(st)
        self.m.e.steps = 0
        out = []
        for t in self.m.call(fn or name, args, st, name):
            for x in memfaults(t.evs): self.R.ok(False, "memory-safe", "%s %s" % (name, locs(x)), "%s of %s" % (x.name, show(x.args[0]) if x.args else ""), x.st)
            if t.ret == "loopback": continue
            if isinstance(t.ret, str): self.R.ok(False, "no-assertion-failure", name, "ends in %s" % t.ret, t.st); continue
            h = self.g(t.st, HELD)
            self.R.ok(h != 1, "lock-balanced", name, "returns %s with the lock held" % (show(t.ret) if t.ret is not None else ""), t.st)
            out.append(t)
        self.R.ok(True, "memory-safe", name, "")
        return out
    def ev(self, t, *names): return [x for x in t.evs if x.kind in ("call", "reg") and x.name in names]

def C23(R):
    """Lock-set and critical-section analysis of the two threads: every shared cell's accesses and the lock held at each, every critical section of either
    thread from an arbitrary state left by the other, and the ownership of the request, the result and the shared state."""
    D = Dns(R); P = R.prog
    # the thread is made
    st = State(); D.ghost(st); D.side = "spawn"
    spawn = P.need("dnsthread_spawn")
    # the shared object is the one handed to the thread
    def create(e, st, fr, a, ins):
        D.T = base_off(st.simp(a[3]))[0]
        D.worker = st.simp(a[2])
        return Dns.create(D, e, st, fr, a, ins)
    pre = Machine(R, models=dict(D.m.e.cfg.models, pthread_create=create, pthread_mutex_lock=start.outcome("pthread_mutex_lock", (0, 0), (1, 200)), pthread_mutex_unlock=start.outcome("pthread_mutex_unlock", (0, 0), (1, 200)),
                                 pthread_mutex_destroy=start.outcome("pthread_mutex_destroy", (0, 0), (1, 200))), merge=False)
    D.side = None
    res = [t for t in pre.call(spawn, [], st, "dnsthread_spawn") if not isinstance(t.ret, str)]
    good = [t for t in res if t.st.isnull(t.ret) is False]
    R.need(len(good), "thread-made")
    t = good[0]
    if not R.ok(D.T is not None and base_off(t.ret)[0] is D.T, "thread-gets-object", where(spawn), "the thread is given %s and the caller %s" % (show(D.T), show(t.ret)), t.st): return
    T0 = D.T0 = t.st.mem[D.T]
    wf = m_cbfunc(R, D.worker)
    R.need(wf is not None, "thread-function")
    # which cells are set up once: those neither side's other code writes
    ALL = {"resolveone": P.need("dnsthread_resolveone"), "kill": P.need("dnsthread_kill")}
    # the request: what its fields are
    def fresh_T():
        s = State()
        D.T = atom("param", "T", p=True, nn=True)
        s.wmem()[D.T] = Region(("init", 0))
        for i in (0, 1):
            w = mk("wakefd", i); s.wfacts(); s.iv[w] = (0, 2 ** 31 - 1)
        for o, z, v in T0.segs:
            if v in (mk("wakefd", 0), mk("wakefd", 1)):
                mem_write(s, D.T, o, z, v); D.fixed[cv(o)] = cv(z)
        return s
    D.mo = None
    s = fresh_T()
    R.need(len(D.fixed), "wake-up sockets", 2)
    AD, CB, CK = atom("param", "addr", p=True, nn=True), atom("param", "callback", p=True, nn=True), atom("param", "cookie", p=True)
    req = D.run("dnsthread_resolveone", [D.T, AD, CB, CK], s, "main")
    done = [t for t in req if t.st.iszero(t.ret) is True and D.ev(t, "strdup", "malloc")]
    R.need(len(done), "request-made")
    def cells(t): return {cv(o): v for o, z, v in t.st.mem[D.T].segs if cv(o) is not None}
    x = cells(done[0])
    dup = D.ev(done[0], "strdup", "malloc")[0].ret
    D.ao = next((o for o, v in x.items() if v is dup), None); co = next((o for o, v in x.items() if v is CB), None); ko = next((o for o, v in x.items() if v is CK), None)
    if not R.ok(D.ao is not None and co is not None and ko is not None, "request-complete", where(ALL["resolveone"]), "a request leaves the %s unrecorded" % ", ".join(n for n, v in (("address", D.ao), ("callback", co), ("cookie", ko)) if v is None), done[0].st): return
    kill = D.run("dnsthread_kill", [D.T], fresh_T(), "main")
    ks = [cells(t) for t in kill if t.st.iszero(t.ret) is True]
    R.need(len(ks), "kill")
    so = [o for o, v in x.items() if cv(v) is not None and o not in D.fixed and any(cv(y.get(o, ONE)) is not None and o in y for y in ks) and any(cv(o2) == o and cv(v2) is not None for o2, z2, v2 in T0.segs)]
    R.need(len(so) == 1, "thread-state")
    D.so = so[0]; D.k1 = cv(x[D.so]); D.k2 = next(cv(y[D.so]) for y in ks if D.so in y); D.k0 = next(cv(v) for o, z, v in T0.segs if cv(o) == D.so)
    R.ok(len({D.k0, D.k1, D.k2}) == 3, "states-distinct", where(spawn), "idle, busy and stopping are %s, %s, %s" % (D.k0, D.k1, D.k2))
    D.states = (D.k0, D.k1, D.k2)
    # what the completion hands to the callback
    regs = [p for t in done for p in pend(t.st)]
    R.need(len(regs), "completion-registered")
    cbf = D.m.cbfunc(regs[0].cb)
    D.acc.clear()
    comp = D.run(cbf.name, [D.T], fresh_T(), "main", fn=cbf)
    for t in comp:
        for y in [y for y in t.evs if y.kind == "icall"]:
            v = y.st.simp(y.args[2]) if len(y.args) > 2 else None
            if v is not None and v.op == "ld" and v.a[0] is D.T: D.ro = cv(v.a[2])
            v = y.st.simp(mem_read(y.st, M.ERRNO, ZERO, 4, False))
            if v.op == "ld" and v.a[0] is D.T: D.eos = (cv(v.a[2]),)
    if not R.ok(D.ro is not None, "calls-back-with-own-result", where(cbf), "no completion hands over the stored result"): return
    D.acc.clear()
    # ---- all parts, with every shared state the other side may have left
    at = where(ALL["resolveone"])
    nreq = nbusy = 0
    for t in D.run("dnsthread_resolveone", [D.T, AD, CB, CK], fresh_T(), "main"):
        s = t.st; pd = pend(s)
        lk = [x for x in D.ev(t, "pthread_mutex_lock") if x.ret is ZERO]
        un = [x for x in D.ev(t, "pthread_mutex_unlock")]
        unfail = [x for x in un if x.ret is not ZERO]
        if s.iszero(t.ret) is True:
            wr = D.ev(t, "strdup", "malloc", "events_network", "pthread_cond_signal")
            y = {cv(o): v for o, z, v in un[-1].st.mem[D.T].segs} if un else {}
            if wr:
                nreq += 1
                R.ok(y.get(D.so) is c(D.k1), "request-complete", at, "the state is left as %s" % show(y.get(D.so, ZERO)), s)
                d = [v.ret for v in D.ev(t, "strdup")]
                R.ok(len(d) == 1 and y.get(D.ao) is d[0] or not d and y.get(D.ao) is not None, "request-complete", at, "the address handed over is %s" % show(y.get(D.ao, ZERO)), s)
                R.ok(y.get(co) is CB and y.get(ko) is CK, "request-complete", at, "the callback handed over is %s(%s)" % (show(y.get(co, ZERO)), show(y.get(ko, ZERO))), s)
                R.ok(len(pd) == 1 and pd[0].kind == "events_network" and D.m.cbfunc(pd[0].cb) is cbf and base_off(pd[0].cookie)[0] is D.T, "completion-registered", at, "%d events are registered" % len(pd), s)
                sg = D.ev(t, "pthread_cond_signal")
                ok = len(sg) >= 1 and sg[-1].ret is ZERO
                if ok:
                    z = sg[-1].st.simp(mem_read(sg[-1].st, D.T, c(D.so), 4, False))
                    ok = D.g(sg[-1].st, HELD) == 1 or z is c(D.k1)
                R.ok(ok, "worker-woken", at, "the thread is not woken for the request", s)
            else:
                nbusy += 1
                E = s.simp(mem_read(s, M.ERRNO, ZERO, 4, False))
                R.ok(cv(E) == 114 and not pd, "busy-refused", at, "a request on a busy thread ends with errno %s" % show(E), s)
        else:
            if not unfail: R.ok(not pd, "failed-request-undone", at, "the request failed and its completion stays registered", s)
            if un and not unfail:
                z = un[-1].st.simp(mem_read(un[-1].st, D.T, c(D.so), 4, False))
                R.ok(z is not c(D.k1), "failed-request-undone", at, "the request failed and the thread still gets it", s)
            for q in D.ev(t, "strdup"):
                if s.isnull(q.ret) is False and not unfail:
                    R.ok(mem_region(s, q.ret).freed is not None, "failed-request-undone", at, "the request failed and the copy of its address is lost", s)
    R.need(nreq, "requests")
    R.ok(nbusy, "busy-refused", at, "no request is ever refused because the thread is busy")
    # a request replaces nothing the thread is working on
    for a in D.acc:
        if a[3] and a[0] == "main" and a[4] == 1 and a[1] not in D.fixed and a[1] != D.so:
            x = a[6].simp(mem_read(a[6], D.T, c(D.so), 4, False))
            R.ok(x is c(D.k1) or a[6].iszero(addc(x, -D.k1)) is False, "busy-request-untouched", a[5], "a cell is overwritten although the thread may be working on a request", a[6])
    at = where(cbf); ncb = 0
    for t in D.run(cbf.name, [D.T], fresh_T(), "main", fn=cbf):
        s = t.st
        rd = D.ev(t, "byte"); ic = [x for x in t.evs if x.kind == "icall"]
        lk = [x for x in D.ev(t, "pthread_mutex_lock") if x.ret is ZERO]; un = [x for x in D.ev(t, "pthread_mutex_unlock")]
        if not rd or not lk or [x for x in un if x.ret is not ZERO]:
            R.ok(not ic and s.iszero(t.ret) is False, "calls-back-once", at, "without having read the completion it returns %s" % show(t.ret), s); continue
        R.ok(all(x.args[0] is mk("wakefd", 1) for x in rd) and len(rd) == 1, "consumes-signal", at, "reads from %s" % show(rd[0].args[0]), s)
        if not R.ok(len(ic) == 1, "calls-back-once", at, "calls back %d times" % len(ic), s): continue
        ncb += 1; D.n["callbacks"] += 1
        u = un[0].st
        v = [mem_read(u, D.T, c(o), 8, True) for o in (co, ko, D.ro)]
        R.ok(len(ic[0].args) == 3 and [u.simp(a) for a in ic[0].args] == v, "calls-back-with-own-result", at, "calls %s" % ", ".join(show(a) for a in ic[0].args), s)
        R.ok(t.ret is ic[0].ret or ic[0].ret is None and t.ret.op == "ret", "calls-back-once", at, "returns %s" % show(t.ret), s)
        fr = [x for x in D.ev(t, "free")]
        ad = mem_read(lk[0].st, D.T, c(D.ao), 8, True)
        mine = [x for x in fr if u.simp(x.args[0]) is ad or x.args[0] is ad]
        R.ok(len(mine) == 1 or s.isnull(ad) is True, "request-released", at, "the copy of the address is freed %d times" % len(mine), s)
        for x in mine: R.ok(x.n > rd[0].n, "request-released", at, "the copy of the address is freed before the completion was seen", s)
        i = t.evs.index(un[0])
        R.ok(t.evs.index(ic[0]) > t.evs.index(un[-1]), "lock-not-held", at, "calls back inside the critical section", s)
    R.need(ncb, "callbacks")
    at = where(ALL["kill"])
    for t in D.run("dnsthread_kill", [D.T], fresh_T(), "main"):
        s = t.st; un = D.ev(t, "pthread_mutex_unlock"); lk = [x for x in D.ev(t, "pthread_mutex_lock") if x.ret is ZERO]; jn = D.ev(t, "pthread_join"); sg = D.ev(t, "pthread_cond_signal")
        if not lk: R.ok(s.iszero(t.ret) is False, "stop-reported", at, "returns %s without the lock" % show(t.ret), s); continue
        z = un[-1].st.simp(mem_read(un[-1].st, D.T, c(D.so), 4, False)) if un else None
        if s.iszero(t.ret) is True or jn:
            R.ok(z is c(D.k2), "stop-requested", at, "the state is left as %s" % show(z), s)
            R.ok(len(sg) >= 1 and sg[-1].ret is ZERO and sg[-1].n > lk[0].n, "worker-woken", at, "the thread is not woken to stop", s)
            old = lk[0].st.simp(mem_read(lk[0].st, D.T, c(D.so), 4, False))
            idle = s.iszero(addc(old, -D.k0))
            R.ok(idle is True or not jn, "stop-waits-for-idle", at, "waits for a thread which is looking up", s)
            R.ok(idle is False or len(jn) == 1, "stop-waits-for-idle", at, "does not wait for an idle thread", s)
        else: R.ok(any(x.ret is not ZERO for x in un + sg + jn), "stop-reported", at, "fails without cause", s)
    # after the lock is given up for the last time, the object belongs to the thread
    for a in D.acc:
        if a[0] == "main": R.ok(a[4] != 0 or a[1] in D.fixed, "shared-under-lock", a[5], "bytes %s.. of the shared object are %s without the lock" % (a[1], ("read", "written")[a[3]]), a[6])
    # ---- the thread itself
    wat = where(wf); nend = 0
    for t in D.run(wf.name, [D.T], fresh_T(), "worker", fn=wf):
        s = t.st
        fr = [x for x in D.ev(t, "free") if base_off(x.args[0])[0] is D.T]
        ex = [x for x in t.evs if x.name == "exit"]
        nend += 1
        R.ok(len(fr) == 1, "stopping-frees-state", wat, "ends with the shared state freed %d times" % len(fr), s)
        un = [x for x in D.ev(t, "pthread_mutex_unlock")]
        if un:
            z = un[-1].st.simp(mem_read(un[-1].st, D.T, c(D.so), 4, False))
            R.ok(un[-1].st.iszero(addc(z, -D.k2)) is True, "stops-only-when-told", wat, "ends in state %s" % show(z), s)
        cl = [x.args[0] for x in D.ev(t, "close")]
        R.ok(set(cl) == {mk("wakefd", 0), mk("wakefd", 1)}, "stopping-frees-state", wat, "closes %s" % [show(x) for x in cl], s)
        for x in fr: R.ok(D.g(x.st, HELD) == 0, "stopping-frees-state", wat, "frees the shared state with the lock held", s)
    R.need(nend, "thread-ends")
    history(R, D, cbf, [AD, CB, CK])
    # ---- lock sets
    side = {"worker": [], "main": []}
    for a in D.acc:
        side["worker" if a[0] == "worker" else "main"].append(a)
    R.need(len(side["worker"]), "worker-accesses", 5); R.need(len(side["main"]), "main-accesses", 5)
    for w in side["worker"]:
        rivals = [m for m in side["main"] if m[1] is not None and w[1] is not None and m[1] < w[1] + (w[2] or 1) and w[1] < m[1] + (m[2] or 1)]
        wr = w[3] or any(m[3] for m in rivals)
        R.ok(w[4] == 1 or w[1] in D.fixed or not rivals and not w[3] or not wr, "shared-under-lock", w[5], "bytes %s.. of the shared object are %s without the lock" % (w[1], ("read", "written")[w[3]]), w[6])
    # ---- nothing else is shared: the lookup touches no static data
    effects(R, wf)
    for k, v in D.n.items(): R.need(v, k)
    R.used(D.m.e)

def history(R, D, cbf, args):
    """a request made between the end of a lookup and its callback, and one made after the callback"""
    at = "dnsthread_resolveone"
    W = sorted({(a[1], a[2]) for a in D.acc if a[0] == "worker" and a[3] and a[1] is not None and a[2] is not None})
    acc = D.acc; D.acc = []
    n = m = 0
    again = [atom("param", "addr2", p=True, nn=True), atom("param", "callback2", p=True, nn=True), atom("param", "cookie2", p=True)]
    s0 = State(); D.alone = True
    s0.wmem()[D.T] = Region(("init", 0))
    for i, o in enumerate(sorted(D.fixed)): mem_write(s0, D.T, c(o), c(4), mk("wakefd", i)); s0.wfacts(); s0.iv[mk("wakefd", i)] = (0, 2 ** 31 - 1)
    for o, z, v in D.T0.segs:
        if cv(v) is not None: mem_write(s0, D.T, o, z, v)
    ended = set()
    for t in D.run("dnsthread_resolveone", [D.T] + args, s0, "main"):
        if t.st.iszero(t.ret) is not True or len(pend(t.st)) != 1 or [x for x in D.ev(t, "pthread_mutex_unlock") if x.ret is not ZERO]: continue
        s = t.st.fork()
        for o, z in W: mem_write(s, D.T, c(o), c(z), mk("worker-wrote", o))
        mem_write(s, D.T, c(D.so), c(4), c(D.k0))
        k = tuple((cv(o), cv(z), v) for o, z, v in s.mem[D.T].segs)
        if k in ended: continue
        ended.add(k)
        for u in D.run("dnsthread_resolveone", [D.T] + again, s.fork(), "main"):
            n += 1
            new = [o for o, z, v in u.st.mem[D.T].segs if u.st.simp(v) is not s.simp(mem_read(s, D.T, o, cv(z), bool(v.p)))]
            R.ok(not new and pend(u.st) == pend(s), "completed-request-untouched", at, "a request made before the previous one has called back replaces it", u.st)
            if u.st.iszero(u.ret) is True:
                E = u.st.simp(mem_read(u.st, M.ERRNO, ZERO, 4, False))
                R.ok(cv(E) == 114, "completed-request-untouched", at, "a request made before the previous one has called back is reported as made", u.st)
        r = s.fork()
        for x in list(pend(r)): del_pend(r, x)
        for u in D.run(cbf.name, [D.T], r, "main", fn=cbf):
            if not [x for x in u.evs if x.kind == "icall"]: continue
            for v in D.run("dnsthread_resolveone", [D.T] + again, u.st.fork(), "main"):
                if v.st.iszero(v.ret) is True:
                    R.ok(len(pend(v.st)) == 1, "ready-after-callback", at, "a request made after the previous one has called back is refused", v.st)
                    m += 1
    D.alone = False; D.acc = acc
    R.need(n, "early requests"); R.need(m, "repeated requests")

def m_cbfunc(R, t):
    if t is None or t.op != "fn": return None
    key = t.a[0]
    if ":" in key:
        src, n = key.rsplit(":", 1)
        return R.prog.mods[src].funcs.get(n)
    return R.prog.lookup(key)

def effects(R, root):
    """the functions the thread may call write no static data and call nothing that is not thread-safe"""
    P = R.prog
    todo, seen = [root], set()
    n = 0
    while todo:
        f = todo.pop()
        if f.key in seen: continue
        seen.add(f.key)
        f._parse()
        for b in f.order:
            for I in f.blocks[b]:
                if I.op == "store" and len(I.a) > 1:
                    p = I.a[1] if not isinstance(I.a[1], tuple) or I.a[1][0] != "i" else I.a[0]
                    for q in I.a:
                        if isinstance(q, tuple) and q and q[0] == "g" and q is p:
                            R.ok(False, "lookup-thread-safe", where(f), "writes the static variable %s" % q[1])
                    n += 1
                if I.op == "call" and I.x and I.x[0] == "g":
                    nm = norm(I.x[1])
                    R.ok(nm not in UNSAFE, "lookup-thread-safe", where(f), "calls %s, which is not thread-safe" % nm)
                    g = P.lookup(I.x[1], f.mod)
                    if g is not None: todo.append(g)
    R.stats["thread_functions"] = len(seen)
    R.need(len(seen), "lookup-thread-functions", 5)
