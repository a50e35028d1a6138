"""The command-line client: C25."""
from .common import *
from ..machine import *
from ..absint import Region
from . import start, opts

GH = atom("glob", "ghost:pump", p=True, nn=True)
GOT, SENT, SRC = 0, 8, 16           # bytes of the last read, bytes of it written so far, where they lie
ESRCH, EINTR, ENOTSOCK = 3, 4, 88
BIG = 2 ** 31 - 1

def errno_is(st, v):
    e = st.simp(mem_read(st, M.ERRNO, ZERO, 4, False))
    return e is c(v) or st.iszero(addc(e, -v)) is True

def errno_not(st, v):
    e = st.simp(mem_read(st, M.ERRNO, ZERO, 4, False))
    return st.iszero(addc(e, -v)) is False

class Pump:
    """one direction: the thread that copies descriptor IN to descriptor OUT"""
    def __init__(self, R):
        self.R = R
        self.n = {"reads": 0, "writes": 0, "retries": 0, "ends": 0, "cancelled": 0}
        ok = lambda n: start.outcome(n, (0, 0), (1, 200))
        self.m = Machine(R, models={"read": self.read, "write": self.write, "recv": self.read, "send": self.write, "shutdown": self.shutdown, "exit": self.exit, "_exit": self.exit,
                                    "__sigsetjmp_cancel": self.setjmp, "__sigsetjmp": self.setjmp, "_setjmp": self.setjmp, "__pthread_unwind_next": self.unwind,
                                    "__pthread_register_cancel": self.quiet, "__pthread_unregister_cancel": self.quiet, "close": start.m_close_retry},
                         merge=False, unroll_all=7)
    def g(self, st, o): return mem_read(st, GH, c(o), 8, o == SRC)
    def s(self, st, o, v): mem_write(st, GH, c(o), c(8), v)
    def at(self, e, fr, ins): return "%s:%s in %s" % (e.loc(fr, ins)[0].split("/repo/")[-1], e.loc(fr, ins)[1], fr.fn.name)
    def quiet(self, e, st, fr, a, ins): return [(st, None)]
    def setjmp(self, e, st, fr, a, ins):
        s2 = st.fork()
        e.event(s2, "call", "cancelled", tuple(a), ONE, fr, ins)
        return [(st, ZERO), (s2, ONE)]
    def unwind(self, e, st, fr, a, ins): return [(st, "cancelled")]
    def exit(self, e, st, fr, a, ins):
        e.event(st, "call", "exit", tuple(a), None, fr, ins)
        return [(st, "exit")]
    def busy(self, st):
        return st.aux.get("busy")
    def read(self, e, st, fr, a, ins):
        R = self.R; at = self.at(e, fr, ins)
        R.ok(st.simp(a[0]) is self.IN, "copies-from-source", at, "reads from %s" % show(a[0]), st)
        left = sub(self.g(st, GOT), self.g(st, SENT))
        R.ok(st.iszero(st.simp(left)) is True, "all-written-before-next-read", at, "reads again although %s bytes of the last read are not written" % show(st.simp(left)), st)
        if st.aux.get("eof"): R.ok(False, "stops-at-end", at, "reads again after end of file", st)
        if st.aux.get("dead"): R.ok(False, "error-stops", at, "reads again after an error", st)
        self.n["reads"] += 1
        out = []
        for err in self.errs(st):
            s = st.fork(); e.event(s, "call", "read", tuple(a), c(-1), fr, ins)
            self.fail(s, err, "read"); out.append((s, c(-1)))
        s = st.fork(); e.event(s, "call", "read", tuple(a), ZERO, fr, ins); s.aux["eof"] = 1; out.append((s, ZERO))
        if st.aux.get("nread", 0) >= 2: return out
        st.aux["nread"] = st.aux.get("nread", 0) + 1; st.aux["npart"] = 0
        r = mk("ret", "read", st.fresh())
        st.wfacts(); st.iv[r] = (1, 2 ** 62)
        if not st.setiv(sub(r, a[2]), -INF, 0): return out
        b, o = base_off(st.simp(a[1]))
        if b is not None:
            sz = mem_region(st, b).size
            if b is self.P: R.ok(st.ub(add(o, a[2])) <= (self.size or 0), "read-fits", at, "reads up to %s bytes at offset %s" % (show(a[2]), show(o)), st)
            mem_write(st, b, o, r, mk("b.fn", "input", st.fresh(), "", r))
        self.s(st, GOT, r); self.s(st, SENT, ZERO); self.s(st, SRC, st.simp(a[1]))
        e.event(st, "call", "read", tuple(a), r, fr, ins)
        return out + [(st, r)]
    def errs(self, st):
        """at most two interruptions, two reads and two partial writes each on a path; the rest of a path is the same code again"""
        return (EINTR, None) if st.aux.get("retries", 0) < 2 else (None,)
    def fail(self, s, err, name):
        if err is not None: s.aux["retries"] = s.aux.get("retries", 0) + 1; mem_write(s, M.ERRNO, ZERO, c(4), c(err)); self.n["retries"] += 1
        else:
            M.set_errno(s, name)
            x = mem_read(s, M.ERRNO, ZERO, 4, False)
            s.assume(mk("eq0", addc(x, -EINTR)), False); s.assume(mk("eq0", addc(x, -ENOTSOCK)), False)
            s.aux["dead"] = name
    def write(self, e, st, fr, a, ins):
        R = self.R; at = self.at(e, fr, ins)
        R.ok(st.simp(a[0]) is self.OUT, "copies-to-destination", at, "writes to %s" % show(a[0]), st)
        want = add(self.g(st, SRC), self.g(st, SENT))
        R.ok(st.iszero(st.simp(sub(a[1], want))) is True, "written-in-order", at, "writes from %s although the next byte is at %s" % (show(st.simp(a[1])), show(st.simp(want))), st)
        left = st.simp(sub(self.g(st, GOT), self.g(st, SENT)))
        R.ok(st.ub(st.simp(sub(a[2], left))) <= 0, "written-in-order", at, "writes %s bytes of %s" % (show(a[2]), show(left)), st)
        if st.aux.get("dead"): R.ok(False, "error-stops", at, "writes again after an error", st)
        self.n["writes"] += 1
        out = []
        for err in self.errs(st):
            s = st.fork(); e.event(s, "call", "write", tuple(a), c(-1), fr, ins); self.fail(s, err, "write"); out.append((s, c(-1)))
        s = st.fork()
        e.event(s, "call", "write", tuple(a), a[2], fr, ins)
        self.s(s, SENT, s.simp(add(self.g(s, SENT), a[2]))); out.append((s, s.simp(a[2])))
        if st.aux.get("npart", 0) >= 2: return out
        st.aux["npart"] = st.aux.get("npart", 0) + 1
        r = mk("ret", "write", st.fresh())
        st.wfacts(); st.iv[r] = (1, 2 ** 62)
        if st.setiv(sub(r, a[2]), -INF, -1):
            e.event(st, "call", "write", tuple(a), r, fr, ins)
            self.s(st, SENT, st.simp(add(self.g(st, SENT), r)))
            out.append((st, r))
        return out
    def shutdown(self, e, st, fr, a, ins):
        R = self.R; at = self.at(e, fr, ins)
        R.ok(st.simp(a[0]) is self.OUT and st.simp(a[1]) is ONE, "end-passed-on", at, "shuts down %s (%s)" % (show(a[0]), show(a[1])), st)
        R.ok(bool(st.aux.get("eof")) or any(x.name == "cancelled" for x in st.evlist()), "end-passed-on-only-at-end", at, "ends the output before the input ended", st)
        out = []
        for err in (ENOTSOCK, None):
            s = st.fork(); e.event(s, "call", "shutdown", tuple(a), c(-1), fr, ins)
            if err: mem_write(s, M.ERRNO, ZERO, c(4), c(err))
            else:
                M.set_errno(s, "shutdown"); s.assume(mk("eq0", addc(mem_read(s, M.ERRNO, ZERO, 4, False), -ENOTSOCK)), False)
            out.append((s, c(-1)))
        e.event(st, "call", "shutdown", tuple(a), ZERO, fr, ins)
        return out + [(st, ZERO)]
    def run(self):
        R = self.R
        f = R.prog.need("pushbits")
        start_m = {}
        cap = []
        def spawn(e, st, fr, a, ins):
            s2 = st.fork(); s2.aux["spawn"] = 0
            e.event(s2, "call", "spawn", tuple(a), c(11), fr, ins)
            e.event(st, "call", "spawn", tuple(a), ZERO, fr, ins); st.aux["spawn"] = 1
            return [(s2, c(11)), (st, ZERO)]
        pre = Machine(R, models={"pthread_create_blocking_np": spawn, "pthread_create": spawn}, merge=False)
        IN, OUT, THR = atom("param", "in"), atom("param", "out"), atom("param", "thr", p=True, nn=True)
        st = State(); st.wfacts()
        for x in (IN, OUT): st.iv[x] = (0, BIG)
        at = where(f); n = 0
        for t in pre.call(f, [IN, OUT, THR], st, "pushbits"):
            for x in memfaults(t.evs): R.ok(False, "memory-safe", at + " " + locs(x), "%s of %s" % (x.name, show(x.args[0])), x.st)
            if isinstance(t.ret, str): R.ok(False, "reports-failure", at, "ends in %s" % t.ret, t.st); continue
            sp = [x for x in t.evs if x.name == "spawn"]
            al = [x for x in t.evs if x.kind == "call" and x.name in ("malloc", "calloc") and t.st.isnull(x.ret) is False]
            good = sp and sp[-1].ret is ZERO
            R.ok((t.st.iszero(t.ret) is True) == bool(good), "reports-failure", at, "returns %s although the thread was %sstarted" % (show(t.ret), "" if good else "not "), t.st)
            if not good:
                for x in al: R.ok(mem_region(t.st, x.ret).freed is not None, "failed-start-undone", at, "the thread was not started and its parameters are lost", t.st)
                continue
            R.ok(len(sp) == 1 and sp[0].args[0] is THR, "thread-reported", at, "stores the thread in %s" % show(sp[0].args[0]), t.st)
            P = base_off(t.st.simp(sp[0].args[3]))[0]
            if not R.ok(P is not None and P in t.st.mem and t.st.mem[P].freed is None and P.op == "heap", "parameters-live", at, "the thread is given %s" % show(sp[0].args[3]), t.st): continue
            n += 1
            wf = None
            cb = t.st.simp(sp[0].args[2])
            wf = pre.cbfunc(cb)
            R.need(wf is not None, "pump-thread")
            self.worker(wf, sp[0].args[3], P, t.st.fork(), IN, OUT)
        R.need(n, "pump-started")
        for k, v in self.n.items(): R.need(v, k)
        R.used(pre.e); R.used(self.m.e)
    def worker(self, wf, arg, P, st, IN, OUT):
        R = self.R; at = where(wf)
        self.P, self.IN, self.OUT = P, IN, OUT
        st.path = None
        self.size = st.ub(st.simp(st.mem[P].size)) if isinstance(st.mem[P].size, T) else st.mem[P].size
        for o in (GOT, SENT, SRC): self.s(st, o, ZERO)
        self.m.e.steps = 0
        for t in self.m.call(wf, [arg], st, wf.name):
            for x in memfaults(t.evs): R.ok(False, "memory-safe", at + " " + locs(x), "%s of %s" % (x.name, show(x.args[0])), x.st)
            if t.ret == "loopback": continue
            s = t.st
            fr = [x for x in t.evs if x.name == "free" and base_off(x.args[0])[0] is P]
            can = [x for x in t.evs if x.name == "cancelled"]
            if t.ret == "exit":
                code = s.simp([x for x in t.evs if x.name == "exit"][-1].args[0])
                R.ok(s.iszero(code) is False, "failure-exits", at, "ends the program with status %s after a failure" % show(code), s)
                sd = [x for x in t.evs if x.name == "shutdown" and x.ret is not ZERO]
                R.ok(bool(s.aux.get("dead")) or bool(sd) and errno_not(s, ENOTSOCK), "runs-until-end", at, "ends the program although nothing failed", s)
                continue
            if t.ret == "cancelled" or can:
                self.n["cancelled"] += 1
                R.ok(t.ret == "cancelled", "cancelled-ends", at, "a cancelled thread goes on", s)
                R.ok(len(fr) == 1, "parameters-freed", at, "a cancelled thread frees its parameters %d times" % len(fr), s); continue
            if isinstance(t.ret, str): R.ok(False, "runs-until-end", at, "ends in %s" % t.ret, s); continue
            self.n["ends"] += 1
            R.ok(bool(s.aux.get("eof")) and not s.aux.get("dead"), "runs-until-end", at, "the copying ends %s" % ("after an error without ending the program" if s.aux.get("dead") else "before the end of the input"), s)
            left = s.simp(sub(self.g(s, GOT), self.g(s, SENT)))
            R.ok(s.iszero(left) is True, "all-written-before-next-read", at, "ends although %s bytes are not written" % show(left), s)
            R.ok(len([x for x in t.evs if x.name == "shutdown"]) == 1, "end-passed-on", at, "the end of the input is passed on %d times" % len([x for x in t.evs if x.name == "shutdown"]), s)
            R.ok(len(fr) == 1, "parameters-freed", at, "frees its parameters %d times" % len(fr), s)
        R.ok(True, "memory-safe", at, "")

# ------------------------------------------------------------ starting a thread
def C25_thread(R):
    """pthread_create_blocking_np succeeds only with a thread which will run the given routine once"""
    f = R.prog.need("pthread_create_blocking_np")
    TH, AT, RT, ARG = params(f)
    st = State()
    for x in (TH, RT): st.assume(mk("eq0", x), False)
    ok = lambda n: start.outcome(n, (0, 0), (1, 200))
    D = {}
    def create(e, st, fr, a, ins):
        s2 = st.fork(); e.event(s2, "call", "pthread_create", tuple(a), c(11), fr, ins)
        e.event(st, "call", "pthread_create", tuple(a), ZERO, fr, ins)
        return [(s2, c(11)), (st, ZERO)]
    def wait(e, st, fr, a, ins):
        e_ = [x for x in st.evlist() if x.name == "pthread_create" and x.ret is ZERO]
        s2 = st.fork(); e.event(s2, "call", "pthread_cond_wait", tuple(a), ONE, fr, ins)
        out = [(s2, ONE)]
        e.event(st, "call", "pthread_cond_wait", tuple(a), ZERO, fr, ins)
        if e_:
            U = base_off(st.simp(e_[0].args[3]))[0]
            # the other thread may have changed what it writes before it gives up the lock
            for o, z in D.get("writes", ()):
                mem_write(st, U, c(o), c(z), mk("other-wrote", o, st.fresh()))
        return out + [(st, ZERO)]
    mods = {"pthread_create": create, "pthread_cond_wait": wait, "pthread_join": ok("pthread_join"), "pthread_cancel": ok("pthread_cancel")}
    for n in ("pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_signal", "pthread_cond_broadcast"): mods[n] = ok(n)
    def go():
        m = Machine(R, models=mods, merge=False, unroll_all=3)
        r = [t for t in m.call(f, [TH, AT, RT, ARG], st.fork(), f.name) if t.ret != "loopback"]
        R.used(m.e)
        return m, r
    m, res = go()
    cr = [(x, t) for t in res for x in t.evs if x.name == "pthread_create" and x.ret is ZERO]
    R.need(len(cr), "thread-created")
    x, t = cr[0]
    wf = m.cbfunc(x.st.simp(x.args[2]))
    R.need(wf is not None, "thread-wrapper")
    U = base_off(x.st.simp(x.args[3]))[0]
    # the wrapper
    acc = []
    x0 = x.st
    def note(w):
        def fn(e, s, base, off, size, *a):
            if base is U and cv(s.simp(off)) is not None:
                fr, ins = a[-2], a[-1]
                held = s.aux.get("held", 0)
                acc.append((cv(s.simp(off)), cv(size) if isinstance(size, T) else size, w, held, e.loc(fr, ins)))
                failed = [y for y in s.evlist(x0.ev) if y.kind == "call" and y.ret is not None and s.iszero(s.simp(y.ret)) is False]
                R.ok(not s.aux.get("released") or bool(failed), "not-used-after-release", where(wf), "uses what it shares with its creator after the creator may have freed it (line %s)" % e.loc(fr, ins)[1], s)
        return fn
    def lk(v):
        def fn(e, s, fr, a, ins):
            s2 = s.fork(); e.event(s2, "call", "lock" if v else "unlock", tuple(a), ONE, fr, ins)
            e.event(s, "call", "lock" if v else "unlock", tuple(a), ZERO, fr, ins)
            s.aux["held"] = v
            if not v: s.aux["released"] = 1
            return [(s2, ONE), (s, ZERO)]
        return fn
    wm = Machine(R, models=dict(mods, pthread_mutex_lock=lk(1), pthread_mutex_unlock=lk(0), **{"*icall": icall}), merge=False, memevents=True, on_load=note(False), on_store=note(True))
    s0 = x.st.fork(); s0.path = None
    s0.aux["held"] = 0
    # what the creator wrote before the thread existed
    n = 0
    wat = where(wf)
    for w in wm.call(wf, [x.args[3]], s0, wf.name):
        if isinstance(w.ret, str): continue
        ev = [y for y in w.evs if y.kind in ("call", "icall")]
        ic = [y for y in ev if y.kind == "icall"]
        bad = [y for y in ev if y.kind == "call" and y.name in ("lock", "unlock", "pthread_cond_signal", "pthread_cond_broadcast") and w.st.iszero(w.st.simp(y.ret)) is False]
        if bad: continue
        n += 1
        R.ok(len(ic) == 1 and ic[0].args[0] is RT and len(ic[0].args) == 2 and ic[0].args[1] is ARG, "runs-routine", wat, "runs %s" % ["%s(%s)" % (show(y.args[0]), ", ".join(show(z) for z in y.args[1:])) for y in ic], w.st)
        R.ok([y.name for y in ev if y.name in ("lock", "unlock")] == ["lock", "unlock"] and all(y.n < ic[0].n for y in ev if y.name == "unlock") if ic else False, "announces-under-lock", wat, "the lock is not given back before the routine runs", w.st)
        R.ok(any(y.name.startswith("pthread_cond_") for y in ev), "announces-under-lock", wat, "does not announce that it runs", w.st)
        last = [y.n for y in ev if y.name == "unlock"]
    R.need(n, "wrapper-paths")
    D["writes"] = sorted({(o, z) for o, z, w, h, l in acc if w and h})
    R.need(len(D["writes"]), "announcement")
    m, res = go()
    nok = 0
    at = where(f)
    for t in res:
        for y in memfaults(t.evs): R.ok(False, "memory-safe", at + " " + locs(y), "%s of %s" % (y.name, show(y.args[0])), y.st)
        if isinstance(t.ret, str): continue
        s = t.st
        cr = [y for y in t.evs if y.name == "pthread_create" and y.ret is ZERO]
        bad = [y for y in t.evs if y.kind == "call" and y.name.startswith("pthread_") and s.iszero(s.simp(y.ret)) is False and y.name not in ("pthread_cancel", "pthread_join")]
        heap = [y for y in t.evs if y.kind == "call" and y.name in ("malloc", "calloc") and s.isnull(y.ret) is False]
        for y in heap: R.ok(mem_region(s, y.ret).freed is not None, "failed-start-undone", at, "the synchronisation state is lost", s)
        if s.iszero(t.ret) is True:
            nok += 1
            R.ok(len(cr) == 1, "thread-started", at, "reports success without a thread", s)
            wt = [y for y in t.evs if y.name == "pthread_cond_wait"]
            R.ok(bool(wt), "thread-started", at, "does not wait for the thread to run before it frees what they share", s)
        elif not bad:
            R.ok(not heap and t.ret.op == "errno" or s.iszero(t.ret) is False, "thread-started", at, "returns %s" % show(t.ret), s)
    R.ok(nok, "thread-started", at, "never reports success")
    # the flag's condition is rechecked: leaving the loop requires the announcement
    for t in res:
        if isinstance(t.ret, str) or t.st.iszero(t.ret) is not True: continue
        w = [y for y in t.evs if y.name == "pthread_cond_wait"]
        if not w: continue
        cells = [mem_read(w[-1].st, U, c(o), z, False) for o, z in D["writes"]]
        R.ok(any(v.op == "other-wrote" and t.st.iszero(v) is False for o, z in D["writes"] for v in [last_other(t.st, o)] if v is not None), "condition-rechecked", at, "reports success although the thread may not have run yet", t.st)
    R.used(wm.e)

def last_other(st, o):
    k = None
    for b in list(st.bf) + list(st.ne) + list(st.iv):
        x = b.a[0] if b.op == "eq0" else b
        for y in ([x] if x.op != "lin" else [z for z, n in x.a[1]]):
            if isinstance(y, T) and y.op == "other-wrote" and y.a[0] == o and (k is None or y.a[1] > k.a[1]): k = y
    return k

def icall(e, st, fr, a, ins):
    e.event(st, "icall", "icall", tuple(a), None, fr, ins)
    return [(st, atom("ret", "icall", st.fresh(), p=True))]

# ------------------------------------------------------------ the program
class Client:
    def __init__(self, R):
        self.R = R; P = R.prog
        # the callbacks' names are main's: found through the calls that register them
        self.m = m = opts.Main(R, "spipe")
        self.n = {"ended": 0, "failed": 0, "stopped": 0, "refused": 0}
        md = m.e.cfg.models
        md.update({"proto_conn_create": self.create, "graceful_shutdown_initialize": self.graceful, "events_spin": self.spin, "pushbits": self.pushbits, "proto_conn_drop": self.drop,
                   "socketpair": self.pair, "close": start.m_close_retry, "pthread_join": self.join, "pthread_cancel": self.cancel})
    def pair(self, e, st, fr, a, ins):
        s2 = st.fork(); e.event(s2, "call", "socketpair", tuple(a), c(-1), fr, ins); M.set_errno(s2, "socketpair")
        b, o = base_off(st.simp(a[3]))
        for i in (0, 1):
            t = mk("pairfd", i); st.wfacts(); st.iv[t] = (0, BIG)
            mem_write(st, b, add(o, c(4 * i)), c(4), t)
        st.assume(mk("eq0", sub(mk("pairfd", 0), mk("pairfd", 1))), False)
        e.event(st, "call", "socketpair", tuple(a), ZERO, fr, ins)
        return [(s2, c(-1)), (st, ZERO)]
    def create(self, e, st, fr, a, ins):
        s2 = st.fork(); e.event(s2, "call", "proto_conn_create", tuple(a), ZERO, fr, ins); M.set_errno(s2, "proto_conn_create")
        h = atom("heap", "conn", st.fresh(), 0, p=True, nn=True)
        e.event(st, "call", "proto_conn_create", tuple(a), h, fr, ins)
        st.aux["conn"] = "open"; st.aux["conn_h"] = h
        return [(s2, ZERO), (st, h)]
    def drop(self, e, st, fr, a, ins):
        at = "spipe/main.c:%s" % e.loc(fr, ins)[1]
        self.R.ok(st.aux.get("conn") == "open" and st.simp(a[0]) is st.aux.get("conn_h"), "dropped-once", at, "drops a connection which %s" % ("has already ended and been freed" if st.aux.get("conn") else "does not exist"), st)
        st.aux["conn"] = "dropped"
        e.event(st, "call", "proto_conn_drop", tuple(a), ZERO, fr, ins)
        return [(st, ZERO)]
    def pushbits(self, e, st, fr, a, ins):
        s2 = st.fork(); e.event(s2, "call", "pushbits", tuple(a), c(-1), fr, ins)
        b, o = base_off(st.simp(a[2]))
        t = mk("thread", len(st.aux.get("threads", ())), st.fresh())
        mem_write(st, b, o, c(8), t)
        st.aux["threads"] = st.aux.get("threads", ()) + (t,)
        e.event(st, "call", "pushbits", tuple(a), ZERO, fr, ins, t)
        return [(s2, c(-1)), (st, ZERO)]
    def graceful(self, e, st, fr, a, ins):
        s2 = st.fork(); e.event(s2, "call", "graceful_shutdown_initialize", tuple(a), c(-1), fr, ins)
        st.aux["graceful"] = (st.simp(a[0]), st.simp(a[1]))
        e.event(st, "call", "graceful_shutdown_initialize", tuple(a), ZERO, fr, ins)
        return [(s2, c(-1)), (st, ZERO)]
    def join(self, e, st, fr, a, ins):
        at = "spipe/main.c:%s in %s" % (e.loc(fr, ins)[1], fr.fn.name)
        t = st.simp(a[0]); R = self.R
        R.ok(t in st.aux.get("threads", ()), "joins-own-threads", at, "waits for %s" % show(t), st)
        R.ok(t not in st.aux.get("joined", ()), "joins-once", at, "waits twice for the same thread", st)
        if st.aux.get("why") in ("failed", "stop"):
            R.ok(t in st.aux.get("cancelled", ()), "ends-promptly", at, "after %s, waits for a thread which was not told to stop and may wait for input forever" % ("a failed connection" if st.aux["why"] == "failed" else "the request to stop"), st)
        s2 = st.fork(); e.event(s2, "call", "pthread_join", tuple(a), c(35), fr, ins)
        if fr.fn is not self.m.f: s2 = None         # joining one's own live thread does not fail
        st.aux["joined"] = st.aux.get("joined", ()) + (t,)
        e.event(st, "call", "pthread_join", tuple(a), ZERO, fr, ins)
        return ([(s2, c(35))] if s2 else []) + [(st, ZERO)]
    def cancel(self, e, st, fr, a, ins):
        at = "spipe/main.c:%s in %s" % (e.loc(fr, ins)[1], fr.fn.name)
        t = st.simp(a[0]); R = self.R
        R.ok(t in st.aux.get("threads", ()) and t not in st.aux.get("joined", ()), "stops-own-threads", at, "stops %s" % show(t), st)
        out = []
        for rc, nm in ((0, "pthread_cancel"), (ESRCH, "pthread_cancel")):
            s = st.fork(); s.aux["cancelled"] = s.aux.get("cancelled", ()) + (t,)
            e.event(s, "call", nm, tuple(a), c(rc), fr, ins); out.append((s, c(rc)))
        return out          # POSIX has no other failure
    # ---- what happens while the loop runs
    def callback(self, fn, args, st, manual=True):
        """-> [(state, return)] of one of main's callbacks run on the state; threads etc. in aux"""
        me = self
        def man(e, s, fr, a, ins):
            e.event(s, "call", "graceful_shutdown_manual", (), None, fr, ins)
            g = s.aux.get("graceful")
            if g is None: me.R.ok(False, "stop-available", "spipe/main.c", "asks for the stop before it was prepared", s); return [(s, None)]
            if s.aux.get("begun"): return [(s, None)]
            s.aux["begun"] = 1
            return [(x, None) for x, r in me.callback(me.fnof(g[0]), [g[1]], s)]
        e = Engine(self.R.prog, Cfg(models=dict(self.m.e.cfg.models, graceful_shutdown_manual=man), opaque=set(opts.OPAQUE), merge=False, unroll_all=4))
        e.main = None
        out = [(s, r) for s, r in e.run(fn, list(args), st.fork()) if r != "loopback"]
        self.R.used(e)
        for s, r in out:
            for x in s.evlist(st.ev):
                if x.kind == "mem": self.R.ok(False, "memory-safe", where(fn) + " " + locs(x), "%s of %s" % (x.name, show(x.args[0])), x.st)
        return out
    def fnof(self, t):
        from .dns import m_cbfunc
        return m_cbfunc(self.R, t)
    def spin(self, e, st, fr, a, ins):
        """events_spin: the ways it can end, with the program's own callbacks run in between"""
        R = self.R
        e.event(st, "call", "events_spin", tuple(a), None, fr, ins)
        done = st.simp(a[0]); out = []
        cc = [x for x in st.evlist() if x.name == "proto_conn_create" and x.ret is not ZERO][0]
        died, cookie = self.fnof(cc.args[9]), cc.args[10]
        R.need(died is not None, "death callback")
        at = where(died)
        b0, o0 = base_off(done)
        R.ok(st.iszero(st.simp(mem_read(st, b0, o0, 4, False))) is True, "loop-runs", "spipe/main.c:%s" % e.loc(fr, ins)[1], "the condition which ends the event loop is not known to be unset when it starts", st)
        # the loop itself fails
        s = st.fork(); s.aux["why"] = "loop"; out.append((s, c(-1)))
        # the connection ends
        for reason in (0, 2, 3, 4, 7):
            for s, r in self.callback(died, [cookie, c(reason)], st):
                if isinstance(r, str): R.ok(r == "exit" and reason, "conn-end-noticed", at, "ends in %s" % r, s); continue
                s.aux["conn"] = "ended"; s.aux["why"] = "ended" if reason == 0 else "failed"
                b, o = base_off(done)
                d = s.simp(mem_read(s, b, o, 4, False))
                z = s.iszero(s.simp(r))
                R.ok(s.iszero(d) is False or z is False, "conn-end-noticed", at, "the loop goes on after the connection ended (reason %d)" % reason, s)
                if reason:
                    R.ok(any(x.name == "graceful_shutdown_manual" for x in s.evlist(st.ev)) or s.aux.get("joined") or z is False, "failure-stops-threads", at, "the threads are not told to stop after a failure (reason %d)" % reason, s)
                if z is True: s2 = s.fork(); out.append((s2, ZERO))
                else: out.append((s.fork(), c(-1)))
                if reason == 4:        # a callback of the connection failed after ending it
                    s3 = s.fork(); out.append((s3, c(-1)))
        # asked to stop
        g = st.aux.get("graceful")
        if g is not None:
            gf = self.fnof(g[0])
            s0 = st.fork(); s0.aux["why"] = "stop"; s0.aux["begun"] = 1
            for s, r in self.callback(gf, [g[1]], s0):
                if isinstance(r, str): R.ok(False, "stop-ends", where(gf), "ends in %s" % r, s); continue
                if s.iszero(s.simp(r)) is True:
                    b, o = base_off(done)
                    R.ok(s.iszero(s.simp(mem_read(s, b, o, 4, False))) is False, "stop-ends", where(gf), "the loop goes on after the request to stop", s)
                    R.ok(len(s.aux.get("joined", ())) == 2 and len(s.aux.get("cancelled", ())) >= 2, "stop-ends", where(gf), "reports the threads stopped", s)
                    # the connection may have ended before
                    out.append((s, ZERO))
                else:
                    bad = [x for x in s.evlist(st.ev) if x.name in ("pthread_join", "pthread_cancel") and x.ret is not ZERO and x.ret is not c(ESRCH) or x.name == "pthread_join" and x.ret is not ZERO]
                    R.ok(bool(bad), "stop-ends", where(gf), "fails although every thread could be stopped", s)
                    out.append((s, c(-1)))
        return out
    def run(self):
        R = self.R; m = self.m; at = "spipe/main.c"
        S = m.init
        for o in ("-t", "-k"):
            b, r = m.step(S, "opt", o)
            if len(b) != 1: raise Broken("option %s not accepted" % o)
            S = b[0]
        nspin = 0
        for s, r in m.end(S):
            if r == "loopback": continue
            evs = [x for x in s.evlist(S[0].ev)]
            for x in evs:
                if x.kind == "mem" and x.name not in ("nullderef",): R.ok(False, "memory-safe", at + " " + locs(x), "%s of %s" % (x.name, show(x.args[0])), x.st)
            cl = [x for x in evs if x.kind == "call"]
            by = lambda *k: [x for x in cl if x.name in k]
            code = m.exitcode(s, r)
            spin = by("events_spin")
            why = s.aux.get("why")
            if code == 0:
                R.ok(len(spin) == 1, "success-only-after-end", at, "exits with success without having run", s)
                R.ok(why in ("ended", "stop"), "success-only-after-end", at, "exits with success although the connection failed (%s)" % why, s)
                if why == "ended":
                    self.n["ended"] += 1
                    R.ok(set(s.aux.get("joined", ())) == set(s.aux.get("threads", ())) and len(s.aux.get("threads", ())) == 2, "output-complete", at, "exits without having waited for both copying threads", s)
                else: self.n["stopped"] += 1
            else:
                if code is None: R.ok(False, "failure-reported", at, "ends in %s with status %s" % (r, code), s)
                if spin: self.n["failed"] += 1
                else: self.n["refused"] += 1
                if why == "ended":
                    bad = [x for x in by("pthread_join") if x.ret is not ZERO]
                    R.ok(bool(bad), "success-reported", at, "exits with failure although the connection ended normally", s)
            if spin:
                nspin += 1
                pb = by("pushbits"); gi = by("graceful_shutdown_initialize"); cc = by("proto_conn_create")
                i, o2 = mk("pairfd", 0), mk("pairfd", 1)
                R.ok(sorted((show(x.args[0]), show(x.args[1])) for x in pb) == sorted([("0", show(i)), (show(i), "1")]), "copies-both-ways", at, "copies %s" % [(show(x.args[0]), show(x.args[1])) for x in pb], s)
                R.ok(len(cc) == 1 and cc[0].args[0] is o2, "copies-both-ways", at, "the connection is given %s" % show(cc[0].args[0]), s)
                R.ok(cc[0].args[3] is ZERO, "client-side", at, "the connection's direction is %s" % show(cc[0].args[3]), s)
                R.ok(all(x.n < spin[0].n for x in pb + gi + cc) and len(gi) == 1, "copies-both-ways", at, "starts the loop before everything is set up", s)
        R.need(nspin, "runs", 4)
        for k, v in self.n.items(): R.need(v, k)
        m.done()

def C25(R):
    """Path-sensitive analysis of the copying thread with counters for the bytes read and written, of the start of threads, and of the client's
    main with its own callbacks run for every way the event loop can end."""
    Pump(R).run()
    C25_thread(R)
    Client(R).run()
