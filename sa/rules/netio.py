"""Buffered network operations and accepting: C19, and parts of C18."""
from .common import *
from ..machine import *

BIG = 2 ** 50
RETRY = (4, 11)          # EINTR, EAGAIN = EWOULDBLOCK
XFER = {"recv": True, "read": True, "send": False, "write": False}
NOSIGNAL = 0x4000
PLAIN = NOSIGNAL | 0x40 | 0x100 | 0x8000 | 0x40000000      # NOSIGNAL, DONTWAIT, WAITALL, MORE, CMSG_CLOEXEC keep a stream a stream

def mpool_malloc(e, st, fr, a, ins):
    s2 = st.fork()
    t = M.new_heap(e, st, fr, ins, "mpool", a[1], False)
    e.event(st, "call", "mpool_malloc", tuple(a), t, fr, ins)
    st.assume(mk("eq0", t), False)
    st.aux["pool"] = st.aux.get("pool", ()) + ((t, a[0]),)
    e.event(s2, "call", "mpool_malloc", tuple(a), ZERO, fr, ins)
    M.set_errno(s2, "mpool_malloc")
    return [(st, t), (s2, ZERO)]

def mpool_free(e, st, fr, a, ins):
    p = st.simp(a[1])
    for t, pool in st.aux.get("pool", ()):
        if t is p and pool is not a[0]:
            e.event(st, "mem", "freed-into-another-pool", (p,), None, fr, ins)
    return release("mpool_free")(e, st, fr, [p], ins)

MPOOL = {"mpool_malloc": mpool_malloc, "mpool_free": mpool_free}

def xfer(name, rd):
    def f(e, st, fr, a, ins):
        out = []
        s2 = st.fork()
        ev = e.event(s2, "call", name, tuple(a), c(-1), fr, ins)
        ev.x = M.set_errno(s2, name)
        out.append((s2, c(-1)))
        if rd:
            s3 = st.fork()
            e.event(s3, "call", name, tuple(a), ZERO, fr, ins)
            M.set_errno(s3, name)
            out.append((s3, ZERO))
        r = mk("ret", name, st.fresh())
        st.wfacts(); st.iv[r] = (1, st.ub(a[2]))
        if not st.setiv(sub(r, a[2]), -INF, 0): return out
        if rd: M.write_out(e, st, a[1], st.simp(a[2]), name, r, 0)
        e.event(st, "call", name, tuple(a), r, fr, ins)
        M.set_errno(st, name)
        return out + [(st, r)]
    return f

def maybe(st, E, k):
    return st.iszero(addc(E, -k)) is not False

def errno_class(st, E, retry):
    """True: certainly one of the retryable errors; False: certainly none; None: not determined on this path"""
    if any(st.iszero(addc(E, -k)) is True for k in retry): return True
    lo, hi = st.bounds(E)
    if not any(maybe(st, E, k) for k in retry): return False
    return None

class Buf:
    def __init__(self, R, name, op):
        P = R.prog
        self.R, self.name, self.op = R, name, op
        self.f = P.need(name); self.fc = P.need(name + "_cancel")
        a = params(self.f)
        if len(a) != 6: raise Broken(name + " parameters changed")
        self.fd, self.buf, self.n, self.min, self.cb, self.ck = a
        m = Machine(R, models=dict(MPOOL, **{k: xfer(k, v) for k, v in XFER.items()}), merge=False, peel=True)
        for x in (name, name + "_cancel"): m.e.cfg.models.pop(x, None)
        self.m = m
        st = State()
        st.iv[self.fd] = (0, 2 ** 31 - 1); st.iv[self.n] = (1, BIG); st.iv[self.min] = (0, BIG)
        if not st.setiv(sub(self.min, self.n), -INF, 0): raise Broken("precondition")
        st.assume(mk("eq0", self.buf), False); st.assume(mk("eq0", self.cb), False)
        self.ini = m.call(self.f, a, st, name)
        self.rounds = [[], [], []]
        self.can = []
        prev = []
        for t in self.ini:
            if isinstance(t.ret, str) or t.st.isnull(t.ret) is True: continue
            t.st.aux["handle"] = t.ret; t.st.aux["total"] = ZERO; t.st.aux["rs"] = ()
            prev.append(t)
        R.need(len(prev), name + "-starts")
        for i in range(3):
            nxt = []
            for t in prev:
                self.can += m.call(self.fc, [t.st.aux["handle"]], t.st.fork(), name + "_cancel", t.trail, "op")
                for p in pend(t.st):
                    g = m.cbfunc(p.cb)
                    if g is None: continue
                    s = t.st.fork(); del_pend(s, p)
                    for u in m.call(g, [p.cookie], s, norm(g.name), t.trail, "cb", "ready", p):
                        self.rounds[i].append((t, u))
                        if isinstance(u.ret, str) or self.told(u): continue
                        u.st.aux["total"] = self.total(t, u); u.st.aux["rs"] = t.st.aux["rs"] + tuple(x.ret for x in self.xs(u) if x.ret.op != "c")
                        # only states that a transfer changed lead on (an interrupted one is the state before)
                        if i == 0 or u.st.aux["total"] is not t.st.aux["total"]: nxt.append(u)
            prev = nxt
        R.used(m.e)
    def xs(self, u):
        return [e for e in u.evs if e.kind == "call" and e.name in XFER]
    def told(self, u):
        return icalls(u.evs, self.cb)
    def total(self, t, u):
        T = t.st.aux["total"]
        for x in self.xs(u):
            if x.ret.op != "c": T = add(T, x.ret)
        return T
    def at(self, t):
        return self.name + ": " + trail(t)
    def freed(self, st, h):
        return mem_region(st, base_off(h)[0]).freed is not None
    def retried(self, R, nosignal=True):
        """what each result of the system call leads to"""
        for rnd in self.rounds:
            for t, u in rnd:
                if isinstance(u.ret, str): continue
                at = self.at(u); st = u.st
                xs = self.xs(u); es = self.told(u)
                for i, x in enumerate(xs):
                    if x.ret is not c(-1): continue
                    k = errno_class(u.st, x.x, RETRY)
                    last = i == len(xs) - 1
                    bad = [e for e in es if e.n > x.n] if last else []
                    regf = [e for e in u.evs if e.kind == "reg" and e.n > x.n and e.ret is c(-1)]
                    if last and bad and not regf:
                        R.ok(k is False, "retries-when-interrupted", at, "an interrupted or not ready %s is reported as an end" % x.name, st)
                    elif last and not bad:
                        R.ok(k is True, "error-reported", at, "a failed %s is not reported" % x.name, st)
                    elif not last:
                        R.ok(k is True, "error-reported", at, "a failed %s is repeated" % x.name, st)
    def reports(self, R):
        """exactly what happened is reported, once"""
        n = 0
        for i, rnd in enumerate(self.rounds):
            for t, u in rnd:
                at = self.at(u); st = u.st
                if isinstance(u.ret, str):
                    R.ok(u.ret == "unreachable", "returns", at, "ends in %s" % u.ret, st); continue
                n += 1
                xs = self.xs(u); es = self.told(u); T = t.st.aux["total"]; h = t.st.aux["handle"]
                R.ok(len(xs) >= 1, "transfers", at, "a ready socket is not used", st)
                for x in xs:
                    s = x.st
                    if x.name in ("recv", "send") and len(x.args) > 3:
                        fl = cv(s.simp(x.args[3]))
                        R.ok(fl is not None and fl & ~PLAIN == 0, "plain-transfer", at, "%s with the flags %s: the bytes would not be taken from or put into the stream in order" % (x.name, fl), s)
                    R.ok(s.simp(x.args[0]) is self.fd, "own-socket", at, "uses socket %s" % show(x.args[0]), s)
                    R.ok(s.iszero(sub(sub(x.args[1], self.buf), T)) is True, "consecutive", at, "%s bytes are done, and the next go to offset %s" % (show(T), show(sub(x.args[1], self.buf))), s)
                    R.ok(s.ub(sub(add(x.args[2], T), self.n)) <= 0 and s.lb(x.args[2]) >= 1, "within-buffer", at, "%s bytes are done of %s, and the next are %s" % (show(T), show(self.n), show(x.args[2])), s)
                    if x.ret.op != "c": T = add(T, x.ret)
                last = xs[-1] if xs else None
                regf = [e for e in u.evs if e.kind == "reg" and e.ret is c(-1)]
                R.ok(len(es) <= 1, "reports-once", at, "calls back %d times" % len(es), st)
                if last is None: continue
                if es:
                    E = es[0]
                    v = E.st.simp(E.args[2])
                    R.ok(E.args[1] is self.ck, "own-cookie", at, "cookie %s" % show(E.args[1]), st)
                    R.ok(u.ret is E.ret, "result-returned", at, "the owner's result is replaced by %s" % show(u.ret), st)
                    ok0 = not [p for p in pend(E.st) if p.kind == "events_network"]
                    R.ok(ok0, "quiet-when-reporting", at, "still registered when it calls back", st)
                    R.ok(not pend(st) and self.freed(st, h), "released-when-done", at, "after calling back: pending %s, memory %s" % (pend(st), "freed" if self.freed(st, h) else "kept"), st)
                    if regf or last.ret is c(-1): R.ok(v is c(-1), "reports-error", at, "an error is reported as %s" % show(v), st)
                    elif last.ret is ZERO: R.ok(v is ZERO, "reports-eof", at, "end of file is reported as %s" % show(v), st)
                    else:
                        R.ok(st.iszero(sub(v, T)) is True, "reports-count", at, "%s bytes were transferred, %s are reported" % (show(T), show(v)), st)
                        R.ok(E.st.lb(sub(T, self.min)) >= 0, "minimum-first", at, "reports %s bytes when %s were wanted" % (show(T), show(self.min)), st)
                else:
                    R.ok(not regf, "reports-error", at, "cannot wait for the socket and does not say so", st)
                    if last.ret is ZERO: R.ok(False, "reports-eof", at, "end of file is not reported", st)
                    if last.ret.op != "c": R.ok(st.ub(sub(T, self.min)) < 0, "reports-when-done", at, "%s bytes of %s wanted are done, and it goes on" % (show(T), show(self.min)), st)
                    ps = pend(st)
                    R.ok(len(ps) == 1 and ps[0].kind == "events_network" and st.simp(ps[0].args[2]) is self.fd and st.simp(ps[0].args[3]) is c(self.op), "waits-again", at, "pending: %s" % (ps,), st)
                    R.ok(st.iszero(u.ret) is True, "result-returned", at, "returns %s" % show(u.ret), st)
                    R.ok(not self.freed(st, h), "kept-while-pending", at, "frees its state while waiting", st)
        R.need(n, self.name + "-callbacks", 12)
    def starts(self, R):
        for t in self.ini:
            at = self.at(t); st = t.st
            if isinstance(t.ret, str):
                R.ok(t.ret == "unreachable", "returns", at, "ends in %s" % t.ret, st); continue
            R.ok(not self.xs(t) and not self.told(t), "starts-later", at, "transfers or calls back from within the request", st)
            if st.isnull(t.ret) is True:
                R.ok(not pend(st), "failed-start-clean", at, "fails with %s pending" % (pend(st),), st)
                for b, r in st.mem.items():
                    R.ok(b.op != "heap" or r.freed is not None, "failed-start-clean", at, "fails and keeps the object allocated by %s" % b.a[0], st)
                R.ok(internal_failure(t.evs, st) is not None, "starts", at, "fails without cause", st)
            else:
                ps = pend(st)
                R.ok(len(ps) == 1 and ps[0].kind == "events_network" and st.simp(ps[0].args[2]) is self.fd and st.simp(ps[0].args[3]) is c(self.op), "waits", at, "pending: %s" % (ps,), st)
        for t in self.m.aborts:
            R.ok(False, "no-assertion-failure", self.at(t) + " " + locs(t.evs[-1]), "an assertion fails", t.st)
        nofaults(R, self.m.trans, self.at)
    def cancels(self, R):
        R.need(len(self.can), self.name + "-cancel", 2)
        for t in self.can:
            st = t.st; h = t.args[0]
            if isinstance(t.ret, str): continue
            R.ok(not pend(st) and not self.told(t), "cancel-silences", self.at(t), "after cancelling: pending %s" % (pend(st),), st)
            R.ok(self.freed(st, h), "cancel-releases", self.at(t), "keeps its memory", st)
    def inductive(self, R):
        """after any number of partial transfers the state is the same function of the total done: what held for the first three holds for all"""
        one = [u for t, u in self.rounds[0] if not isinstance(u.ret, str) and not self.told(u) and len(u.st.aux["rs"]) == 1]
        two = [u for t, u in self.rounds[1] if not isinstance(u.ret, str) and not self.told(u) and len(u.st.aux["rs"]) == 2]
        R.need(len(one), "partial-once"); R.need(len(two), "partial-twice")
        def cells(u, f):
            b, o = base_off(u.st.aux["handle"])
            return {(so, sz): f(v) for so, sz, v in mem_region(u.st, b).segs}
        for u in two:
            r1, r2 = u.st.aux["rs"]
            def f(v):
                k, d = parts(v)
                if r1 in d: return add(v, scale(r2, d[r1] - d.get(r2, 0)))
                return v
            ok = False
            for w in one:
                q = w.st.aux["rs"][0]
                def g(v):
                    k, d = parts(v)
                    return add(v, scale(sub(add(r1, r2), q), d[q])) if q in d else v
                if cells(w, g) == cells(u, lambda v: v): ok = True
            R.ok(ok, "state-is-the-total", self.at(u), "the state after two partial transfers is not that after one of the same total", u.st)

def C19(R):
    """Typestate of the asynchronous read and write over every sequence of readiness events and results of the system call: where each transfer goes,
    when and what the owner is told, and what is left pending and allocated; an induction over the number of partial transfers."""
    for name, op in (("network_read", 0), ("network_write", 1)):
        B = Buf(R, name, op)
        B.starts(R); B.reports(R); B.retried(R); B.cancels(R); B.inductive(R)

# ------------------------------------------------------------ accepting
def C18_accept(R):
    pass

# ------------------------------------------------------------ connecting
def m_conn1(e, st, fr, a, ins):
    s2 = st.fork()
    e.event(s2, "call", "sock_connect", tuple(a), c(-1), fr, ins); M.set_errno(s2, "sock_connect")
    t = mk("newfd", "sock_connect", st.fresh())
    st.wfacts(); st.iv[t] = (0, 2 ** 31 - 1)
    e.event(st, "call", "sock_connect", tuple(a), t, fr, ins)
    return [(st, t), (s2, c(-1))]

def m_conn_nb(e, st, fr, a, ins):
    return m_conn1(e, st, fr, [a[0], ZERO], ins)

class Conn:
    def __init__(self, R, entry, naddr):
        P = R.prog
        self.R, self.entry, self.n = R, entry, naddr
        f = P.need(entry); self.fc = P.need("network_connect_cancel")
        a = params(f)
        m = Machine(R, models={"sock_connect_bind_nb": m_conn1, "sock_connect_nb": m_conn_nb}, merge=False)
        for x in ("network_connect", "network_connect_bind", "network_connect_timeo", "network_connect_cancel"): m.e.cfg.models.pop(x, None)
        self.m = m
        st = State()
        self.sas = a[0]; self.cb, self.ck = a[-2], a[-1]
        self.bindto = a[1] if entry == "network_connect_bind" else ZERO
        self.timeo = a[1] if entry == "network_connect_timeo" else None
        st.assume(mk("eq0", self.cb), False); st.assume(mk("eq0", self.sas), False)
        if self.timeo is not None: st.assume(mk("eq0", self.timeo), False)
        self.addr = []
        segs = []
        for i in range(naddr):
            x = atom("param", "addr%d" % i, p=True, nn=True)
            st.wmem()[x] = Region(("init", 0))
            self.addr.append(x); segs.append((c(8 * i), c(8), x))
        segs.append((c(8 * naddr), c(8), ZERO))
        st.wmem()[self.sas] = Region(("init", 0), tuple(segs))
        self.ini = m.call(f, a, st, entry)
        good = []
        for t in self.ini:
            if isinstance(t.ret, str) or t.st.isnull(t.ret) is True: continue
            t.st.aux["handle"] = t.ret; good.append(t)
        self.fatal = []
        def stop(t):
            if isinstance(t.ret, str): return True
            if t.kind == "cb" and t.st.iszero(t.ret) is not True:
                self.fatal.append(t); return True
            return self.freed(t.st)
        m.explore(good, lambda st: [("network_connect_cancel", self.fc, [st.aux["handle"]])], stop)
        # an owner who learns of a fatal error from the event loop still cancels what it started
        for t in list(self.fatal):
            if not icalls(t.st.evlist(), self.cb):
                m.call(self.fc, [t.st.aux["handle"]], t.st.fork(), "network_connect_cancel", t.trail, "op")
    def freed(self, st):
        return mem_region(st, base_off(st.aux["handle"])[0]).freed is not None
    def at(self, t):
        return "%s of %d: %s" % (self.entry, self.n, trail(t))
    def tries(self, st):
        return [e for e in st.evlist() if e.kind == "call" and e.name == "sock_connect"]
    def judge(self, R):
        cnt = {"told-ok": 0, "told-fail": 0, "cancelled": 0}
        for t in self.m.trans:
            st = t.st; at = self.at(t)
            if isinstance(t.ret, str): continue
            tr = self.tries(st)
            told = icalls(st.evlist(), self.cb)
            if t.label == self.entry:
                R.ok(not told, "never-synchronous", at, "calls back from within the request", st)
            # order
            for i, x in enumerate(tr):
                R.ok(i < self.n and x.args[0] is self.addr[i], "in-order", at, "attempt %d is made to %s" % (i, show(x.args[0])), st)
                R.ok(st.simp(x.args[1]) is self.bindto, "bound-address", at, "binds to %s" % show(x.args[1]), st)
            socks = [x.ret for x in tr if x.ret.op != "c"]
            closed = [st.simp(e.args[0]) for e in st.evlist() if e.kind == "call" and e.name == "close"]
            ps = pend(st)
            live = t.st.aux.get("handle") is not None and not self.freed(st) and not (t.kind == "cb" and st.iszero(t.ret) is not True)
            R.ok(len(told) <= 1, "reported-once", at, "reports %d times" % len(told), st)
            for x in socks: R.ok(closed.count(x) <= 1, "closed-once", at, "closes %s %d times" % (show(x), closed.count(x)), st)
            given = []
            for E in told:
                v = E.st.simp(E.args[2])
                R.ok(E.args[1] is self.ck, "own-cookie", at, "cookie %s" % show(E.args[1]), st)
                R.ok(not pend(E.st), "quiet-when-reporting", at, "still pending: %s" % (pend(E.st),), st)
                if v is c(-1):
                    cnt["told-fail"] += 1
                    R.ok(len([x for x in tr if x.n < E.n]) == self.n, "tries-all", at, "reports failure after %d of %d addresses" % (len(tr), self.n), st)
                else:
                    cnt["told-ok"] += 1
                    R.ok(v in socks and v is socks[-1] and v not in closed, "reports-its-socket", at, "reports %s" % show(v), st)
                    given.append(v)
                    g = [e for e in st.evlist() if e.kind == "call" and e.name == "getsockopt" and E.st.simp(e.args[0]) is v and cv(e.args[1]) == 1 and cv(e.args[2]) == 4 and e.n < E.n]
                    okk = bool(g) and E.st.iszero(g[-1].ret) is True
                    if okk:
                        b, o = base_off(g[-1].args[3])
                        nx = [x for x in st.evlist() if x.n > g[-1].n][0]
                        val = mem_read(nx.st, b, o, 4, False) if b in nx.st.mem else None
                        okk = any(E.st.iszero(x) is True for x in errs(E.st, g[-1]))
                    R.ok(okk, "connected-when-reported", at, "reports success without the socket's error having been checked", st)
                if t.evs and any(e is E for e in t.evs): R.ok(t.ret is E.ret, "result-returned", at, "the owner's result is replaced by %s" % show(t.ret), st)
            for i in range(len(socks)):
                # an address is given up only after its attempt failed
                if i + 1 < len(tr) and i < len(socks):
                    pass
            openk = [x for x in socks if x not in closed and x not in given]
            if live:
                R.ok(not told, "over-when-reported", at, "still alive after reporting", st)
                nets = [p for p in ps if p.kind == "events_network"]; imm = [p for p in ps if p.kind == "events_immediate"]; tim = [p for p in ps if p.kind == "events_timer"]
                R.ok(len(openk) <= 1, "one-socket", at, "%d sockets open" % len(openk), st)
                if openk:
                    R.ok(len(nets) == 1 and st.simp(nets[0].args[2]) is openk[0] and st.simp(nets[0].args[3]) is ONE and not imm, "waits-for-socket", at, "pending: %s" % (ps,), st)
                    R.ok(len(tim) == (1 if self.timeo is not None else 0), "attempt-timed", at, "%d timers pending" % len(tim), st)
                    for p in tim:
                        e0 = [e for e in st.evlist() if e.kind == "reg" and e.ret is p.h][0]
                        b, o = base_off(e0.args[2]); want = content(e0.st, self.timeo, ZERO, c(16))
                        R.ok(content(e0.st, b, o, c(16)) is want, "attempt-timed", at, "the timer is not for the given time", st)
                else:
                    R.ok(len(imm) == 1 and not nets and not tim and len(tr) == self.n, "failure-scheduled", at, "no socket open after %d attempts, pending: %s" % (len(tr), ps), st)
            elif st.aux.get("handle") is not None or t.label == self.entry:
                fatal = t.kind == "cb" and st.iszero(t.ret) is not True and not told
                if t.label == "network_connect_cancel":
                    cnt["cancelled"] += 1
                    R.ok(not told, "cancel-silences", at, "calls back when cancelled", st)
                R.ok(not ps, "nothing-left", at, "pending: %s" % (ps,), st)
                if not fatal: R.ok(not openk, "nothing-left", at, "sockets left open: %s" % [show(x) for x in openk], st)
                if t.label == self.entry:
                    for b, r in st.mem.items():
                        R.ok(b.op != "heap" or r.freed is not None or st.isnull(b) is True, "failed-start-clean", at, "fails and keeps the object allocated by %s" % (b.a[0],), st)
                    R.ok(internal_failure(t.evs, st) is not None, "starts", at, "fails without cause", st)
                elif not fatal:
                    R.ok(self.freed(st), "nothing-left", at, "keeps its memory", st)
                else:
                    R.ok(internal_failure(t.evs, st) is not None or any(e.kind == "call" and e.name == "getsockopt" and e.st is not None and st.iszero(e.ret) is False for e in t.evs), "fatal-only-internally", at, "reports a fatal error without cause", st)
            # a later attempt only after the earlier one is known to have failed
            for i in range(1, len(tr)):
                x, y = tr[i - 1], tr[i]
                if x.ret.op == "c": continue
                bt = [e for e in st.evlist() if x.n < e.n < y.n]
                g = [e for e in bt if e.kind == "call" and e.name == "getsockopt" and e.args[0] is x.ret]
                tm = [e for e in bt if e.kind == "cb" and e.name == "events_timer"]
                R.ok(bool(tm) or (bool(g) and any(st.iszero(v) is False for v in errs(st, g[-1]))), "next-only-after-failure", at, "tries the next address although the attempt has not failed", st)
        for t in self.m.aborts:
            R.ok(False, "no-assertion-failure", self.at(t) + " " + locs(t.evs[-1]), "an assertion fails", t.st)
        nofaults(R, self.m.trans, self.at)
        return cnt

def errs(st, g):
    """the values getsockopt stored"""
    b, o = base_off(g.args[3])
    out = []
    for x in st.evlist() + [None]:
        s = x.st if x is not None else st
        if x is not None and x.n <= g.n: continue
        if b in s.mem:
            out.append(mem_read(s, b, o, 4, False)); break
    # the store may be found only through facts when the frame is gone
    return out

def C20(R):
    """Typestate of a connection attempt over every sequence of readiness, socket errors, timeouts and cancellation, for address lists of up to three
    (thorough: five) entries and each way to ask for it; and dataflow through the function that starts one attempt."""
    tot = {}
    for entry in ("network_connect_bind", "network_connect", "network_connect_timeo"):
        if entry not in ("network_connect_bind",) and not R.prog.lookup(entry): continue
        for n in range(0, 6 if R.tier == "thorough" else 4):
            C = Conn(R, entry, n)
            for k, v in C.judge(R).items(): tot[k] = tot.get(k, 0) + v
    for k, v in tot.items(): R.need(v, k, 3)
    C20_attempt(R)

def C20_attempt(R):
    """sock_connect_bind_nb: the socket of one attempt"""
    f = R.prog.need("sock_connect_bind_nb")
    a = params(f)
    for bound in (False, True):
        st = State()
        st.assume(mk("eq0", a[0]), False); st.assume(mk("eq0", a[1]), not bound)
        if not bound: a2 = [a[0], ZERO]
        else: a2 = a
        m = {"close": m_close, "connect": outc("connect"), "bind": outc("bind"), "setsockopt": outc("setsockopt"), "fcntl": outc("fcntl"), "socket": m_socket}
        e, _, res = analyse(R, f, args=a2, st=st, models=m, merge=False)
        at = where(f) + (" with" if bound else " without") + " a bound address"
        n = {"ok": 0, "fail": 0}
        fld = lambda p, o, s: lambda v: v.op == "ld" and v.a[0] is p and cv(v.a[2]) == o and cv(v.a[3]) == s
        for s, r in res:
            if isinstance(r, str):
                R.ok(r in ("loopback", "unreachable"), "attempt-returns", at, r, s); continue
            ev = [x for x in s.evlist() if x.kind == "call"]
            by = lambda k: [x for x in ev if x.name == k]
            so = [x for x in by("socket") if x.ret.op != "c"]
            cl = [s.simp(x.args[0]) for x in by("close")]
            co = by("connect"); bi = by("bind"); nb = [x for x in by("fcntl") if cv(x.args[1]) == 4 and cv(x.args[2]) is not None and cv(x.args[2]) & 2048 or len(x.args) > 2 and "or" == x.args[2].op]
            if r is c(-1):
                n["fail"] += 1
                for x in so: R.ok(cl.count(x.ret) == 1, "attempt-closes", at, "fails and closes its socket %d times" % cl.count(x.ret), s)
                last = [x for x in ev if x.name in ("socket", "setsockopt", "bind", "fcntl", "connect") and x.ret is c(-1)]
                okf = bool(last)
                if okf and last[-1].name == "connect":
                    k = errno_class(s, last[-1].x, (115, 4))
                    R.ok(k is False, "attempt-in-progress", at, "an attempt in progress is taken for a failure", s)
                R.ok(okf, "attempt-fails-for-cause", at, "fails without cause", s)
            else:
                n["ok"] += 1
                R.ok(len(so) == 1 and r is so[0].ret and not cl, "attempt-socket", at, "returns %s, closes %s" % (show(r), cl), s)
                R.ok(len(co) == 1 and co[0].args[0] is r and fld(a[0], 8, 8)(co[0].args[1]) and fld(a[0], 16, 4)(co[0].args[2]), "attempt-address", at, "connects to %s" % ([show(y) for x in co for y in x.args],), s)
                R.ok(len(nb) == 1 and co and nb[0].n < co[0].n and nb[0].ret is not c(-1), "attempt-nonblocking", at, "connects before it made the socket non-blocking", s)
                R.ok(bool(so) and fld(a[0], 0, 4)(so[0].args[0]) and fld(a[0], 4, 4)(so[0].args[1]), "attempt-family", at, "creates a socket of another kind", s)
                if co and co[0].ret is c(-1): R.ok(errno_class(s, co[0].x, (115, 4)) is True, "attempt-error", at, "a failed attempt is taken for one in progress", s)
                R.ok(len(bi) == (1 if bound else 0), "attempt-bound", at, "binds %d times" % len(bi), s)
                if bound and bi:
                    R.ok(bi[0].ret is ZERO and bi[0].args[0] is r and fld(a[1], 8, 8)(bi[0].args[1]) and fld(a[1], 16, 4)(bi[0].args[2]) and co and bi[0].n < co[0].n, "attempt-bound", at, "binds to %s" % [show(y) for y in bi[0].args], s)
            for x in s.evlist():
                if x.kind == "mem": R.ok(False, "attempt-no-fault", at + " " + locs(x), x.name, s)
        R.need(n["ok"], "attempt-ok"); R.need(n["fail"], "attempt-fail", 3)

def outc(name):
    def f(e, st, fr, a, ins):
        s2 = st.fork()
        ev = e.event(s2, "call", name, tuple(a), c(-1), fr, ins); ev.x = M.set_errno(s2, name)
        e.event(st, "call", name, tuple(a), ZERO, fr, ins)
        M.set_errno(st, name)
        return [(st, ZERO), (s2, c(-1))]
    return f

def m_socket(e, st, fr, a, ins):
    s2 = st.fork()
    e.event(s2, "call", "socket", tuple(a), c(-1), fr, ins); M.set_errno(s2, "socket")
    t = mk("newfd", "socket", st.fresh())
    st.wfacts(); st.iv[t] = (0, 2 ** 31 - 1)
    e.event(st, "call", "socket", tuple(a), t, fr, ins)
    M.set_errno(st, "socket")
    return [(st, t), (s2, c(-1))]
