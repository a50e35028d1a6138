"""The buffered reader behind the data pipe (part of C14, C12, C18)."""
from .common import *
from ..machine import *

BIG = 2 ** 50

class NB:
    """the reader in an arbitrary reachable state: any buffer size, fill and position its interface allows"""
    def __init__(self, R, merge=True):
        self.R = R
        P = R.prog
        self.f = {n: P.need(n) for n in ("netbuf_read_init", "netbuf_read_peek", "netbuf_read_wait", "netbuf_read_wait_cancel", "netbuf_read_consume", "netbuf_read_free")}
        m = Machine(R, merge=merge)
        for n in ("netbuf_read_init", "netbuf_read_free", "netbuf_read_wait", "netbuf_read_wait_cancel", "netbuf_read_peek", "netbuf_read_consume"):
            m.e.cfg.models.pop(n, None)
        self.m = m
        self.s = atom("param", "s")
        st = State()
        st.iv[self.s] = (0, 2 ** 31 - 1)
        self.ini = m.call(self.f["netbuf_read_init"], [self.s], st, "netbuf_read_init")
        good = [t for t in self.ini if t.st.isnull(t.ret) is not True]
        R.need(len(good), "reader-created")
        t = good[0]
        self.h = t.ret
        d, ln = self.peek(t.st)
        b, o = base_off(d)
        if b is None or b.op != "heap": raise Broken("the reader's buffer is not a heap object")
        self.empty = (t, ln)
        self.bufsz0 = mem_region(t.st, b).size
        # the cells the visible state depends on
        g = self.h
        rb, ro = base_off(g)
        sym = atom("param", "anyreader", p=True)
        s0 = State(); d2, l2 = self.peek(s0, sym)
        offs = set(); 
        for x in subterms(d2) | subterms(l2):
            if isinstance(x, T) and x.op == "ld" and x.a[0] is sym and not x.p: offs.add(x.a[2])
        for so, sz, v in mem_region(t.st, rb).segs:
            if sz is c(8) and v is self.bufsz0 and so not in offs: offs.add(so); self.lenoff = so
        if len(offs) < 2: raise Broken("cannot identify the reader's position fields")
        st = t.st.fork()
        i = 0
        self.size = None
        for so in sorted(offs, key=lambda x: x.a[0]):
            v = mem_read(st, rb, so, 8, False)
            a = atom("param", "cell%d" % so.a[0])
            st.wfacts(); st.iv[a] = (0, BIG)
            mem_write(st, rb, so, c(8), a)
            if v is self.bufsz0:
                self.size = a
                st.iv[a] = (1, BIG)
        if self.size is None: raise Broken("cannot identify the reader's buffer size field")
        self.buf = b
        st.wmem()[b] = Region(("init", 0), (), None, self.size)
        d, ln = self.peek(st)
        pos = sub(d, b)
        if not st.setiv(ln, 0, BIG) or not st.setiv(pos, 0, BIG) or not st.setiv(sub(add(pos, ln), self.size), -INF, 0):
            raise Broken("reader invariant contradictory")
        st.ev = None
        self.st = st
        self.avail = ln; self.data = d
    def peek(self, st, h=None):
        st = st.fork()
        f = self.f["netbuf_read_peek"]
        pd = atom("stk", "peek", "d", st.fresh(), p=True, nn=True); pl = atom("stk", "peek", "l", st.fresh(), p=True, nn=True)
        for x in (pd, pl): st.wmem()[x] = Region(("undef",), (), None, c(8))
        res = self.m.e.run(f, [h or self.h, pd, pl], st)
        res = [(s, r) for s, r in res if not isinstance(r, str)]
        if len(res) != 1: raise Broken("netbuf_read_peek has %d outcomes" % len(res))
        s = res[0][0]
        d = mem_read(s, pd, ZERO, 8, True); l = mem_read(s, pl, ZERO, 8, False)
        return s.simp(d), s.simp(l)
    def invariant(self, R, st, at):
        d, ln = self.peek(st)
        b, o = base_off(d)
        if not R.ok(b is not None, "reader-buffer", at, "no buffer", st): return
        r = mem_region(st, b)
        R.ok(r.freed is None, "reader-buffer", at, "the reader's buffer is freed memory", st)
        R.ok(st.lb(o) >= 0 and st.lb(ln) >= 0 and r.size is not None and st.ub(sub(add(o, ln), r.size)) <= 0, "reader-bounds", at,
             "position %s with %s bytes of data in a buffer of %s" % (show(o), show(ln), show(r.size)), st)
        # the recorded size is the real size: unchanged objects keep it, new ones must have it
        rb, ro = base_off(self.h)
        R.ok(any(sz is c(8) and isinstance(v, T) and not v.op.startswith("b.") and st.iszero(sub(v, r.size)) is True for so, sz, v in mem_region(st, rb).segs), "reader-size-recorded", at, "the buffer has %s bytes, but that size is not recorded" % show(r.size), st)

def data_of(st, d, ln):
    b, o = base_off(d)
    return content(st, b, o, st.simp(ln))

def analysed(R):
    N = NB(R)
    cb, ck, ln = atom("param", "callback", p=True, nn=True), atom("param", "cookie", p=True), atom("param", "wanted")
    st = N.st.fork()
    st.iv[ln] = (0, BIG)
    waits = N.m.call(N.f["netbuf_read_wait"], [N.h, ln, cb, ck], st, "netbuf_read_wait")
    after = []
    for t in waits:
        if isinstance(t.ret, str): continue
        for p in pend(t.st):
            f = N.m.cbfunc(p.cb)
            if f is None: continue
            for alt, setup in N.m.alts[p.kind](t.st, p):
                s = t.st.fork(); del_pend(s, p)
                ex = setup(s)
                if ex is None: continue
                for u in N.m.call(f, [p.cookie] + ex, s, norm(f.name), t.trail, "cb", alt, p):
                    after.append((t, u, ex))
        after += [(t, u, ["cancel"]) for u in N.m.call(N.f["netbuf_read_wait_cancel"], [N.h], t.st.fork(), "netbuf_read_wait_cancel", t.trail, "op")]
    R.used(N.m.e)
    return N, cb, ck, ln, waits, after

def at(t):
    return "reader: " + trail(t)

def C14_netbuf(R):
    N, cb, ck, ln, waits, after = analysed(R)
    t0, l0 = N.empty
    R.ok(l0 is ZERO, "reader-starts-empty", "netbuf_read_init", "a new reader claims %s bytes of data" % show(l0), t0.st)
    nreg = 0
    base = data_of(N.st, N.data, N.avail)
    for t in N.m.aborts:
        R.ok(False, "no-assertion-failure", at(t) + " " + locs(t.evs[-1]), "an assertion fails", t.st)
    for t in waits:
        st = t.st
        if isinstance(t.ret, str): continue
        z = st.iszero(t.ret)
        ps = pend(st)
        if z is not True:
            R.ok(internal_failure(t.evs, st) is not None, "wait-fails-only-internally", at(t), "waiting for data fails (%s) without cause" % show(t.ret), st)
            continue
        if not R.ok(len(ps) == 1, "wait-pending", at(t), "%d operations pending after a successful wait" % len(ps), st): continue
        nreg += 1
        p = ps[0]
        N.invariant(R, st, at(t))
        d, a = N.peek(st)
        R.ok(st.iszero(sub(a, N.avail)) is True, "wait-keeps-data", at(t), "%s bytes of data are left of %s" % (show(a), show(N.avail)), st)
        if st.simp(N.avail) is not ZERO:
            R.ok(b_eq(st, data_of(st, d, N.avail), base), "wait-keeps-data", at(t), "the buffered data changes: %s" % show(data_of(st, d, N.avail)), st)
        if p.kind == "network_read":
            fd, ptr, n, mn = p.args[:4]
            b, o = base_off(ptr)
            db, do = base_off(d)
            R.ok(st.simp(fd) is N.s, "reads-its-socket", at(t), "reads from %s" % show(fd), st)
            R.ok(b is db and st.iszero(sub(sub(ptr, d), a)) is True, "appends-to-data", at(t), "new data is put at %s past the start of %s bytes buffered" % (show(sub(ptr, d)), show(a)), st)
            r = mem_region(st, b)
            R.ok(r.size is not None and st.lb(o) >= 0 and st.ub(sub(add(o, n), r.size)) <= 0 and r.freed is None, "read-within-buffer", at(t), "reads %s bytes at %s into a buffer of %s" % (show(n), show(o), show(r.size)), st)
            R.ok(st.iszero(sub(add(mn, a), ln)) is True, "read-minimum", at(t), "wants %s more bytes having %s of %s" % (show(mn), show(a), show(ln)), st)
            R.ok(st.lb(mn) >= 1 and st.lb(sub(n, mn)) >= 0, "read-minimum", at(t), "wants %s of %s bytes" % (st.bounds(mn), st.bounds(n)), st)
        elif p.kind == "events_immediate":
            R.ok(st.lb(sub(N.avail, ln)) >= 0, "immediate-only-with-data", at(t), "reports data at once although %s of %s bytes are there" % (show(N.avail), show(ln)), st)
        else:
            R.ok(False, "wait-pending", at(t), "waits for %s" % p.kind, st)
    R.need(nreg, "reader-waits", 3)
    n = 0
    for t, u, ex in after:
        if ex == ["cancel"]:
            R.ok(not pend(u.st) and not icalls(u.evs, cb), "wait-cancel", at(u), "after cancellation: pending %s" % (pend(u.st),), u.st)
            continue
        n += 1
        es = icalls(u.evs, cb)
        if not R.ok(len(es) == 1, "reader-reports", at(u), "the owner is called %d times" % len(es), u.st): continue
        E = es[0]
        R.ok(E.args[1] is ck, "reader-cookie", at(u), "cookie %s" % show(E.args[1]), E.st)
        R.ok(u.ret is E.ret, "reader-result", at(u), "the owner's result is replaced by %s" % show(u.ret), u.st)
        R.ok(not pend(E.st), "reader-quiet", at(u), "still pending when the owner is called: %s" % (pend(E.st),), E.st)
        if u.p.kind == "network_read":
            L = ex[0]
            want = 0 if u.alt == "complete" else 1 if u.alt == "eof" else -1
        else:
            L = ZERO; want = 0
        v = E.st.simp(E.args[2])
        R.ok(v is c(want), "reader-status", at(u), "%s of the read is reported as %s" % (u.alt, show(v)), E.st)
        d0, a0 = N.peek(t.st)
        d1, a1 = N.peek(E.st)
        if want == 0:
            R.ok(d0 is d1 and E.st.iszero(sub(sub(a1, a0), L)) is True, "reader-counts", at(u), "%s bytes arrived, but the data goes from %s to %s bytes (start moved by %s)" % (show(L), show(a0), show(a1), show(sub(d1, d0))), E.st)
        else:
            R.ok(d0 is d1 and E.st.iszero(sub(a1, a0)) is True, "reader-counts", at(u), "the amount of data changes from %s to %s" % (show(a0), show(a1)), E.st)
        N.invariant(R, u.st, at(u))
    R.need(n, "reader-callbacks", 4)
    # consuming
    k = atom("param", "amount")
    st = N.st.fork()
    st.iv[k] = (0, BIG)
    if not st.setiv(sub(N.avail, k), 0, INF): raise Broken("consume precondition")
    ab0 = len(N.m.aborts)
    cs = N.m.call(N.f["netbuf_read_consume"], [N.h, k], st, "netbuf_read_consume")
    R.ok(len(N.m.aborts) == ab0, "no-assertion-failure", "netbuf_read_consume", "an assertion fails for a legal amount")
    R.need(len(cs), "reader-consume")
    for t in cs:
        d, a = N.peek(t.st)
        R.ok((t.st.simp(a) is ZERO or t.st.iszero(sub(sub(d, N.data), k)) is True) and t.st.iszero(sub(sub(N.avail, a), k)) is True, "consume-exact", at(t), "consuming %s moves the data by %s and shortens it by %s" % (show(k), show(sub(d, N.data)), show(sub(N.avail, a))), t.st)
        if t.st.simp(a) is not ZERO:
            b, o = base_off(d)
            R.ok(content(t.st, b, o, t.st.simp(a)) is content(N.st, b, o, t.st.simp(a)), "consume-keeps-data", at(t), "the remaining data changes", t.st)
        N.invariant(R, t.st, at(t))

def C12_netbuf(R):
    N, cb, ck, ln, waits, after = analysed(R)
    for t in N.m.trans:
        for e in memfaults(t.evs):
            R.ok(False, "reader-no-" + e.name, at(t) + " " + locs(e), "%s of %s" % (e.name, show(e.args[0]) if e.args else ""), e.st)
        R.ok(True, "reader-no-memory-fault", at(t), "")
    for t, u, ex in after:
        if ex == ["cancel"]:
            R.ok(not pend(u.st), "reader-cancel", at(u), "after cancellation: pending %s" % (pend(u.st),), u.st)
            fr = N.m.call(N.f["netbuf_read_free"], [N.h], u.st.fork(), "netbuf_read_free", u.trail)
            R.ok(bool(fr), "reader-free", at(u), "freeing the reader after cancelling fails")
            for v in fr:
                for e in memfaults(v.evs): R.ok(False, "reader-no-" + e.name, at(v) + " " + locs(e), e.name, e.st)
                for b, r in v.st.mem.items():
                    R.ok(b.op != "heap" or r.freed is not None or v.st.isnull(b) is True, "reader-frees", at(v), "leaks the object allocated by %s" % (b.a[0],), v.st)
