"""The data pipe between two sockets (C14, C15 and parts of C01, C06, C12, C18) and the buffered reader behind it."""
from .common import *
from ..machine import *

ESZ, DSZ = 1060, 1024
GH = glob("ghost")              # 0: bytes of this wake-up's data processed, 8: bytes produced, 16: data already consumed
SHUT_WR = 1
ERR = {"EBADF": 9, "EINVAL": 22, "ENOTSOCK": 88, "ENOTCONN": 107, "ECONNRESET": 104, "EPIPE": 32, "ENOBUFS": 105, "EIO": 5, "ETIMEDOUT": 110, "ENETDOWN": 100,
       "ECONNABORTED": 103, "EHOSTUNREACH": 113}
LOCAL = ("EBADF", "EINVAL", "ENOTSOCK")        # not something a network can do to a connected socket
GONE = ("ENOTCONN", "ECONNRESET")

def gh(st, off):
    return st.simp(mem_read(st, GH, c(off), 8, False))

def zero(st, t):
    return st.iszero(st.simp(t)) is True or st.iszero(t) is True

def ghset(st, off, v):
    mem_write(st, GH, c(off), c(8), v)

def peek(e, st, fr, a, ins):
    """*data = start of the unconsumed data, *datalen = its length"""
    M.chk_freed(e, st, base_off(a[0])[0], a[0], fr, ins)
    cur = st.aux.get("peek")
    if cur is None:
        n = st.fresh()
        d = atom("nbdata", n, p=True, nn=True)
        ln = mk("nblen", n)
        st.wfacts(); st.iv[ln] = (st.aux.get("ready", 0), 2 ** 62)
        cur = (d, ln)
        st.aux["peek"] = cur
    for p, v in ((a[1], cur[0]), (a[2], cur[1])):
        b, o = base_off(p)
        if b is not None: mem_write(st, b, o, c(8), v)
    e.event(st, "call", "netbuf_read_peek", tuple(a) + cur, None, fr, ins)
    return [(st, None)]

def consume(e, st, fr, a, ins):
    M.chk_freed(e, st, base_off(a[0])[0], a[0], fr, ins)
    e.event(st, "call", "netbuf_read_consume", tuple(a), None, fr, ins)
    ghset(st, 16, ONE)
    st.aux.pop("peek", None)
    return [(st, None)]

def overlap(st, b, off, n):
    """None, or why writing n bytes at b+off could touch something else of the object"""
    r = mem_region(st, b)
    if st.lb(off) < 0: return "may start before the object"
    if r.size is not None and st.ub(sub(add(off, c(n)), r.size)) > 0: return "may pass the end of the object (%s bytes)" % show(r.size)
    for so, sz, v in r.segs:
        if so.op != "c" or sz.op != "c" or sz.a[0] > 8: continue
        if st.ub(off) + n <= so.a[0] or st.lb(off) >= so.a[0] + sz.a[0]: continue
        return "may overwrite the field at offset %d" % so.a[0]
    return None

def m_enc(e, st, fr, a, ins):
    ev = e.event(st, "call", "proto_crypt_enc", tuple(a), c(ESZ), fr, ins, (gh(st, 0), gh(st, 8)))
    b, o = base_off(a[2])
    ghset(st, 0, add(gh(st, 0), a[1])); ghset(st, 8, add(gh(st, 8), c(ESZ)))
    return [(st, None)]

def m_dec(e, st, fr, a, ins):
    s2 = st.fork()
    e.event(s2, "call", "proto_crypt_dec", tuple(a), c(-1), fr, ins, (gh(s2, 0), gh(s2, 8)))
    r = mk("declen", st.fresh())
    st.wfacts(); st.iv[r] = (1, DSZ)
    e.event(st, "call", "proto_crypt_dec", tuple(a), r, fr, ins, (gh(st, 0), gh(st, 8)))
    ghset(st, 0, add(gh(st, 0), c(ESZ))); ghset(st, 8, add(gh(st, 8), r))
    return [(st, r), (s2, c(-1))]

def wait_alts_g(st, p):
    def reset(s):
        s.aux.pop("peek", None)
        ghset(s, 0, ZERO); ghset(s, 8, ZERO); ghset(s, 16, ZERO)
    def go(v):
        def f(s):
            reset(s)
            m = s.lb(s.simp(p.args[1]))
            s.aux["ready"] = max(0, int(m)) if m != -INF else 0
            if v: s.aux["ready"] = 0
            return [c(v)]
        return f
    return [("error", go(-1)), ("data", go(0)), ("eof", go(1))]

MODELS = {"netbuf_read_peek": peek, "netbuf_read_consume": consume, "proto_crypt_enc": m_enc, "proto_crypt_dec": m_dec}

class Pipe:
    def __init__(self, R, decr):
        f = R.prog.need("proto_pipe")
        a = params(f)
        if len(a) != 7: raise Broken("proto_pipe parameters changed")
        a[2] = c(decr)
        self.decr, self.f, self.a = decr, f, a
        self.sin, self.sout, _, self.k, self.status, self.cb, self.ck = a
        st = State()
        st.assume(mk("eq0", self.cb), False)
        for x in (self.sin, self.sout): st.iv[x] = (0, 2 ** 31 - 1)
        for o in (0, 8, 16): ghset(st, o, ZERO)
        mods = dict(MODELS)
        del_pipe = {"proto_pipe", "proto_pipe_cancel"}
        m = Machine(R, models=mods, alts={"netbuf_wait": wait_alts_g}, extra=lambda s: (len(icalls(s.evlist(), self.cb)),), merge=False, peel=True)
        for n in del_pipe: m.e.cfg.models.pop(n, None)
        self.m = m
        self.ini = m.call(f, a, st, "proto_pipe")
        can = R.prog.need("proto_pipe_cancel")
        good = []
        for t in self.ini:
            if t.st.isnull(t.ret) is True: continue
            t.st.aux["handle"] = t.ret; good.append(t)
        R.need(len(good), "pipe-created")
        def ops(st):
            h = st.aux.get("handle")
            if self.freed(st): return []
            return [("proto_pipe_cancel", can, [h])]
        # a reported outcome ends the pipe: only its cancellation may follow
        m.explore(good, ops, stop=lambda t: isinstance(t.ret, str) or self.freed(t.st) or (t.kind == "cb" and t.st.iszero(t.ret) is False and not self.ends(t)))
        if len(m.trans) < 10: raise Broken("pipe exploration is vacuous (%d transitions)" % len(m.trans))
        R.stats["transitions"] = R.stats.get("transitions", 0) + len(m.trans)
    def freed(self, st):
        h = st.aux.get("handle")
        return h is not None and mem_region(st, base_off(h)[0]).freed is not None
    def ends(self, t):
        return icalls(t.evs, self.cb)
    def at(self, t):
        return "%scrypting pipe: %s" % ("de" if self.decr else "en", trail(t))
    def statusval(self, E):
        """what *status holds when the owner is told"""
        return E.st.simp(mem_read(E.st, self.status, ZERO, 4, False))
    def coded(self, t):
        return [e for e in t.evs if e.kind == "call" and e.name in ("proto_crypt_enc", "proto_crypt_dec")]
    def writes(self, t):
        return [e for e in t.evs if e.kind == "reg" and e.name == "network_write"]
    def waits(self, t):
        return [e for e in t.evs if e.kind == "reg" and e.name == "netbuf_wait"]
    def shuts(self, t):
        return [e for e in t.evs if e.kind == "call" and e.name == "shutdown"]

def both(R):
    return [Pipe(R, d) for d in (0, 1)]

def broken_report(R, P, t, why):
    """the transition must tell the owner of an error, and nothing else"""
    es = P.ends(t)
    if R.ok(len(es) == 1, "error-reported", P.at(t), "%s, but the owner is told %d times" % (why, len(es)), t.st):
        R.ok(P.statusval(es[0]) is c(-1), "error-status", P.at(t), "%s, but the status reported is %s" % (why, show(P.statusval(es[0]))), t.st)
        R.ok(t.ret is es[0].ret, "owner-result-returned", P.at(t), "the result of the owner's callback is replaced by %s" % show(t.ret), t.st)
    R.ok(not P.writes(t), "nothing-written-after-error", P.at(t), "%s, but data is still written" % why, t.st)
    R.ok(not P.shuts(t), "no-shutdown-on-error", P.at(t), "%s, but the write side is shut down as if the data had ended" % why, t.st)

def C14(R):
    """Typestate and byte accounting over every transition of the data pipe (both roles, any amount of buffered data, any number of packets per wake-up)
    and over the buffered reader: what is consumed is what was coded, what was coded is what is written, in order and once; every buffer access in bounds."""
    for P in both(R):
        name = "proto_crypt_dec" if P.decr else "proto_crypt_enc"
        nw = nc = 0
        for t in P.m.trans:
            st = t.st
            cod = P.coded(t)
            obj = [e for e in t.evs if e.kind == "call" and e.name == "netbuf_read_peek"]
            for E in cod:
                nc += 1
                R.ok(E.name == name, "codes-its-direction", P.at(t), "calls %s" % E.name, E.st)
                R.ok(bool(obj), "reads-the-buffer", P.at(t), "codes data without looking at the buffer", E.st)
                if E.name == "proto_crypt_enc": ib, ln, ob, k = E.args
                else: ib, ob, k = E.args; ln = c(ESZ)
                S = E.st
                din, dout = E.x
                R.ok(k is P.k, "pipe-key", P.at(t), "uses key %s" % show(k), S)
                R.ok(gh(S, 16) is ZERO, "codes-before-consuming", P.at(t), "codes data after it was given back to the buffer", S)
                if obj:
                    d, tot = obj[-1].args[3:5]
                    pos = S.simp(sub(ib, d))
                    R.ok(zero(S, sub(pos, din)), "input-contiguous", P.at(t), "codes input from position %s when %s bytes were processed: bytes are skipped or repeated" % (show(pos), show(din)), S)
                    R.ok(S.ub(sub(add(din, ln), tot)) <= 0, "input-bound", P.at(t), "codes %s bytes at %s of only %s available" % (show(ln), show(din), show(tot)), S)
                    if E.name == "proto_crypt_enc":
                        R.ok(S.lb(ln) >= 1 and S.ub(ln) <= DSZ, "packet-length", P.at(t), "puts %s bytes in one packet" % (S.bounds(ln),), S)
                b, o = base_off(ob)
                need = DSZ if E.name == "proto_crypt_dec" else ESZ
                why = overlap(S, b, o, need) if b is not None else "no buffer"
                R.ok(why is None, "output-bound", P.at(t), "output of a packet %s" % why, S)
            # once a packet was refused nothing more happens to the data
            bad = [i for i, E in enumerate(cod) if E.name == "proto_crypt_dec" and E.ret is c(-1)]
            if bad:
                R.ok(bad == [len(cod) - 1], "stops-at-bad-packet", P.at(t), "goes on after a packet was refused", st)
                broken_report(R, P, t, "a packet was refused")
                continue
            good = [E for E in P.writes(t)]
            cons = [e for e in t.evs if e.kind == "call" and e.name == "netbuf_read_consume"]
            if t.kind == "cb" and t.p.kind == "netbuf_wait" and t.alt == "data":
                fail = internal_failure(t.evs, st)
                R.ok(len(good) == 1, "data-written", P.at(t), "data arrived but %d writes were started" % len(good), st)
                R.ok(len(cons) == 1, "consumed-once", P.at(t), "the input is given back %d times" % len(cons), st)
                if len(good) == 1 and len(cons) == 1:
                    W = good[0]; S = W.st; nw += 1
                    tin, tout = gh(S, 0), gh(S, 8)
                    R.ok(zero(S, sub(cons[0].args[1], gh(cons[0].st, 0))) and zero(S, sub(gh(cons[0].st, 0), tin)), "consumes-what-it-coded", P.at(t), "consumes %s bytes having coded %s" % (show(cons[0].args[1]), show(tin)), cons[0].st)
                    R.ok(S.simp(W.args[0]) is S.simp(P.sout), "writes-to-output", P.at(t), "writes to %s" % show(W.args[0]), S)
                    R.ok(zero(S, sub(W.args[2], tout)), "writes-everything", P.at(t), "writes %s bytes of %s produced" % (show(W.args[2]), show(tout)), S)
                    R.ok(zero(S, sub(W.args[3], W.args[2])), "write-is-complete", P.at(t), "asks for %s bytes to be written at least, of %s" % (show(W.args[3]), show(W.args[2])), S)
                    R.ok(S.lb(W.args[2]) >= 1, "progress", P.at(t), "data arrived, but nothing may be written (length %s)" % (S.bounds(W.args[2]),), S)
                    for E in cod:
                        ob = E.args[2] if E.name == "proto_crypt_enc" else E.args[1]
                        R.ok(zero(E.st, sub(sub(ob, W.args[1]), E.x[1])), "output-contiguous", P.at(t), "output of a packet goes to %s past the written buffer when %s bytes were produced" % (show(E.st.simp(sub(ob, W.args[1]))), show(E.x[1])), E.st)
                    R.ok(bool(cod), "progress", P.at(t), "data arrived, but no packet is processed", S)
                R.ok(not P.ends(t), "no-report-with-data", P.at(t), "tells its owner of an end although data flows", st)
                R.ok(fail is not None or st.simp(t.ret), "data-not-fatal", P.at(t), "returns %s" % show(t.ret), st)
            else:
                R.ok(not good, "writes-only-data", P.at(t), "starts a write without new data", st)
                R.ok(not cons or False, "consumes-only-data", P.at(t), "consumes input without coding it", st)
            if t.kind == "cb" and t.p.kind == "netbuf_wait" and t.alt == "error":
                broken_report(R, P, t, "reading failed")
            if t.kind == "cb" and t.p.kind == "network_write":
                full = t.alt == "complete" and st.lb(sub(t.args[1], st.simp(t.p.args[2]))) >= 0
                if full:
                    w = P.waits(t)
                    R.ok(len(w) == 1, "reads-on", P.at(t), "after a complete write %d waits for more data are started" % len(w), st)
                    R.ok(not P.ends(t), "reads-on", P.at(t), "tells its owner of an end after a complete write", st)
                else:
                    R.ok(not P.waits(t), "no-skipping", P.at(t), "goes on reading after an incomplete write", st)
                    broken_report(R, P, t, "the output was not completely written")
            for w in P.waits(t):
                mn = w.st.simp(w.args[1])
                lo, hi = w.st.bounds(mn)
                R.ok(lo >= 1 and hi <= (ESZ if P.decr else 1), "wakes-when-useful", P.at(t), "waits for at least %s bytes (%s..%s)" % (show(mn), lo, hi), w.st)
                R.ok(w.st.simp(w.args[0]) is not ZERO, "waits-on-reader", P.at(t), "waits on a null reader")
            if not P.freed(st) and not isinstance(t.ret, str):
                ks = [p.kind for p in pend(st)]
                R.ok(len(ks) <= 1, "one-operation-at-a-time", P.at(t), "reads and writes overlap: %s" % ks, st)
                if not icalls(st.evlist(), P.cb) and st.iszero(t.ret) is not False and not (t.label == "proto_pipe" and st.isnull(t.ret) is True):
                    R.ok(len(ks) == 1, "never-stuck", P.at(t), "the pipe waits for nothing and told nobody", st)
            for e in t.evs:
                if e.kind == "call" and e.name == "netbuf_read_init":
                    R.ok(e.args[0] is P.sin, "reads-from-input", P.at(t), "reads from %s" % show(e.args[0]), e.st)
        nofaults(R, P.m.trans + P.m.aborts, P.at)
        R.need(nw, "pipe-writes"); R.need(nc, "packets-coded", 1)
    from . import netbuf
    netbuf.C14_netbuf(R)

def C15(R):
    """Every outcome of end of file in the data pipe, and every combination of direction outcomes in the connection."""
    for P in both(R):
        n = 0
        for t in P.m.trans:
            st = t.st
            sh = P.shuts(t)
            if not (t.kind == "cb" and t.p.kind == "netbuf_wait" and t.alt == "eof"):
                R.ok(not sh, "shutdown-only-at-eof", P.at(t), "shuts down a socket although the input has not ended", st)
                continue
            n += 1
            if not R.ok(len(sh) == 1, "half-close", P.at(t), "at end of file the write side of the output is shut down %d times" % len(sh), st): continue
            S = sh[0]
            R.ok(S.st.simp(S.args[0]) is S.st.simp(P.sout), "half-closes-output", P.at(t), "shuts down %s" % show(S.args[0]), st)
            R.ok(S.st.simp(S.args[1]) is c(SHUT_WR), "half-closes-writing", P.at(t), "shutdown mode %s" % show(S.args[1]), st)
            es = P.ends(t)
            r = st.iszero(S.ret)
            if r is None:
                # the code never looked at the result
                outs = [("success", st)] + [(k, st) for k in ERR]
            elif r is True:
                outs = [("success", st)]
            else:
                en = errno_of(t, S)
                outs = []
                for k, v in ERR.items():
                    s2 = st.fork()
                    if en is None or s2.assume(mk("eq0", sub(en, c(v))), True): outs.append((k, s2))
            for k, s2 in outs:
                if k == "success" or k in GONE:
                    if R.ok(len(es) == 1, "eof-reported", P.at(t), "shutdown result %s: the owner is told %d times" % (k, len(es)), st, key="eof-reported|%s|%s" % (P.decr, k)):
                        R.ok(P.statusval(es[0]) is ZERO, "eof-status", P.at(t), "shutdown result %s: status %s instead of a normal end" % (k, show(P.statusval(es[0]))), st, key="eof-status|%s|%s" % (P.decr, k))
                        R.ok(t.ret is es[0].ret, "owner-result-returned", P.at(t), "the result of the owner's callback is replaced by %s" % show(t.ret), st)
                elif k in LOCAL:
                    R.ok(not es or P.statusval(es[0]) is not ZERO, "shutdown-failure-noticed", P.at(t), "shutdown failing with %s is reported as a normal end" % k, st)
                else:
                    if R.ok(len(es) == 1, "error-reported", P.at(t), "shutdown failing with %s: the owner is told %d times (returns %s)" % (k, len(es), show(t.ret)), st, key="error-reported|%s|%s" % (P.decr, k)):
                        R.ok(P.statusval(es[0]) is c(-1), "error-status", P.at(t), "shutdown failing with %s: status %s" % (k, show(P.statusval(es[0]))), st, key="error-status|%s|%s" % (P.decr, k))
            R.ok(not pend(st) or not es, "eof-ends-direction", P.at(t), "still pending after the end: %s" % (pend(st),), st)
            R.ok(not P.writes(t) and not P.coded(t), "nothing-after-eof", P.at(t), "processes data at end of file", st)
            # what was read before was written before: no write can be outstanding when the end is seen
            R.ok(not [p for p in pend(t.pre) if p.kind == "network_write"], "data-before-eof", P.at(t), "the end is handled while data is still being written", st)
        nofaults(R, P.m.trans + P.m.aborts, P.at)
        R.need(n, "eof-outcomes", 2)
    from . import conn
    conn.C15_conn(R)

def errno_of(t, E):
    """the value of errno the failing call left behind"""
    b = glob("errno")
    nxt = None
    for x in t.evs:
        if x.n > E.n: nxt = x; break
    st = nxt.st if nxt is not None else t.st
    v = mem_read(st, b, ZERO, 4, False)
    return v if v.op == "errno" and v.a[0] == E.name else None

def C12_pipe(R):
    for P in both(R):
        for t in P.m.trans + P.m.aborts:
            for e in memfaults(t.evs):
                R.ok(False, "pipe-no-" + e.name, P.at(t) + " " + locs(e), "%s of %s" % (e.name, show(e.args[0]) if e.args else ""), e.st)
            R.ok(True, "pipe-no-memory-fault", P.at(t), "")
        for t in P.m.trans:
            n = len(icalls(t.st.evlist(), P.cb))
            R.ok(n <= 1, "pipe-owner-told-once", P.at(t), "the owner was told %d times" % n, t.st)
            if n: R.ok(not pend(t.st), "pipe-end-quiet", P.at(t), "still pending after the owner was told: %s" % (pend(t.st),), t.st)
            for E in P.ends(t):
                R.ok(E.args[1] is P.ck, "pipe-owner-cookie", P.at(t), "cookie passed is %s" % show(E.args[1]), E.st)
            if t.label == "proto_pipe_cancel":
                R.ok(not pend(t.st), "pipe-cancel", P.at(t), "still pending after cancellation: %s" % (pend(t.st),), t.st)
                R.ok(not P.ends(t), "pipe-cancel-silent", P.at(t), "cancellation tells the owner", t.st)
                left(R, P, t, "pipe-cancel-frees")
            if t.label == "proto_pipe" and t.st.isnull(t.ret) is True:
                R.ok(not pend(t.st), "pipe-failed-start", P.at(t), "pending after a failed start: %s" % (pend(t.st),), t.st)
                left(R, P, t, "pipe-failed-start-frees")

def left(R, P, t, rule):
    for b, r in t.st.mem.items():
        if b.op == "heap" and r.freed is None and t.st.isnull(b) is not True:
            R.ok(False, rule, P.at(t), "leaks the object allocated by %s" % b.a[0], t.st)
    R.ok(True, rule, P.at(t), "")

def C01_pipe(R):
    """a refused packet: the pipe reports the connection broken and nothing more is decrypted or written"""
    P = Pipe(R, 1); n = 0
    for t in P.m.trans:
        cod = P.coded(t)
        bad = [i for i, E in enumerate(cod) if E.ret is c(-1)]
        if not bad: continue
        n += 1
        R.ok(bad == [len(cod) - 1], "stops-at-bad-packet", P.at(t), "goes on after a packet was refused", t.st)
        broken_report(R, P, t, "a packet was refused")
    R.need(n, "refused-packets")

def C06_pipe(R):
    for P in both(R):
        n = 0
        for t in P.m.trans:
            for E in P.coded(t):
                n += 1
                R.ok(E.args[-1] is P.k, "pipe-uses-its-key", P.at(t), "uses key %s" % show(E.args[-1]), E.st)
                R.ok((E.name == "proto_crypt_dec") == bool(P.decr), "pipe-codes-its-direction", P.at(t), "calls %s" % E.name, E.st)
        R.need(n, "packets-coded")

def C18_pipe(R):
    for P in both(R):
        for t in P.m.aborts:
            if t.kind == "cb": R.ok(False, "no-assertion-failure", P.at(t) + " " + locs(t.evs[-1]), "an assertion fails", t.st)
        n = 0
        for t in P.m.trans:
            if t.kind != "cb": continue
            n += 1
            if isinstance(t.ret, str):
                R.ok(False, "no-exit", P.at(t), "the process ends", t.st); continue
            es = P.ends(t)
            fine = t.st.simp(t.ret) is ZERO or internal_failure(t.evs, t.st) is not None or bool(es and t.ret is es[0].ret)
            if not fine:
                sh = P.shuts(t)
                if sh and t.st.iszero(sh[0].ret) is False:
                    en = errno_of(t, sh[0])
                    bad = []
                    for k, v in ERR.items():
                        if k in LOCAL: continue
                        if en is None or t.st.fork().assume(mk("eq0", sub(en, c(v))), True): bad.append(k)
                    fine = not bad
                    R.ok(fine, "shutdown-error-not-fatal", P.at(t), "shutdown failing with %s makes the daemon's event loop stop" % ", ".join(bad), t.st); continue
            R.ok(fine, "not-fatal", P.at(t), "%s of %s makes the handler report a fatal error (%s)" % (t.alt, t.p.kind, show(t.ret)), t.st)
        R.need(n, "pipe-events", 5)
