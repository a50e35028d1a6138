"""The daemon's dispatcher: C16, C17 (its part), C24 and parts of C18, C29, C31."""
from .common import *
from ..machine import *

def conn_create(e, st, fr, a, ins):
    """a connection takes over its socket and its addresses when it is created, and leaves them alone otherwise"""
    s2 = st.fork()
    e.event(s2, "reg", "proto_conn", tuple(a), ZERO, fr, ins)
    M.set_errno(s2, "proto_conn")
    if st.simp(a[0]) in st.aux.get("closed", ()): e.event(st, "mem", "use-of-closed-fd", (a[0],), None, fr, ins)
    M.chk_freed(e, st, base_off(a[1])[0], a[1], fr, ins)
    n = st.fresh()
    h = atom("hnd", "proto_conn", n, p=True, nn=True)
    ev = e.event(st, "reg", "proto_conn", tuple(a), h, fr, ins)
    b, o = base_off(a[1])
    if b is not None:
        r = mem_region(st, b)
        st.wmem()[b] = Region(r.d, r.segs, ev, r.size)
    st.aux["closed"] = st.aux.get("closed", ()) + (st.simp(a[0]),)
    add_pend(st, Pend(h, "proto_conn", st.simp(a[9]), a[10], tuple(a), n, e.loc(fr, ins)))
    return [(st, h), (s2, ZERO)]

def conn_drop(mach):
    def f(e, st, fr, a, ins):
        h = st.simp(a[0])
        e.event(st, "cancel", "proto_conn", tuple(a), None, fr, ins)
        for p in pend(st):
            if p.kind == "proto_conn" and p.h is h:
                del_pend(st, p)
                g = mach().cbfunc(p.cb)
                if g is None:
                    return [(st, ZERO)]
                return e.inline(st, fr, ins, g, [p.cookie, a[1]])
        e.event(st, "mem", "cancel-not-pending", (h,), None, fr, ins, "proto_conn")
        return [(st, ZERO)]
    return f

def conn_alts(st, p):
    return [("ends", lambda s: [mk("reason", s.fresh())])]

def live(st):
    return [p for p in pend(st) if p.kind == "proto_conn"]

class Disp:
    def __init__(self, R, resolve=True, maxlive=2):
        f = R.prog.need("dispatch_accept")
        a = params(f)
        if len(a) != 13: raise Broken("dispatch_accept parameters changed")
        self.f, self.a = f, a
        (self.s, self.tgt, self.rtime, self.sas, self.sa_b, self.decr, self.nopfs, self.reqpfs, self.noka, self.K, self.nmax, self.timeo, self.done) = a
        st = State()
        st.iv[self.s] = (0, 2 ** 31 - 1)
        st.iv[self.nmax] = (1, 2 ** 31)
        for x in (self.sas, self.done): st.assume(mk("eq0", x), False)
        mem_write(st, self.done, ZERO, c(4), ZERO)
        st.aux["cur"] = self.sas
        m = Machine(R, models={"proto_conn_create": conn_create, "proto_conn_drop": conn_drop(lambda: self.m)},
                    alts={"proto_conn": conn_alts, "dnsthread": self.dns_alts}, max_states=1500, extra=lambda s: (s.aux.get("down", 0), s.bounds(self.nmax)))
        for n in ("dispatch_accept",): m.e.cfg.models.pop(n, None)
        self.m = m
        self.ini = m.call(f, a, st, "dispatch_accept")
        self.fin = R.prog.need("dispatch_shutdown")
        req = R.prog.need("dispatch_request_shutdown")
        good = []
        for t in self.ini:
            if t.st.isnull(t.ret) is True: continue
            t.st.aux["handle"] = t.ret; good.append(t)
        R.need(len(good), "dispatcher-created", 2)
        self.lim = maxlive
        self.cut = 0
        self.fatal = []
        def ops(st):
            h = st.aux.get("handle")
            if self.freed(st): return []
            o = [("dispatch_shutdown", self.fin, [h])]
            if not st.aux.get("down"): o.append(("dispatch_request_shutdown", req, [h], {"down": 1}))
            return o
        def stop(t):
            if isinstance(t.ret, str) or self.freed(t.st): return True
            if t.kind == "cb" and t.st.iszero(t.ret) is not True:
                self.fatal.append(t); return True
            if len(live(t.st)) > self.lim:
                self.cut += 1; return True
            return False
        m.explore(good, ops, stop)
        self.tail = []
        for t in self.fatal:
            self.tail += m.call(self.fin, [t.st.aux["handle"]], t.st.fork(), "dispatch_shutdown", t.trail, "op")
        if len(m.trans) < 30: raise Broken("dispatcher exploration is vacuous (%d transitions)" % len(m.trans))
        R.stats["transitions"] = R.stats.get("transitions", 0) + len(m.trans)
        R.notes.append("dispatcher explored with up to %d simultaneous connections (limit symbolic)" % (maxlive + 1))
    def dns_alts(self, st, p):
        def good(s):
            t = atom("heap", "saslist", s.fresh(), 0, p=True)
            s.wmem()[t] = Region(("init", 0))
            s.assume(mk("eq0", t), False)
            s.aux["cur"] = t
            return [t]
        return [("failed", lambda s: [ZERO]), ("resolved", good)]
    def freed(self, st):
        h = st.aux.get("handle")
        return h is not None and mem_region(st, base_off(h)[0]).freed is not None
    def at(self, t):
        return "dispatcher: " + trail(t)
    def doneval(self, st):
        return st.simp(mem_read(st, self.done, ZERO, 4, False))
    def running(self, t):
        return not isinstance(t.ret, str) and not self.freed(t.st) and t.st.aux.get("handle") is not None and not (t.kind == "cb" and t.st.iszero(t.ret) is not True)

def owned_socket(R, D, t):
    """an accepted socket belongs to exactly one connection, or is closed when none could be made"""
    if not (t.kind == "cb" and t.p.kind == "network_accept" and t.alt == "accepted"): return 0
    st = t.st; at = D.at(t)
    s = st.simp(t.args[1])
    okc = [e for e in t.evs if e.kind == "reg" and e.name == "proto_conn" and st.simp(e.args[0]) is s and e.ret is not ZERO]
    cl = [e for e in t.evs if e.kind == "call" and e.name == "close" and st.simp(e.args[0]) is s]
    R.ok(len(okc) + len(cl) == 1, "accepted-socket-owned", at, "the accepted socket is given to %d connections and closed %d times" % (len(okc), len(cl)), st)
    R.ok(okc or internal_failure(t.evs, st) is not None, "accepted-socket-served", at, "an accepted connection is dropped without cause", st)
    return 1

def accepts(st):
    return [p for p in pend(st) if p.kind == "network_accept"]

def C16(R):
    """Typestate of the dispatcher over every history of accepts, ends of connections and shutdown requests, with a symbolic connection limit:
    the number of live connections, the limit and the outstanding accept are related as required in every reachable state."""
    D = Disp(R, maxlive=3 if R.tier == "thorough" else 2)
    n = nacc = 0
    for t in D.m.trans:
        st = t.st
        at = D.at(t)
        # what happens to an accepted socket
        nacc += owned_socket(R, D, t)
        for e in t.evs:
            if e.kind == "reg" and e.name == "network_accept":
                R.ok(e.st.simp(e.args[0]) is D.s, "accepts-on-its-socket", at, "accepts on %s" % show(e.args[0]), e.st)
        if not D.running(t): continue
        n += 1
        L = len(live(st)); A = len(accepts(st))
        lo, hi = st.bounds(D.nmax)
        R.ok(lo >= L, "never-more-than-limit", at, "%d connections are open while the limit may be %s" % (L, lo), st)
        R.ok(A <= 1, "one-accept", at, "%d accepts outstanding" % A, st)
        if A: R.ok(lo >= L + 1, "accepts-only-with-room", at, "an accept is outstanding with %d connections open while the limit may be %s" % (L, lo), st)
        if not st.aux.get("down"):
            R.ok(A == 1 or hi <= L, "accepts-when-room", at, "no accept is outstanding with %d connections open while the limit may be %s" % (L, hi), st)
        if t.kind == "cb" and t.p.kind == "proto_conn":
            R.ok(len(live(t.pre)) - L == 1 or True, "end-frees-slot", at, "")
    nofaults(R, D.m.trans + D.m.aborts, D.at)
    R.need(n, "dispatcher-states", 20)
    R.need(nacc, "accepted-sockets", 5)

def C17(R):
    """Typestate of the dispatcher after a shutdown request; effect analysis of the signal handler; typestate of the periodic check; the event loop's condition in main."""
    D = Disp(R)
    n = 0
    for t in D.m.trans:
        st = t.st
        if not D.running(t): continue
        at = D.at(t)
        n += 1
        L = len(live(st)); down = bool(st.aux.get("down"))
        v = D.doneval(st)
        if down:
            R.ok(not accepts(st), "stops-accepting", at, "an accept is outstanding after the shutdown request", st)
            R.ok((v is not ZERO and st.iszero(v) is False) == (L == 0), "finishes-when-idle", at, "shutting down with %d connections open, but the loop's end flag is %s" % (L, show(v)), st)
        else:
            R.ok(v is ZERO, "runs-until-requested", at, "the loop's end flag is %s although no shutdown was requested" % show(v), st)
        if t.label == "dispatch_request_shutdown":
            R.ok(len(live(t.pre)) == L, "keeps-serving", at, "the shutdown request ends %d open connections" % (len(live(t.pre)) - L), st)
            R.ok(not [e for e in t.evs if e.kind == "cancel" and e.name == "proto_conn"], "keeps-serving", at, "the shutdown request drops connections", st)
            R.ok(not [e for e in memfaults(t.evs)], "request-clean", at, "memory fault", st)
    nofaults(R, [t for t in D.m.trans + D.m.aborts + D.tail if t.st.aux.get("down") or t.label == "dispatch_shutdown"], D.at)
    R.need(n, "dispatcher-states", 20)
    from . import graceful
    graceful.C17_graceful(R)

def C24(R):
    """Ownership of the target's address list in the dispatcher over every history of resolutions and connections."""
    D = Disp(R, maxlive=2)
    nres = nfail = ndup = 0
    for t in D.m.trans + D.tail:
        st = t.st; at = D.at(t)
        cur0 = t.pre.aux.get("cur"); cur = st.aux.get("cur")
        fr = [e for e in t.evs if e.kind == "call" and e.name == "sock_addr_freelist"]
        for e in t.evs:
            if e.kind == "call" and e.name == "sock_addr_duplist":
                ndup += 1
                R.ok(e.args[0] is cur, "uses-current-addresses", at, "a connection gets a copy of addresses that are not the current ones", e.st)
            if e.kind == "reg" and e.name == "proto_conn":
                own = [x for x in t.evs if x.kind == "call" and x.name == "sock_addr_duplist" and x.ret is e.args[1]]
                R.ok(len(own) == 1, "connection-owns-copy", at, "the connection is given addresses which are not its own copy", e.st)
            if e.kind == "reg" and e.name == "dnsthread":
                R.ok(e.args[1] is D.tgt, "resolves-target", at, "resolves %s" % show(e.args[1]), e.st)
                R.ok(not [p for p in pend(e.st) if p.kind == "dnsthread"], "one-resolution", at, "starts a resolution while one is running", e.st)
        if t.kind == "cb" and t.p.kind == "dnsthread":
            if t.alt == "failed":
                nfail += 1
                R.ok(not fr, "failure-keeps-addresses", at, "the addresses in use are freed although no new ones were found", st)
            else:
                nres += 1
                R.ok(len(fr) == 1 and fr[0].args[0] is not cur, "old-addresses-freed", at, "%d lists freed when new addresses arrive" % len(fr), st)
            tm = [e for e in t.evs if e.kind == "reg" and e.name == "events_timer"]
            R.ok(len(tm) == 1, "next-resolution-scheduled", at, "%d timers are set after a resolution" % len(tm), st)
            for e in tm: R.ok(e.args[2] is D.rtime, "resolution-interval", at, "the next resolution is scheduled after %s" % show(e.args[2]), e.st)
        elif t.label != "dispatch_shutdown":
            bad = [e for e in fr if base_off(e.args[0])[0] is cur]
            R.ok(not bad, "addresses-kept", at, "the addresses in use are freed", st)
        if t.kind == "cb" and t.p.kind == "events_timer":
            k = len([e for e in t.evs if e.kind == "reg" and e.name == "dnsthread"])
            R.ok(k == 1, "timer-resolves", at, "%d resolutions are started when the interval is over" % k, st)
        if t.label == "dispatch_accept" and st.isnull(t.ret) is not True:
            on = [b for b, v in st.bf.items() if b.op == "fcmp" and v is True or (b.op == "not" and v is False)]
            T = [e for e in t.evs if e.kind == "call" and e.name == "dnsthread_spawn"]
            tm = [e for e in t.evs if e.kind == "reg" and e.name == "events_timer"]
            R.ok(len(T) == len(tm), "resolution-started", at, "%d threads, %d timers" % (len(T), len(tm)), st)
            for e in tm: R.ok(e.args[2] is D.rtime, "resolution-interval", at, "the first resolution is scheduled after %s" % show(e.args[2]), e.st)
        if t.label == "dispatch_shutdown":
            n = len([e for e in fr if e.args[0] is cur])
            R.ok(n == 1, "addresses-freed-at-end", at, "the addresses in use are freed %d times" % n, st)
        if D.running(t) and not isinstance(t.ret, str):
            r = mem_region(st, base_off(cur)[0])
            R.ok(r.freed is None, "addresses-usable", at, "the addresses in use are freed memory", st)
            if [p for p in list(pend(t.pre)) + [t.p] * (t.kind == "cb") if p.kind in ("events_timer", "dnsthread")] and (t.ret is ZERO or not internal_failure(t.evs, st)):
                k = len([p for p in pend(st) if p.kind in ("events_timer", "dnsthread")])
                R.ok(k == 1, "resolution-never-stops", at, "%d resolutions or timers outstanding" % k, st)
    nofaults(R, D.m.trans + D.m.aborts + D.tail, D.at)
    R.need(nres, "resolved"); R.need(nfail, "failed-resolutions"); R.need(ndup, "copies")

def C18_dispatch(R):
    D = Disp(R)
    n = 0
    for t in D.m.aborts:
        R.ok(False, "no-assertion-failure", D.at(t) + " " + locs(t.evs[-1]), "an assertion fails", t.st)
    for t in D.m.trans:
        if t.kind != "cb": continue
        n += 1
        if isinstance(t.ret, str):
            R.ok(False, "no-exit", D.at(t), "the process ends", t.st); continue
        # what network_accept reports as failed is not something a peer can do (see the accept rules)
        fine = t.st.iszero(t.ret) is True or internal_failure(t.evs, t.st) is not None or (t.p.kind == "network_accept" and t.alt == "failed")
        R.ok(fine, "not-fatal", D.at(t), "%s of %s makes the handler report a fatal error (%s)" % (t.alt, t.p.kind, show(t.ret)), t.st)
    R.need(n, "dispatcher-events", 20)

def C29_dispatch(R):
    D = Disp(R, maxlive=1)
    from .conn import boolsame
    n = 0
    for t in D.m.trans:
        for E in t.evs:
            if E.kind != "reg" or E.name != "proto_conn": continue
            n += 1
            S = E.st; at = D.at(t)
            for i, w, name in ((2, D.sa_b, "bind-address"), (7, D.K, "secret"), (8, D.timeo, "timeout")):
                R.ok(E.args[i] is w, "daemon-" + name, at, "%s passed to the connection is %s" % (name, show(E.args[i])), S)
            for i, w, name in ((3, D.decr, "role"), (4, D.nopfs, "disable-pfs"), (5, D.reqpfs, "require-pfs"), (6, D.noka, "no-keepalive")):
                R.ok(boolsame(S, E.args[i], w), "daemon-" + name, at, "%s passed to the connection is %s" % (name, show(E.args[i])), S)
    R.need(n, "connections-started", 2)

def C31_dispatch(R):
    D = Disp(R)
    for t in D.m.trans + D.tail + D.m.aborts:
        for e in memfaults(t.evs):
            R.ok(False, "dispatcher-no-" + e.name, D.at(t) + " " + locs(e), "%s of %s" % (e.name, show(e.args[0]) if e.args else ""), e.st)
        R.ok(True, "dispatcher-no-memory-fault", D.at(t), "")
    R.need(sum(owned_socket(R, D, t) for t in D.m.trans), "accepted-sockets", 5)
    for t in D.m.trans + D.tail:
        gone = t.label == "dispatch_shutdown"
        failed = t.label == "dispatch_accept" and t.st.isnull(t.ret) is True
        if not (gone or failed): continue
        at = D.at(t)
        R.ok(not pend(t.st), "dispatcher-cancels-all", at, "still pending: %s" % (pend(t.st),), t.st)
        for b, r in t.st.mem.items():
            if b.op == "heap" and r.freed is None and t.st.isnull(b) is not True:
                R.ok(False, "dispatcher-frees-all", at, "leaks the object allocated by %s" % (b.a[0],), t.st)
        n = len([e for e in t.st.evlist() if e.kind == "call" and e.name == "close" and t.st.simp(e.args[0]) is D.s])
        R.ok(n == (1 if gone else 0), "listening-socket", at, "the listening socket is closed %d times" % n, t.st)
        if failed:
            R.ok(not [e for e in t.evs if e.name == "sock_addr_freelist"], "failed-start-leaves-addresses", at, "a failed start frees its caller's addresses", t.st)
