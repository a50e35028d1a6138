"""What peers and the network can cause never ends the daemon: C18."""
from .common import *
from ..machine import *
from . import hs, conn, pipe, disp, netbuf, netio

PEER_ACCEPT = (11, 103, 4)      # EAGAIN = EWOULDBLOCK, ECONNABORTED, EINTR

def m_accept(e, st, fr, a, ins):
    s2 = st.fork()
    ev = e.event(s2, "call", "accept", tuple(a), c(-1), fr, ins)
    ev.x = M.set_errno(s2, "accept")
    t = mk("newfd", "accept", st.fresh())
    st.wfacts(); st.iv[t] = (0, 2 ** 31 - 1)
    e.event(st, "call", "accept", tuple(a), t, fr, ins)
    return [(st, t), (s2, c(-1))]

def accepting(R):
    f = R.prog.need("network_accept"); fc = R.prog.need("network_accept_cancel")
    fd, cb, ck = a = params(f)
    m = Machine(R, models={"accept": m_accept, "accept4": m_accept}, merge=False)
    for x in ("network_accept", "network_accept_cancel"): m.e.cfg.models.pop(x, None)
    st = State()
    st.iv[fd] = (0, 2 ** 31 - 1); st.assume(mk("eq0", cb), False)
    good = []
    for t in m.call(f, a, st, "network_accept"):
        if isinstance(t.ret, str) or t.st.isnull(t.ret) is True: continue
        t.st.aux["handle"] = t.ret; good.append(t)
    R.need(len(good), "accept-starts")
    freed = lambda st: mem_region(st, base_off(st.aux["handle"])[0]).freed is not None
    m.explore(good, lambda st: [("network_accept_cancel", fc, [st.aux["handle"]])], lambda t: isinstance(t.ret, str) or (t.kind == "cb" and t.st.iszero(t.ret) is not True) or freed(t.st))
    at = lambda t: "network_accept: " + trail(t)
    n = {"accepted": 0, "again": 0, "failed": 0}
    for t in m.aborts: R.ok(False, "no-assertion-failure", at(t) + " " + locs(t.evs[-1]), "an assertion fails", t.st)
    for t in m.trans:
        if t.kind != "cb": continue
        st = t.st
        if not R.ok(not isinstance(t.ret, str), "no-exit", at(t), "the process ends", st): continue
        es = icalls(t.evs, cb)
        ac = [x for x in t.evs if x.kind == "call" and x.name in ("accept", "accept4")]
        R.ok(len(es) <= 1, "accept-reports-once", at(t), "calls back %d times" % len(es), st)
        R.ok(bool(ac), "accept-tries", at(t), "a ready listening socket is not used", st)
        for x in ac: R.ok(st.simp(x.args[0]) is fd, "accept-own-socket", at(t), "accepts from %s" % show(x.args[0]), st)
        if not ac: continue
        last = ac[-1]
        regf = internal_failure(t.evs, st)
        if es:
            E = es[0]; v = E.st.simp(E.args[2])
            R.ok(E.args[1] is ck and t.ret is E.ret, "accept-result", at(t), "cookie %s, result %s" % (show(E.args[1]), show(t.ret)), st)
            R.ok(not pend(st) and freed(st), "accept-over", at(t), "after reporting: pending %s" % (pend(st),), st)
            if last.ret is c(-1):
                n["failed"] += 1
                R.ok(v is c(-1), "accept-result", at(t), "an error is reported as %s" % show(v), st)
                bad = [k for k in PEER_ACCEPT if netio.maybe(st, last.x, k)]
                R.ok(not bad, "accept-aborted-not-fatal", at(t), "accept failing with errno %s is reported as an error, which ends the daemon" % bad, st)
            else:
                n["accepted"] += 1
                R.ok(v is last.ret, "accept-result", at(t), "connection %s is reported as %s" % (show(last.ret), show(v)), st)
        else:
            n["again"] += 1
            R.ok(last.ret is c(-1), "accept-result", at(t), "an accepted connection is dropped", st)
            if regf is None:
                R.ok(st.iszero(t.ret) is True, "not-fatal", at(t), "reports a fatal error (%s)" % show(t.ret), st)
                R.ok(len(pend(st)) == 1 and not freed(st), "accept-waits-again", at(t), "pending: %s" % (pend(st),), st)
    nofaults(R, m.trans, at)
    for k, v in n.items(): R.need(v, "accept-" + k)

def handshakes(R):
    for decr in (0, 1):
        H = hs.HS(R, decr)
        n = 0
        for t in H.m.aborts:
            if t.kind == "cb": R.ok(False, "no-assertion-failure", H.at(t) + " " + locs(t.evs[-1]), "an assertion fails", t.st)
        for t in H.m.trans:
            if t.kind != "cb": continue
            n += 1
            if not R.ok(not isinstance(t.ret, str), "no-exit", H.at(t), "the process ends", t.st): continue
            es = H.cbs(t)
            fine = t.st.iszero(t.ret) is True or internal_failure(t.evs, t.st) is not None or bool(es and t.ret is es[0].ret)
            R.ok(fine, "not-fatal", H.at(t), "%s of %s makes the handler report a fatal error (%s)" % (t.alt, t.p.kind, show(t.ret)), t.st)
        R.need(n, "handshake-events", 8)

def reader(R):
    N, cb, ck, ln, waits, after = netbuf.analysed(R)
    n = 0
    for t in N.m.aborts:
        if t.kind == "cb": R.ok(False, "no-assertion-failure", netbuf.at(t) + " " + locs(t.evs[-1]), "an assertion fails", t.st)
    for t, u, ex in after:
        if ex == ["cancel"]: continue
        n += 1
        if not R.ok(not isinstance(u.ret, str), "no-exit", netbuf.at(u), "the process ends", u.st): continue
        es = icalls(u.evs, cb)
        R.ok(u.st.iszero(u.ret) is True or bool(es and u.ret is es[0].ret), "not-fatal", netbuf.at(u), "%s of the read makes the handler report a fatal error (%s)" % (u.alt, show(u.ret)), u.st)
    R.need(n, "reader-events", 4)

def transfers(R):
    for name, op in (("network_read", 0), ("network_write", 1)):
        B = netio.Buf(R, name, op)
        B.retried(R)
        n = 0
        for rnd in B.rounds:
            for t, u in rnd:
                at = B.at(u); st = u.st
                if not R.ok(not isinstance(u.ret, str), "no-exit", at, "ends in %s" % (u.ret,), st): continue
                es = B.told(u); n += 1
                regf = internal_failure(u.evs, st)
                R.ok(st.iszero(u.ret) is True or regf is not None or bool(es and u.ret is es[0].ret), "not-fatal", at, "reports a fatal error (%s)" % show(u.ret), st)
                for x in B.xs(u):
                    if x.name in ("send", "sendto"):
                        fl = st.simp(x.args[3])
                        R.ok(fl.op == "c" and fl.a[0] & netio.NOSIGNAL == netio.NOSIGNAL or ignored(R), "no-sigpipe", at + " " + locs(x), "sends with flags %s: a peer which has gone raises SIGPIPE" % show(fl), st)
                    elif x.name == "write":
                        R.ok(ignored(R), "no-sigpipe", at + " " + locs(x), "a write to a peer which has gone raises SIGPIPE", st)
        R.need(n, name + "-events", 5)

def ignored(R):
    """the daemon ignores SIGPIPE altogether"""
    if "sigpipe" not in R.stats:
        f = R.prog.need("main", "spiped/main.c")
        R.stats["sigpipe"] = sum(1 for g, n, I in call_sites(R, {"signal", "__sysv_signal"}) if g is f and len(I.a) == 2 and I.a[0][1][:2] == ("i", 13) and I.a[1][1][0] not in ("null", "g"))
    return bool(R.stats["sigpipe"])

NETSRC = ("lib/proto/", "spiped/dispatch.c", "libcperciva/network/", "libcperciva/netbuf/")
def senders(R):
    """no other construct of the connection code writes to a descriptor by itself"""
    n = 0
    for g, name, I in call_sites(R, {"write", "writev", "dprintf", "vdprintf", "sendmsg", "sendmmsg", "sendfile", "splice", "fdopen", "noeintr_write"}):
        if not g.mod.src.startswith(NETSRC): continue
        R.ok(ignored(R), "no-sigpipe", "%s (%s:%s)" % (g.name, g.mod.src, I.dbg), "%s to a socket can raise SIGPIPE" % name)
    for m in R.prog.mods.values():
        if m.src.startswith(NETSRC): n += len(m.funcs)
    R.ok(True, "no-sigpipe", "%d functions scanned" % n, "")
    R.need(n, "functions-scanned", 30)

def C18(R):
    """Typestate of every callback-driven object of the daemon: each transition caused by something a peer or the network can do, and what its handler then
    reports to the event loop; the errno classes of accept, send, recv and shutdown; the flags of every send."""
    accepting(R)
    transfers(R)
    reader(R)
    handshakes(R)
    pipe.C18_pipe(R)
    conn.C18_conn(R)
    disp.C18_dispatch(R)
    for entry in ("network_connect", "network_connect_bind", "network_connect_timeo"):
        for k in (0, 1, 2):
            C = netio.Conn(Only(R, lambda r: r in ("fatal-only-internally", "no-assertion-failure")), entry, k)
            C.judge(Only(R, lambda r: r in ("fatal-only-internally", "no-assertion-failure")))
    senders(R)
