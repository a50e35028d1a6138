"""The connection object: C12, C13 and parts of C06, C15, C18, C29."""
import os, re
from .. import build
from .common import *
from ..machine import *

def reasons(R):
    """enumerators of the reasons, from the debug-free source header"""
    txt = open(os.path.join(build.REPO, "lib/proto/proto_conn.h")).read()
    txt = re.sub(r"/\*.*?\*/", "", txt, flags=re.S)
    m = re.search(r"enum\s*\w*\s*\{([^}]*)\}", txt)
    d = {}; n = 0
    if m:
        for x in m.group(1).split(","):
            x = x.strip()
            if not x: continue
            k, _, v = x.partition("=")
            if v.strip(): n = int(v, 0)
            d[k.strip()] = n; n += 1
    for k in ("PROTO_CONN_CLOSED", "PROTO_CONN_CANCELLED", "PROTO_CONN_CONNECT_FAILED", "PROTO_CONN_HANDSHAKE_FAILED", "PROTO_CONN_ERROR"):
        if k not in d: raise Broken("reason %s not found in proto_conn.h" % k)
    return d

class Conn:
    N = 11
    def __init__(self, R, decr, models=None):
        f = R.prog.need("proto_conn_create")
        a = params(f)
        if len(a) != 11: raise Broken("proto_conn_create parameters changed")
        a[3] = c(decr)
        self.f, self.a, self.decr = f, a, decr
        self.s, self.sas, self.sa_b, _, self.nopfs, self.reqpfs, self.noka, self.K, self.timeo, self.cb, self.ck = a
        st = State()
        st.assume(mk("eq0", self.cb), False)
        st.iv[self.s] = (0, 2 ** 31 - 1)
        st.assume(mk("eq0", self.sas), False)
        m = Machine(R, models=models, extra=lambda s: (len(icalls(s.evlist(), self.cb)),))
        self.m = m
        self.ini = m.call(f, a, st, "proto_conn_create")
        drop = R.prog.need("proto_conn_drop")
        self.rs = reasons(R)
        good = []
        for t in self.ini:
            if t.st.isnull(t.ret) is True: continue
            t.st.aux["handle"] = t.ret; good.append(t)
        R.need(len(good), "connection-created")
        def ops(st):
            h = st.aux.get("handle")
            if self.freed(st): return []
            return [("proto_conn_drop", drop, [h, c(self.rs["PROTO_CONN_CANCELLED"])])]
        m.explore(good, ops, stop=lambda t: isinstance(t.ret, str) or self.freed(t.st) or (t.kind == "cb" and t.st.iszero(t.ret) is False and not icalls(t.evs, self.cb)))
        if len(m.trans) < 30: raise Broken("connection exploration is vacuous (%d transitions)" % len(m.trans))
        R.stats["transitions"] = R.stats.get("transitions", 0) + len(m.trans)
    def freed(self, st):
        h = st.aux.get("handle")
        return h is not None and mem_region(st, base_off(h)[0]).freed is not None
    def at(self, t):
        return "connection as %s: %s" % ("server" if self.decr else "client", trail(t))
    def ends(self, t):
        return icalls(t.evs, self.cb)
    def end_of(self, E):
        return E.st.simp(E.args[2]) if len(E.args) > 2 else None

def closes(evs, fd, st):
    return [e for e in evs if e.kind == "call" and e.name == "close" and st.simp(e.args[0]) is st.simp(fd)]

def target_fd(st):
    return [v[0] for k, p, alt, v, e in completions(st.evlist()) if k == "network_connect" and alt == "connected"]

def C12(R):
    """Typestate of the connection object and of everything it owns over every history of its callbacks and owner operations."""
    for decr in (0, 1):
        C = Conn(R, decr)
        nend = 0
        for t in C.ini:
            R.ok(not C.ends(t), "no-end-before-start", C.at(t), "the owner is told of an end from within the constructor", t.st)
            if t.st.isnull(t.ret) is True:
                R.ok(not pend(t.st), "failed-start-leaves-nothing", C.at(t), "operations still pending after the start failed: %s" % (pend(t.st),), t.st)
                R.ok(not closes(t.evs, C.s, t.st) and not [e for e in t.evs if e.name == "sock_addr_freelist"], "failed-start-leaves-callers", C.at(t),
                     "a failed start must leave the socket and the addresses to the caller", t.st)
                unfreed(R, C, t, "failed-start-frees")
        for t in C.m.trans + C.m.aborts:
            for e in memfaults(t.evs):
                R.ok(False, "no-" + e.name, C.at(t) + " " + locs(e), "%s of %s" % (e.name, show(e.args[0]) if e.args else ""), e.st)
            R.ok(True, "no-memory-fault", C.at(t), "")
        for t in C.m.trans:
            hist = t.st.evlist()
            ends = icalls(hist, C.cb)
            R.ok(len(ends) <= 1, "owner-told-once", C.at(t), "the owner was told %d times" % len(ends), t.st)
            if not C.ends(t):
                if C.freed(t.st):
                    R.ok(False, "owner-told", C.at(t), "connection freed without telling its owner", t.st)
                # still running: nothing closed
                elif not (t.st.isnull(t.ret) is True and t.label == "proto_conn_create"):
                    fat = internal_failure(t.evs, t.st)
                    R.ok(fat is not None or not closes(t.evs, C.s, t.st), "socket-open-while-running", C.at(t), "socket closed while the connection lives on", t.st)
                    R.ok(bool(pend(t.st)) or fat is not None and not (t.kind == "cb" and t.ret is ZERO), "never-stuck", C.at(t), "alive but waiting for nothing", t.st)
                continue
            nend += 1
            E = C.ends(t)[0]
            R.ok(E.args[1] is C.ck, "owner-cookie", C.at(t), "cookie passed is %s" % show(E.args[1]), E.st)
            R.ok(C.freed(t.st), "state-freed", C.at(t), "connection state not freed", t.st)
            R.ok(not pend(E.st), "all-cancelled", C.at(t), "still pending when the owner is told: %s" % (pend(E.st),), E.st)
            R.ok(not pend(t.st), "all-cancelled", C.at(t), "still pending after the end: %s" % (pend(t.st),), t.st)
            n = len(closes(hist, C.s, t.st))
            R.ok(n == 1, "accepted-socket-closed-once", C.at(t), "accepted socket closed %d times" % n, t.st)
            for fd in target_fd(t.st):
                n = len(closes(hist, fd, t.st))
                R.ok(n == 1, "target-socket-closed-once", C.at(t), "target socket closed %d times" % n, t.st)
            oth = [e for e in hist if e.kind == "call" and e.name == "close" and t.st.simp(e.args[0]) not in [t.st.simp(x) for x in [C.s] + target_fd(t.st)]]
            R.ok(not oth, "closes-only-own", C.at(t), "closes %s" % (oth and show(oth[0].args[0])), t.st)
            n = len([e for e in hist if e.kind == "call" and e.name == "sock_addr_freelist" and e.args[0] is C.sas])
            R.ok(n == 1, "addresses-freed-once", C.at(t), "address list freed %d times" % n, t.st)
            for k, p, alt, v, e in completions(hist):
                if k == "proto_handshake" and alt == "done":
                    for key in v:
                        n = len([x for x in hist if x.kind == "call" and x.name == "proto_crypt_free" and x.args[0] is key])
                        R.ok(n == 1, "keys-freed-once", C.at(t), "key freed %d times" % n, t.st)
            unfreed(R, C, t, "everything-freed")
            # the reason
            rs = C.rs; rv = C.end_of(E)
            fat = internal_failure(t.evs, t.st)
            done = [(k, alt) for k, p, alt, v, e in completions(hist)]
            if t.kind == "op":
                R.ok(rv is c(rs["PROTO_CONN_CANCELLED"]), "reason", C.at(t), "reason %s for a cancellation" % show(rv), t.st)
            elif fat is not None:
                R.ok(rv is not c(rs["PROTO_CONN_CLOSED"]), "reason", C.at(t), "an internal error is reported as a normal end", t.st)
            elif t.p.kind == "network_connect":
                R.ok(rv is c(rs["PROTO_CONN_CONNECT_FAILED"]), "reason", C.at(t), "reason %s for a failed connect" % show(rv), t.st)
            elif t.p.kind == "proto_handshake":
                R.ok(rv is c(rs["PROTO_CONN_HANDSHAKE_FAILED"]), "reason", C.at(t), "reason %s for a failed handshake" % show(rv), t.st)
            elif t.p.kind == "proto_pipe":
                good = [a for k, a in done if k == "proto_pipe"] == ["eof", "eof"]
                R.ok((rv is c(rs["PROTO_CONN_CLOSED"])) == good, "reason", C.at(t), "reason %s after pipe outcomes %s" % (show(rv), [a for k, a in done if k == "proto_pipe"]), t.st)
            else:
                R.ok(rv is not c(rs["PROTO_CONN_CLOSED"]), "reason", C.at(t), "reason %s after %s" % (show(rv), t.p.kind), t.st)
            # failures end it
        for t in C.m.trans:
            if t.kind == "cb" and t.alt in ("failed", "error") or (t.kind == "cb" and t.p.kind == "events_timer"):
                R.ok(len(C.ends(t)) == 1, "failure-ends-connection", C.at(t), "%s of %s did not end the connection" % (t.alt, t.p.kind), t.st)
        R.need(nend, "ended-connections", 10)
    from . import hs, pipe
    for decr in (0, 1):
        H = hs.HS(R, decr)
        for t in H.m.trans + H.m.aborts:
            for e in memfaults(t.evs):
                R.ok(False, "handshake-no-" + e.name, H.at(t) + " " + locs(e), "%s of %s" % (e.name, show(e.args[0]) if e.args else ""), e.st)
            R.ok(True, "handshake-no-memory-fault", H.at(t), "")
            if t.label == "proto_handshake_cancel":
                R.ok(not pend(t.st) and not H.alive(t) and not H.cbs(t), "handshake-cancel", H.at(t), "after cancelling: pending %s" % (pend(t.st),), t.st)
            if H.cbs(t):
                R.ok(not pend(t.st) and not H.alive(t), "handshake-end", H.at(t), "after the end: pending %s" % (pend(t.st),), t.st)
    pipe.C12_pipe(R)
    from . import netbuf
    netbuf.C12_netbuf(R)

def unfreed(R, C, t, rule):
    """heap objects made since the start that nobody owns any more"""
    for b, r in t.st.mem.items():
        if b.op == "heap" and r.freed is None and t.st.isnull(b) is not True:
            R.ok(False, rule, C.at(t), "leaks the object allocated by %s at line %s" % (b.a[0], b.a[2] if len(b.a) > 2 else "?"), t.st)
    R.ok(True, rule, C.at(t), "")

def C13(R):
    """In every reachable state with an outstanding connect or handshake a timer for the configured timeout is pending, and in no other state."""
    for decr in (0, 1):
        C = Conn(R, decr)
        n = 0
        for t in C.m.trans:
            if t.kind != "cb" and t.label != "proto_conn_create": continue
            if C.freed(t.st) or isinstance(t.ret, str) or (t.label == "proto_conn_create" and t.st.isnull(t.ret) is True): continue
            if t.kind == "cb" and internal_failure(t.evs, t.st): continue
            ps = pend(t.st)
            steps = [p for p in ps if p.kind in ("network_connect", "proto_handshake")]
            timers = [p for p in ps if p.kind == "events_timer"]
            n += 1
            R.ok(len(timers) >= min(1, len(steps)), "timer-while-waiting", C.at(t), "%s outstanding without a timer" % (steps,), t.st)
            R.ok(len(timers) == len(steps), "one-timer-per-step", C.at(t), "outstanding steps %s, timers %s: a step is unbounded or a finished step's timer is still running" % (steps, [show(x.cb) for x in timers]), t.st)
            for p in timers:
                v = p.args[2]
                R.ok(v is C.timeo, "configured-timeout", C.at(t), "timer armed for %s instead of the configured timeout" % show(v), t.st)
        for t in C.m.trans:
            if t.kind == "cb" and t.p.kind == "events_timer":
                R.ok(len(C.ends(t)) == 1 and C.freed(t.st), "expiry-ends-connection", C.at(t), "expiry of the timer does not drop the connection", t.st)
        # each step's timer is armed no later than the step, and is cancelled in the transition that ends the step
        for t in C.m.trans:
            if t.kind == "cb" and t.p.kind in ("network_connect", "proto_handshake"):
                k = len([e for e in t.evs if e.kind == "cancel" and e.name == "events_timer"])
                R.ok(k >= 1, "timer-cancelled-with-step", C.at(t), "the timer of the finished step was not cancelled", t.st)
        nofaults(R, C.m.trans + C.m.aborts, C.at)
        R.need(n, "states-checked", 8)

def conn_args(R, C, args=("nopfs", "reqpfs")):
    """(rule, ok, where, message, state) obligations on what the connection passes on"""
    n = {"hs": 0, "pipe": 0, "connect": 0, "ka": 0}
    def eqb(st, a, b): return st.simp(a) is st.simp(b)
    for t in C.m.trans:
        for E in t.evs:
            st = E.st
            if E.kind == "reg" and E.name == "network_connect":
                n["connect"] += 1
                R.ok(E.args[0] is C.sas, "connects-to-target", C.at(t), "connects to %s instead of the addresses given" % show(E.args[0]), st)
                R.ok(len(E.args) == 4 and E.args[1] is C.sa_b or (len(E.args) == 3 and st.isnull(C.sa_b) is True), "binds-address", C.at(t), "bind address %s" % show(E.args[1]), st)
            if E.kind == "reg" and E.name == "proto_handshake":
                n["hs"] += 1
                want = [C.s] if C.decr else target_fd(st)
                R.ok(any(eqb(st, E.args[0], w) for w in want), "handshake-side", C.at(t), "as %s the handshake must run on the %s socket, runs on %s" % ("server" if C.decr else "client", "accepted" if C.decr else "connected", show(E.args[0])), st)
                R.ok(boolsame(st, E.args[1], c(C.decr)), "handshake-role", C.at(t), "role passed is %s" % show(E.args[1]), st)
                R.ok(boolsame(st, E.args[2], C.nopfs), "option-disable-pfs", C.at(t), "the switch disabling forward secrecy arrives as %s" % show(E.args[2]), st)
                R.ok(boolsame(st, E.args[3], C.reqpfs), "option-require-pfs", C.at(t), "the switch requiring forward secrecy arrives as %s" % show(E.args[3]), st)
                R.ok(E.args[4] is C.K, "secret", C.at(t), "secret %s" % show(E.args[4]), st)
            if E.kind == "call" and E.name == "setsockopt" and st.simp(E.args[1]) is c(1) and st.simp(E.args[2]) is c(9):
                n["ka"] += 1
                b, o = base_off(E.args[3])
                v = st.simp(mem_read(E.st, b, o, 4, False))
                z = st.iszero(C.noka)
                if z is not None:
                    R.ok(st.iszero(v) is (not z), "keep-alive-switch", C.at(t), "keep-alive set to %s when the switch disabling it is %s" % (show(v), "off" if z else "on"), st)
                else:
                    R.ok(v is neg(mk("eq0", C.noka)) and False or v is mk("eq0", C.noka), "keep-alive-switch", C.at(t), "keep-alive set to %s" % show(v), st)
        fds = [t.st.simp(E.args[0]) for E in t.st.evlist() if E.kind == "call" and E.name == "setsockopt" and t.st.simp(E.args[1]) is c(1) and t.st.simp(E.args[2]) is c(9)]
        if [E for E in t.evs if E.kind == "reg" and E.name == "proto_pipe" and E.ret is not ZERO]:
            want = {t.st.simp(C.s)} | {t.st.simp(x) for x in target_fd(t.st)}
            R.ok(set(fds) == want and len(fds) == len(want), "keep-alive-both-sockets", C.at(t), "keep-alive is configured on %s, must be on both sockets" % [show(x) for x in fds], t.st)
        regs = [E for E in t.st.evlist() if E.kind == "reg" and E.name == "proto_pipe"]
        if [E for E in t.evs if E in regs]:
            n["pipe"] += 1
            st = t.st
            keys = [v for k, p, alt, v, e in completions(st.evlist()) if k == "proto_handshake" and alt == "done"]
            for E in regs:
                tf = target_fd(st)
                fwd = st.simp(E.args[0]) is st.simp(C.s) and tf and st.simp(E.args[1]) is st.simp(tf[0])
                rev = st.simp(E.args[1]) is st.simp(C.s) and tf and st.simp(E.args[0]) is st.simp(tf[0])
                if not R.ok(bool(fwd or rev), "pipe-sockets", C.at(t), "pipe from %s to %s" % (show(E.args[0]), show(E.args[1])), st): continue
                want = C.decr if fwd else 1 - C.decr
                R.ok(boolsame(st, E.args[2], c(want)), "pipe-direction", C.at(t), "the pipe reading the %s socket must %s" % ("accepted" if fwd else "target", "decrypt" if want else "encrypt"), st)
                if R.ok(len(keys) == 1, "keys-available", C.at(t), "pipe started without keys", st):
                    wk = keys[0][0] if fwd else keys[0][1]
                    R.ok(E.args[3] is wk, "pipe-key", C.at(t), "the direction from %s must use the %s key" % ("client to server" if fwd else "server to client", "client's" if fwd else "server's"), st)
            good = [E for E in regs if E.ret is not ZERO]
            if len(good) == 2 and not internal_failure(t.evs, t.st):
                R.ok({st.simp(E.args[0]) for E in good} == {st.simp(C.s)} | {st.simp(x) for x in target_fd(st)}, "both-directions", C.at(t), "both pipes read %s" % show(good[0].args[0]), st)
                sv = {E.args[4] for E in good}
                R.ok(len(sv) == 2, "separate-status", C.at(t), "both directions report into one status", st)
            if not internal_failure(t.evs, t.st):
                R.ok(len(good) == 2, "both-directions", C.at(t), "%d pipes started" % len(good), st)
    for k, v in n.items(): R.need(v, "connection-" + k)

def boolsame(st, x, y):
    """equal as C truth values"""
    x = st.simp(x); y = st.simp(y)
    if x is y: return True
    a, b = st.iszero(x), st.iszero(y)
    if a is not None and a is b: return True
    if b is None and isbool(x): return x is neg(mk("eq0", y))
    return False

C06_RULES = ("handshake-side", "handshake-role", "secret", "pipe-sockets", "pipe-direction", "keys-available", "pipe-key", "both-directions")

def C06_conn(R):
    for decr in (0, 1):
        conn_args(Only(R, lambda r: r in C06_RULES), Conn(R, decr))

def C15_conn(R):
    for decr in (0, 1):
        C = Conn(R, decr)
        n = 0
        for t in C.m.trans:
            if t.kind != "cb" or t.p.kind != "proto_pipe": continue
            outs = [alt for k, p, alt, v, e in completions(t.st.evlist()) if k == "proto_pipe"]
            n += 1
            if outs == ["eof"]:
                R.ok(not C.ends(t) and not C.freed(t.st), "other-direction-continues", C.at(t), "the connection ended although only one direction did", t.st)
                R.ok(t.st.simp(t.ret) is ZERO, "half-close-not-fatal", C.at(t), "returns %s to the event loop" % show(t.ret), t.st)
                left = [p for p in pend(t.st) if p.kind == "proto_pipe" and p.armed]
                R.ok(len(left) == 1, "other-direction-continues", C.at(t), "pipes still running: %d" % len(left), t.st)
                R.ok(not [e for e in t.evs if e.kind == "call" and e.name == "close"], "other-direction-continues", C.at(t), "a socket was closed", t.st)
            elif outs == ["eof", "eof"]:
                es = C.ends(t)
                R.ok(len(es) == 1 and C.end_of(es[0]) is c(C.rs["PROTO_CONN_CLOSED"]), "ends-normally", C.at(t), "after both directions ended the owner must be told of a normal end", t.st)
            elif "error" in outs:
                es = C.ends(t)
                R.ok(len(es) == 1 and C.end_of(es[0]) is not c(C.rs["PROTO_CONN_CLOSED"]), "error-ends-connection", C.at(t), "an error in one direction must end the connection and not as a normal end", t.st)
        nofaults(R, C.m.trans + C.m.aborts, C.at)
        R.need(n, "pipe-outcomes", 4)

def C18_conn(R):
    for decr in (0, 1):
        C = Conn(R, decr)
        for t in C.m.aborts:
            if t.kind == "cb":
                R.ok(False, "no-assertion-failure", C.at(t) + " " + locs(t.evs[-1]), "an assertion fails", t.st)
        n = 0
        for t in C.m.trans:
            if t.kind != "cb": continue
            n += 1
            R.ok(not isinstance(t.ret, str), "no-exit", C.at(t), "the process ends", t.st)
            if isinstance(t.ret, str): continue
            fat = internal_failure(t.evs, t.st)
            es = C.ends(t)
            okk = t.st.simp(t.ret) is ZERO or fat is not None or (es and t.ret is es[0].ret)
            R.ok(bool(okk), "not-fatal", C.at(t), "%s of %s makes the handler report a fatal error (%s)" % (t.alt, t.p.kind, show(t.ret)), t.st)
        R.need(n, "events", 10)
