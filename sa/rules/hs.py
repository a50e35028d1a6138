"""Handshake: C04, C05, C06 (handshake part), C07 (handshake part)."""
from .common import *
from ..machine import *
from . import keys
from .keys import kmodels, keyparts, dkslice, canon_zeros

PUB, MACLEN, NONCE = 256, 32, 32
ONE_BYTES = lambda: bcat([mk("b.fill", ZERO, c(PUB - 1)), norm_b(mk("b.const", b"\x01"))])
P = {}

def hist_key(st):
    """what completed so far, in order (part of the abstract state, so that histories are not confused)"""
    out = []
    for k, p, alt, vals, e in completions(st.evlist()):
        n = cv(st.simp(p.args[2])) if k in ("network_read", "network_write") else None
        out.append((k, n, alt))
    return tuple(out)

def one_read(st, p):
    """outcomes of a network read when the peer sends the value 1, MACed or not"""
    out = ALTS["network_read"](st, p)
    if cv(st.simp(p.args[2])) != PUB + MACLEN: return out
    def f(s):
        b, o = base_off(p.args[1])
        mem_write(s, b, o, c(PUB + MACLEN), bcat([ONE_BYTES(), mk("b.fn", "net", p.n, "mac", c(MACLEN))]))
        return [s.simp(p.args[2])]
    return [x for x in out if x[0] != "complete"] + [("complete", f)]

class HS:
    """the explored handshake of one role"""
    def __init__(self, R, decr, nopfs=None, requirepfs=None, one=False):
        f = R.prog.need("proto_handshake")
        ps = params(f)
        if len(ps) != 7: raise Broken("proto_handshake parameters changed")
        a = list(ps)
        a[1] = c(decr)
        if nopfs is not None: a[2] = c(nopfs)
        if requirepfs is not None: a[3] = c(requirepfs)
        self.a, self.decr, self.f = a, decr, f
        self.cb, self.ck = a[5], a[6]
        m = Machine(R, models=kmodels(), alts={"network_read": one_read} if one else None, extra=hist_key, **({"unroll": 300} if one else {}))
        self.m = m
        st = State()
        st.assume(mk("eq0", self.cb), False)
        ini = m.call(f, a, st, "proto_handshake")
        self.ini = ini
        can = R.prog.need("proto_handshake_cancel")
        def ops(st):
            h = st.aux.get("handle")
            if h is None or icalls(st.evlist(), self.cb): return []
            r = mem_region(st, base_off(h)[0])
            if r.freed is not None: return []
            return [("proto_handshake_cancel", can, [h])]
        good = []
        for t in ini:
            if t.st.isnull(t.ret) is True: continue
            t.st.aux["handle"] = t.ret
            good.append(t)
        R.need(len(good), "handshake-created")
        self.ok0 = good
        m.explore(good, ops, stop=lambda t: isinstance(t.ret, str) or (t.kind == "cb" and not self.alive(t)))
        if len(m.trans) < 12: raise Broken("handshake exploration is vacuous (%d transitions)" % len(m.trans))
    def alive(self, t):
        h = t.st.aux.get("handle")
        if h is None: return False
        return mem_region(t.st, base_off(h)[0]).freed is None
    def cbs(self, t):
        return icalls(t.evs, self.cb)
    def succ(self, E):
        """success / failure report / mixed"""
        n = [E.st.isnull(x) for x in E.args[2:4]]
        if n == [True, True]: return "fail"
        if n == [False, False]: return "ok"
        # key objects come from malloc: possibly-null pointers that were tested
        return "mixed"
    def at(self, t):
        return "handshake as %s: %s" % ("server" if self.decr else "client", trail(t))

def bufat(E_or_st, p, n=None):
    b, o = base_off(p.args[1])
    st = E_or_st
    return content(st, b, o, st.simp(p.args[2]) if n is None else c(n))

def full_ops(hist, st):
    """completed reads and writes that transferred everything: [(kind, size, pend, event)]"""
    out = []
    for k, p, alt, vals, e in completions(hist):
        if k not in ("network_read", "network_write"): continue
        n = st.simp(p.args[2])
        ln = st.simp(vals[0])
        ok = st.lb(sub(ln, n)) >= 0
        out.append((k, cv(n), p, e, ok))
    return out

def validated(st, net, mackey=None):
    """facts the state holds about a received 288-byte value: (mac verified [its key], below the modulus)"""
    pub = bslice(st, net, ZERO, c(PUB)); mac = bslice(st, net, c(PUB), c(MACLEN))
    key = None; below = False
    for b, v in list(st.bf.items()):
        for x in (b.a if b.op in ("eq0", "lt0") else ()):
            if not isinstance(x, T): continue
    for t in set(list(st.iv) + [x.a[0] for x in st.bf if x.op in ("eq0", "lt0")]):
        if t.op == "verify" and st.iszero(t) is True and t.a[2] is c(MACLEN):
            for u, w in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if u is mac and w.op == "b.fn" and w.a[0] == "HMAC" and w.a[2] is pub:
                    key = w.a[1]
        if t.op == "memcmp" and t.a[2] is c(PUB):
            x, y = t.a[0], t.a[1]
            if x is pub and isgroup(y) and st.ub(t) < 0: below = True
            if y is pub and isgroup(x) and st.lb(t) > 0: below = True
    return key, below

_G = {}
def group14():
    """RFC 3526 section 3: 2^2048 - 2^1984 - 1 + 2^64 * ([2^1918 pi] + 124476)"""
    if "p" not in _G:
        def atan_inv(x, bits):
            t = (1 << bits) // x; s = t; n = 3; sg = -1
            while t:
                t //= x * x
                s += sg * (t // n); n += 2; sg = -sg
            return s
        b = 1918 + 64
        pi = 4 * (4 * atan_inv(5, b) - atan_inv(239, b))
        _G["p"] = (2 ** 2048 - 2 ** 1984 - 1 + 2 ** 64 * ((pi >> 64) + 124476)).to_bytes(256, "big")
    return _G["p"]

def isgroup(b):
    if b.op == "b.const": return b.a[0] == group14()
    return b.op == "b.mem" and b.a[0].op == "glob" and b.a[0].a[0].split(":")[-1].endswith("crypto_dh_group14") and b.a[2] is ZERO

def netread(e_pend, st):
    """the byte string the peer delivered in a completed read"""
    return mk("b.fn", "net", e_pend.n, show(e_pend.cb), st.simp(e_pend.args[2]))

def C05(R):
    """Event-machine typestate of the handshake: every order and outcome of its network operations, plus cancellation."""
    for decr in (0, 1):
        H = HS(R, decr)
        fd = H.a[0]
        nok = nfail = 0
        for t in H.ini:
            R.ok(not H.cbs(t), "no-synchronous-report", H.at(t), "the handshake must not report its end before it returned", t.st)
            if t.st.isnull(t.ret) is True:
                R.ok(not pend(t.st), "failed-start-leaves-nothing", H.at(t), "operations still pending after the start failed: %s" % (pend(t.st),), t.st)
        for t in H.m.trans:
            for E in t.evs:
                if E.kind == "reg" and E.name in ("network_read", "network_write"):
                    R.ok(t.st.simp(E.args[0]) is t.st.simp(fd), "handshake-socket", H.at(t), "operation on %s instead of the connection's socket" % show(E.args[0]), E.st)
            for p in pend(t.st):
                if p.kind != "network_write": continue
                reg = [E for E in t.st.evlist() if E.kind == "reg" and E.ret is p.h][0]
                R.ok(bufat(t.st, p) is bufat(reg.st, p), "write-buffer-stable", H.at(t), "buffer being sent was changed before it was sent completely", t.st)
            cbs = H.cbs(t)
            before = icalls(t.pre.evlist(), H.cb)
            if t.kind == "op":
                if t.label != "proto_handshake_cancel": continue
                R.ok(not cbs, "cancel-silent", H.at(t), "cancelling must not report an end", t.st)
                R.ok(not pend(t.st) and not H.alive(t), "cancel-complete", H.at(t), "after cancelling: pending %s, object %s" % (pend(t.st), "alive" if H.alive(t) else "freed"), t.st)
                continue
            R.ok(len(cbs) + len(before) <= 1, "one-report", H.at(t), "the end was reported %d times" % (len(cbs) + len(before)), t.st)
            fatal = internal_failure(t.evs, t.st)
            for E in cbs:
                k = H.succ(E)
                R.ok(k != "mixed", "keys-both-or-none", H.at(t), "one key without the other was handed out", E.st)
                R.ok(E.args[1] is H.ck, "report-cookie", H.at(t), "the owner's cookie must be passed back, %s was" % show(E.args[1]), E.st)
                R.ok(not pend(E.st), "nothing-pending-at-report", H.at(t), "operations still pending when the end is reported: %s" % (pend(E.st),), E.st)
                R.ok(not H.alive(t), "object-freed", H.at(t), "handshake state not freed after its end was reported", t.st)
                R.ok(t.ret is E.ret, "report-status-returned", H.at(t), "the owner's status must be returned to the event loop, %s is" % show(t.ret), t.st)
                if k == "fail":
                    nfail += 1
                    continue
                nok += 1
                hist = []
                for X in E.st.evlist(): hist.append(X)
                ops = full_ops(hist, E.st)
                R.ok(all(o[4] for o in ops), "no-success-after-failure", H.at(t), "keys handed out although an operation failed or was incomplete", E.st)
                got = {(o[0], o[1]) for o in ops if o[4]}
                for need, what in ((("network_write", NONCE), "local nonce sent"), (("network_read", NONCE), "peer's nonce received"),
                                   (("network_write", PUB + MACLEN), "local key-exchange value sent"), (("network_read", PUB + MACLEN), "peer's key-exchange value received")):
                    R.ok(need in got, "complete-before-keys", H.at(t), "keys handed out without: %s completely (done: %s)" % (what, sorted(got)), E.st)
                rd = [o for o in ops if o[0] == "network_read" and o[1] == PUB + MACLEN]
                for o in rd:
                    k2, below = validated(E.st, netread(o[2], E.st))
                    R.ok(k2 is not None and below, "validated-before-keys", H.at(t), "keys handed out without validating the peer's value", E.st)
            if not cbs:
                bad = t.p is not None and t.alt in ("error", "eof")
                if fatal is None:
                    R.ok(not bad, "failure-reported", H.at(t), "a failed operation must end the handshake with a failure report", t.st)
                    R.ok(H.alive(t) and pend(t.st), "never-stuck", H.at(t), "neither finished nor waiting for anything", t.st)
                elif t.ret is c(0):
                    R.ok(H.alive(t) and pend(t.st), "never-stuck", H.at(t), "neither finished nor waiting for anything, and no failure returned, after an internal failure", t.st)
            else:
                if t.alt in ("error", "eof"):
                    R.ok(all(H.succ(E) == "fail" for E in cbs), "failure-reported", H.at(t), "a failed operation must end the handshake with a failure report", t.st)
            # the accepting side's value only after validation
            for E in t.evs:
                if decr and E.kind == "reg" and E.name == "network_write" and E.st.simp(E.args[2]) is c(PUB + MACLEN):
                    rd = [o for o in full_ops(E.st.evlist(), E.st) if o[0] == "network_read" and o[1] == PUB + MACLEN and o[4]]
                    okv = [validated(E.st, netread(o[2], E.st)) for o in rd]
                    R.ok(bool(okv) and all(k and b for k, b in okv), "server-sends-after-validation", H.at(t), "the accepting side sends its key-exchange value before it validated the peer's", E.st)
            # nonces before values
            for E in t.evs:
                if E.kind == "reg" and E.name == "network_write" and E.st.simp(E.args[2]) is c(PUB + MACLEN):
                    g = {(o[0], o[1]) for o in full_ops(E.st.evlist(), E.st) if o[4]}
                    R.ok(("network_write", NONCE) in g and ("network_read", NONCE) in g, "nonces-first", H.at(t), "key-exchange value sent before the nonces were exchanged", E.st)
        R.need(nok, "success-transitions"); R.need(nfail, "failure-transitions", 4)
        R.stats["transitions"] = R.stats.get("transitions", 0) + len(H.m.trans)

def roles(R):
    """what each role sends, accepts and derives, in the common names NC, NS (nonces), Y received, x private"""
    out = {}
    NC, NS = mk("nonceC"), mk("nonceS")
    NC, NS = mk("b.fn", "NC", c(NONCE)), mk("b.fn", "NS", c(NONCE))
    for decr in (0, 1):
        for nopfs in (0, 1):
            H = HS(R, decr, nopfs)
            info = {"sent": set(), "verify": set(), "keys": set(), "nonce": set(), "H": H, "x": set()}
            for t in H.m.trans:
                for E in t.evs:
                    st = E.st
                    isok = E.kind == "icall" and E.args[0] is H.cb and H.succ(E) == "ok"
                    isw = E.kind == "reg" and E.name == "network_write"
                    if not (isok or isw): continue
                    hist = st.evlist()
                    mp = {}
                    for o in full_ops(hist, st):
                        if o[0] == "network_write" and o[1] == NONCE: mp[bufat(o[3].st, o[2])] = NS if decr else NC
                        if o[0] == "network_read" and o[1] == NONCE: mp[netread(o[2], st)] = NC if decr else NS
                    if isw:
                        b, o = base_off(E.args[1])
                        v = content(st, b, o, st.simp(E.args[2]))
                        if st.simp(E.args[2]) is c(NONCE): info["nonce"].add((v, E, t))
                        else: info["sent"].add((subst(v, mp), v, E, t))
                    if isok:
                        rd = [o for o in full_ops(hist, st) if o[0] == "network_read" and o[1] == PUB + MACLEN]
                        sent = [bufat(o[3].st, o[2]) for o in full_ops(hist, st) if o[0] == "network_write" and o[1] == PUB + MACLEN]
                        for o in rd[:1]:
                            k, below = validated(st, netread(o[2], st))
                            info["verify"].add((subst(k, mp) if k is not None else None, t))
                            peer = bslice(st, netread(o[2], st), ZERO, c(PUB))
                        kp = []
                        for kk in E.args[2:4]:
                            kp.extend(keyparts(st, st.simp(kk)))
                        mp2 = dict(mp)
                        x = None
                        if sent and sent[0].op == "b.cat":
                            y0 = bslice(st, sent[0], ZERO, c(PUB))
                            if y0.op == "b.fn" and y0.a[0] == "DHPUB": x = y0.a[1]
                        if x is not None:
                            mp2[mk("b.fn", "DH", peer, x, c(PUB))] = mk("b.fn", "SHARED", c(PUB))
                        info["keys"].add((tuple(subst(z, mp2) if z is not None else None for z in kp), t))
            out[decr, nopfs] = info
    return out, NC, NS

def C06_handshake(R):
    out, NC, NS = roles(R)
    for (decr, nopfs), I in out.items():
        R.need(len(I["keys"]), "derived-keys"); R.need(len(I["sent"]), "sent-values")
        role = "server" if decr else "client"
        H = I["H"]
        sk = set()
        for v, raw, E, t in I["sent"]:
            ok = v.op == "b.cat" or True
            y = bslice(E.st, v, ZERO, c(PUB)); mac = bslice(E.st, v, c(PUB), c(MACLEN))
            g = R.ok(mac.op == "b.fn" and mac.a[0] == "HMAC" and mac.a[2] is y, "sent-value-maced", H.at(t), "the value sent must be the public value followed by its MAC, is %s" % show(v), E.st)
            if g: sk.add(mac.a[1])
            if nopfs:
                R.ok(canon_zeros(y) == canon_zeros(ONE_BYTES()), "nopfs-sends-one", H.at(t), "without forward secrecy the public value must be 1, is %s" % show(y), E.st)
            else:
                R.ok(y.op == "b.fn" and y.a[0] == "DHPUB", "sends-own-public-value", H.at(t), "public value sent is %s" % show(y), E.st)
        R.ok(len(sk) == 1, "one-mac-key", where(H.f), "the %s's value is MACed under different keys: %s" % (role, [show(x) for x in sk]))
        I["sk"] = sk.pop() if len(sk) == 1 else None
        vk = {k for k, t in I["verify"]}
        R.ok(len(vk) == 1 and None not in vk, "one-verify-key", where(H.f), "the %s verifies under %s" % (role, [show(x) if x is not None else None for x in vk]))
        I["vk"] = vk.pop() if len(vk) == 1 else None
        ks = {k for k, t in I["keys"]}
        R.ok(len(ks) == 1, "one-key-set", where(H.f), "the %s's session keys differ between histories" % role)
        I["ks"] = sorted(ks, key=str)[0]
        for t4 in ks:
            sl = [dkslice(x) for x in t4]
            if not R.ok(all(x is not None for x in sl) and len(sl) == 4, "keys-from-derivation", where(H.f), "session keys of the %s: %s" % (role, [show(x) if x is not None else None for x in t4])): continue
            salt = sl[0][0].a[2]
            sec = sl[0][0].a[1]
            want = [mk("b.fn", "SHARED", c(PUB))] if not nopfs else [ONE_BYTES()]
            R.ok(canon_zeros(salt) == canon_zeros(bcat([NC, NS] + want)), "salt-order", where(H.f), "the %s derives session keys from %s; must be client nonce, server nonce, shared value" % (role, show(salt)))
            R.ok(keys.b_secret(sec, H.a[4]), "from-secret", where(H.f), "the %s derives session keys from %s instead of the shared secret" % (role, show(sec)))
        for x in (I["sk"], I["vk"]):
            if x is None: continue
            d = dkslice(x)
            R.ok(d is not None and d[0].a[2] is bcat([NC, NS]) and keys.b_secret(d[0].a[1], H.a[4]), "mac-salt-order", where(H.f), "the %s's MAC keys come from %s" % (role, show(x)))
    for nopfs in (0, 1):
        C, S = out[0, nopfs], out[1, nopfs]
        w = where(C["H"].f)
        R.ok(C["sk"] is S["vk"], "client-mac-key-matches", w, "client MACs with %s, server verifies with %s" % (C["sk"] and show(C["sk"]), S["vk"] and show(S["vk"])))
        R.ok(S["sk"] is C["vk"], "server-mac-key-matches", w, "server MACs with %s, client verifies with %s" % (S["sk"] and show(S["sk"]), C["vk"] and show(C["vk"])))
        if C["sk"] is not None and C["vk"] is not None:
            R.ok(C["sk"] is not C["vk"], "mac-keys-differ", w, "both roles use one MAC key")
        R.ok(C["ks"] == S["ks"], "session-keys-match", w, "client hands out %s, server %s" % ([show(x) if x is not None else None for x in C["ks"]], [show(x) if x is not None else None for x in S["ks"]]))

def C04(R):
    """A peer value is admitted only with facts about it established on the path: MAC verified, below the modulus, not 1 when required."""
    nacc = 0
    for decr in (0, 1):
        H = HS(R, decr)
        for t in H.m.trans:
            for E in t.evs:
                st = E.st
                uses = None
                if E.kind == "icall" and E.args[0] is H.cb and H.succ(E) != "fail": uses = "session keys handed out"
                elif E.kind == "call" and E.name in ("crypto_dh_compute",): uses = "peer's value used in the key exchange"
                elif E.kind == "call" and E.name == "crypto_aes_key_expand": uses = "session keys derived"
                elif E.kind == "reg" and E.name == "network_write":
                    # sending after the peer's value arrived
                    if any(o[0] == "network_read" and o[1] == PUB + MACLEN for o in full_ops(st.evlist(), st)): uses = "something sent to the peer"
                if not uses: continue
                ops = full_ops(st.evlist(), st)
                rd = [o for o in ops if o[0] == "network_read" and o[1] == PUB + MACLEN]
                if not R.ok(len(rd) >= 1, "value-received", H.at(t), "%s before the peer's key-exchange value was received" % uses, st): continue
                for o in rd:
                    nacc += 1
                    R.ok(o[4], "value-complete", H.at(t), "%s after an incomplete or failed read of the peer's value" % uses, st)
                    net = netread(o[2], st)
                    k, below = validated(st, net)
                    R.ok(k is not None, "mac-verified", H.at(t), "%s without a successful 32-byte MAC check over the whole 256-byte value" % uses, st)
                    R.ok(below, "below-modulus", H.at(t), "%s without having found the value smaller than the group modulus" % uses, st)
                    if E.name == "crypto_dh_compute":
                        pb = E.x[0]
                        R.ok(pb is bslice(st, net, ZERO, c(PUB)), "validated-value-used", H.at(t), "the value used in the key exchange is %s, not the one that was validated" % show(pb), st)
            if t.kind == "cb" and t.alt in ("complete",) and H.cbs(t) and H.succ(H.cbs(t)[0]) == "fail":
                R.ok(not [E for E in t.evs if E.kind == "reg" and E.name == "network_write"], "rejection-is-silent", H.at(t), "something is sent after rejecting", t.st)
    R.need(nacc, "admissions", 4)
    # the MAC key used is the peer role's: compared across the roles
    out, NC, NS = roles(R)
    for nopfs in (0, 1):
        for a, b, nm in ((0, 1, "client"), (1, 0, "server")):
            sk = {bslice(E.st, v, c(PUB), c(MACLEN)).a[1] for v, raw, E, t in out[a, nopfs]["sent"]
                  if bslice(E.st, v, c(PUB), c(MACLEN)).op == "b.fn" and bslice(E.st, v, c(PUB), c(MACLEN)).a[0] == "HMAC"}
            vk = {k for k, t in out[b, nopfs]["verify"]}
            R.ok(sk == vk and len(sk) == 1, "peer-role-key", where(out[b, nopfs]["H"].f), "the key used to verify the %s's value (%s) is not the one the %s MACs with (%s)" % (nm, [show(x) for x in vk if x is not None], nm, [show(x) for x in sk]))
        sk0 = {bslice(E.st, v, c(PUB), c(MACLEN)).a[1] for v, raw, E, t in out[0, nopfs]["sent"] if bslice(E.st, v, c(PUB), c(MACLEN)).op == "b.fn"}
        sk1 = {bslice(E.st, v, c(PUB), c(MACLEN)).a[1] for v, raw, E, t in out[1, nopfs]["sent"] if bslice(E.st, v, c(PUB), c(MACLEN)).op == "b.fn"}
        R.ok(not (sk0 & sk1), "role-separated-mac", where(out[0, nopfs]["H"].f), "a reflected value would verify: both roles MAC with one key")
    # the value 1 when forward secrecy is required
    for decr in (0, 1):
        for req in (0, 1):
            H = HS(R, decr, None, req, one=True)
            acc = 0; got = 0
            for t in H.m.trans:
                for E in t.evs:
                    if E.kind == "cb" : pass
                if t.kind == "cb" and t.p.kind == "network_read" and t.alt == "complete" and cv(t.pre.simp(t.p.args[2])) == PUB + MACLEN: got += 1
                for E in t.evs:
                    if not any(o[0] == "network_read" and o[1] == PUB + MACLEN and o[4] for o in full_ops(E.st.evlist(), E.st)): continue
                    u = (E.kind == "icall" and E.args[0] is H.cb and H.succ(E) != "fail") or (E.kind == "call" and E.name == "crypto_dh_compute") or (E.kind == "reg" and E.name == "network_write")
                    if u:
                        acc += 1
                        if req: R.ok(False, "one-rejected-when-required", H.at(t), "forward secrecy is required, the peer's value is 1, and the handshake goes on", E.st)
            R.need(got, "peer-sends-one")
            if req: R.ok(acc == 0, "one-rejected-when-required", where(H.f), "value 1 as %s" % ("server" if decr else "client"))
            else: R.ok(acc > 0, "one-accepted-otherwise", where(H.f), "the value 1 (peer without forward secrecy) must be accepted when forward secrecy is not required")
