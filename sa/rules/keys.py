"""C06 (function level) and helpers: key derivation."""
from .common import *

def kmodels():
    m = dict(crypto.MODELS); m.update(crypto.DHMODELS)
    return m

def run_mkkeys(R, args=None):
    f = R.prog.need("proto_crypt_mkkeys")
    ps = params(f)
    if len(ps) != 9: raise Broken("proto_crypt_mkkeys parameters changed")
    a = list(ps)
    for i, v in (args or {}).items(): a[i] = v
    e, a, res = analyse(R, f, a, State(), kmodels())
    out = []
    for s, r in alive(res):
        kc = ks = None
        if s.bounds(r) == (0, 0) or (s.lb(r) >= 0):
            b, o = base_off(a[7]); kc = s.simp(mem_read(s, b, o, 8, True))
            b, o = base_off(a[8]); ks = s.simp(mem_read(s, b, o, 8, True))
        out.append((s, r, kc, ks))
    return f, a, out

def mkkeys_paths(R):
    f, a, out = run_mkkeys(R)
    return f, a, None, out

def keyparts(s, k):
    """(AES key bytes, HMAC key bytes) of a constructed key object"""
    aes = hm = None
    r = mem_region(s, k)
    for so, sz, v in r.segs:
        if isinstance(v, T) and v.op == "heap" and v.a[0] == "aeskey":
            x = crypto.aeskey(s, v)
            if x.op == "b.fn": aes = x.a[1]
        if isinstance(v, T) and v.op == "b.fn" and v.a[0] == "hm":
            hm = v.a[1] if v.a[2].op == "b.const" else None
    return aes, hm

def dkslice(b):
    """(derived key, lo, hi)"""
    if b is None: return None
    if b.op == "b.sl" and b.a[0].op == "b.fn" and b.a[0].a[0] == "PBKDF2" and b.a[1].op == "c" and b.a[2].op == "c":
        return b.a[0], b.a[1].a[0], b.a[1].a[0] + b.a[2].a[0]
    return None

def cont(s, p, n):
    b, o = base_off(p)
    return content(s, b, o, c(n))

def C06_functions(R):
    NC, NS = atom("param", "nonce_c", p=True), atom("param", "nonce_s", p=True)
    def m0(p, n): return mk("b.mem", p, ("init", 0), ZERO, c(n))
    # first-stage MAC keys
    f = R.prog.need("proto_crypt_dhmac")
    ps = params(f)
    if len(ps) != 6: raise Broken("proto_crypt_dhmac parameters changed")
    out = {}
    for decr in (0, 1):
        a = list(ps)
        a[1], a[2] = (NS, NC) if decr else (NC, NS)
        a[5] = c(decr)
        e, a, res = analyse(R, f, a, State(), kmodels())
        vs = {(cont(s, a[3], 32), cont(s, a[4], 32)) for s, r in alive(res)}
        R.need(len(vs), "dhmac-paths")
        R.ok(len(vs) == 1, "dhmac-deterministic", where(f), "MAC keys for decr=%d depend on something else: %s" % (decr, vs))
        out[decr] = vs.pop()
    cl, cr = out[0]; sl, sr = out[1]
    w = where(f)
    R.ok(cl is sr and cr is sl, "dh-mac-keys-match", w, "what the client uses for its own value must be what the server uses for the peer's and vice versa: client (%s, %s), server (%s, %s)" % (show(cl), show(cr), show(sl), show(sr)))
    for nm, x in (("client", cl), ("server", cr)):
        d = dkslice(x)
        okk = d is not None and d[2] - d[1] == 32
        R.ok(okk, "dh-mac-key-derived", w, "the %s's MAC key must be 32 bytes of PBKDF2 output, is %s" % (nm, show(x)))
        if okk:
            K, salt = d[0].a[1], d[0].a[2]
            R.ok(b_secret(K, a[0]), "from-secret", w, "derivation must start from the 32-byte shared secret, uses %s" % show(K))
            R.ok(salt is bcat([m0(NC, 32), m0(NS, 32)]), "salt-client-then-server", w, "salt must be client nonce || server nonce, is %s" % show(salt))
    dc, ds = dkslice(cl), dkslice(cr)
    if dc and ds:
        R.ok(dc[0] is ds[0] and (dc[2] <= ds[1] or ds[2] <= dc[1]), "dh-mac-keys-disjoint", w, "the roles' MAC keys must be disjoint parts of one derived string: %s and %s" % (dc[1:], ds[1:]))
    # session keys
    Y = {}
    for nopfs in (0, 1):
        per = {}
        for decr in (0, 1):
            f, a, res = run_mkkeys(R, {1: NS if decr else NC, 2: NC if decr else NS, 5: c(nopfs), 6: c(decr)})
            w = where(f)
            got = set()
            for s, r, kc, ks in res:
                if kc is None: continue
                parts_ = []
                for nm, k in (("client", kc), ("server", ks)):
                    R.ok(k.op == "heap", "key-object", w, "the %s's key object on success is %s" % (nm, show(k)), s)
                    parts_.extend(keyparts(s, k))
                got.add(tuple(parts_))
                dk = None
                sl = [dkslice(x) for x in parts_]
                if not R.ok(all(x is not None and x[2] - x[1] == 32 for x in sl), "session-keys-derived", w,
                            "each of the four keys must be 32 bytes of the PBKDF2 output; found %s" % [show(x) if x is not None else None for x in parts_], s):
                    continue
                R.ok(len({x[0] for x in sl}) == 1, "one-derivation", w, "the four keys must come from one derivation", s)
                iv = sorted(x[1:] for x in sl)
                R.ok(all(iv[i][1] <= iv[i + 1][0] for i in range(3)), "four-disjoint-keys", w, "the four keys must be disjoint parts: %s" % iv, s)
                dk = sl[0][0]
                salt = dk.a[2]
                R.ok(b_secret(dk.a[1], a[0]), "from-secret", w, "derivation must start from the 32-byte shared secret, uses %s" % show(dk.a[1]), s)
                if nopfs:
                    y = bcat([mk("b.fill", ZERO, c(255)), norm_b(mk("b.const", b"\x01"))])
                    ynames = "1"
                else:
                    y = mk("b.fn", "DH", m0(a[3], 256), m0(a[4], 32), c(256))
                    ynames = "the Diffie-Hellman result of the peer's value and the local private value"
                    okd = any(e.name == "crypto_dh_compute" and s.iszero(e.ret) is True for e in s.evlist())
                    R.ok(okd, "dh-result-checked", w, "keys must not be made when crypto_dh_compute failed", s)
                want = bcat([m0(NC, 32), m0(NS, 32), y])
                R.ok(canon_zeros(salt) == canon_zeros(want), "salt-order", w, "salt must be client nonce || server nonce || %s, is %s" % (ynames, show(salt)), s)
            R.need(len(got), "mkkeys-success")
            R.ok(len(got) == 1, "session-keys-deterministic", w, "keys differ between paths")
            per[decr] = got.pop()
        if nopfs:
            R.ok(per[0] == per[1], "session-keys-match", w, "both roles must derive the same client and server keys")
        else:
            def strip(ps): return [(dkslice(x)[1:] if dkslice(x) else None) for x in ps]
            R.ok(strip(per[0]) == strip(per[1]), "session-keys-match", w, "both roles must cut the derived string the same way: %s vs %s" % (strip(per[0]), strip(per[1])))

def b_secret(b, K):
    return b is mk("b.mem", K, ("init", 0), ZERO, c(32))

def canon_zeros(b):
    """list of (kind, ...) pieces with constant parts expanded"""
    out = []
    for p in (b.a if b.op == "b.cat" else (b,)):
        z = bsize(p)
        if p.op == "b.fill" and z.op == "c" and p.a[0].op == "c":
            x = bytes([p.a[0].a[0] & 255]) * z.a[0]
        elif p.op == "b.const":
            x = p.a[0]
        elif p.op == "b.int" and p.a[1].op == "c":
            x = (p.a[1].a[0] & ((1 << 8 * p.a[0]) - 1)).to_bytes(p.a[0], "little")
        else:
            out.append(p); continue
        if out and isinstance(out[-1], bytes): out[-1] += x
        else: out.append(x)
    return out

def C06(R):
    """Content analysis of the derivation functions for both roles, compared across the roles."""
    C06_functions(R)
    from .hs import C06_handshake
    C06_handshake(R)
    from .conn import C06_conn
    C06_conn(R)
    from .pipe import C06_pipe
    C06_pipe(R)
