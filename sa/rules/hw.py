"""C32: which implementation of a primitive runs -- decided over every processor and every self-test outcome"""
from .common import *
from .. import models as M
from ..machine import *
from ..absint import Region, content, norm as fnorm
from ..terms import parts
import re

# what a processor reports for each feature: cpuid leaf, register, bit (Intel SDM vol. 2A, CPUID)
BITS = {"X86_AESNI": (1, "ecx", 25), "X86_SHANI": (7, "ebx", 29), "X86_SSSE3": (1, "ecx", 9), "X86_SSE2": (1, "edx", 26), "X86_RDRAND": (1, "ecx", 30)}
REG = {"eax": 0, "ebx": 1, "ecx": 2, "edx": 3}

# ---------------------------------------------------------------- reference AES and SHA-256, for the known answers
def _sbox():
    p = q = 1; s = [0] * 256
    while True:
        p = p ^ (p << 1) & 255 ^ (0x1b if p & 128 else 0)
        for k in (1, 2, 4): q ^= q << k & 255
        if q & 128: q ^= 9
        s[p] = q ^ (q << 1 | q >> 7) & 255 ^ (q << 2 | q >> 6) & 255 ^ (q << 3 | q >> 5) & 255 ^ (q << 4 | q >> 4) & 255 ^ 0x63
        if p == 1: break
    s[0] = 0x63
    return s

def aes(key, blk):
    S = _sbox(); nk = len(key) // 4; nr = nk + 6
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]; rc = 1
    x2 = lambda a: a << 1 & 255 ^ (0x1b if a & 128 else 0)
    for i in range(nk, 4 * nr + 4):
        t = list(w[-1])
        if i % nk == 0:
            t = [S[x] for x in t[1:] + t[:1]]; t[0] ^= rc; rc = x2(rc)
        elif nk > 6 and i % nk == 4: t = [S[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    rk = lambda r: sum(w[4 * r:4 * r + 4], [])
    s = [a ^ b for a, b in zip(blk, rk(0))]
    for r in range(1, nr + 1):
        s = [S[s[(i + 4 * (i % 4)) % 16]] for i in range(16)]
        if r < nr:
            o = []
            for k in range(0, 16, 4):
                a = s[k:k + 4]
                o += [x2(a[i]) ^ x2(a[(i + 1) % 4]) ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4] for i in range(4)]
            s = o
        s = [a ^ b for a, b in zip(s, rk(r))]
    return bytes(s)

def const(b):
    if b.op == "b.const": return bytes(b.a[0])
    if b.op == "b.cat":
        o = [const(x) for x in b.a]
        return None if None in o else b"".join(o)
    if b.op == "b.fill" and b.a[0].op == "c" and b.a[1].op == "c": return bytes([b.a[0].a[0] & 255]) * b.a[1].a[0]
    if b.op == "b.int" and b.a[1].op == "c": return (b.a[1].a[0] & ((1 << 8 * b.a[0]) - 1)).to_bytes(b.a[0], "little")
    return None

FULL = 2 ** 32 - 1
def known(t, x, bit):
    """bits of a 32-bit value known to be 0 and known to be 1, when one bit of x is 0"""
    if t is x: return 1 << bit, 0
    if t.op == "c": return ~t.a[0] & FULL, t.a[0] & FULL
    if t.op in ("and", "or"):
        k = [known(y, x, bit) for y in t.a]
        z, o = k[0]
        for z2, o2 in k[1:]: z, o = (z | z2, o & o2) if t.op == "and" else (z & z2, o | o2)
        return z, o
    if t.op == "udiv" and t.a[1].op == "c" and t.a[1].a[0] & (t.a[1].a[0] - 1) == 0:
        n = t.a[1].a[0].bit_length() - 1; z, o = known(t.a[0], x, bit)
        return z >> n | FULL & ~(FULL >> n), o >> n
    if t.op == "lshr" and t.a[1].op == "c":
        n = t.a[1].a[0]; z, o = known(t.a[0], x, bit)
        return z >> n | FULL & ~(FULL >> n), o >> n
    if t.op == "umod" and t.a[1].op == "c" and t.a[1].a[0] & (t.a[1].a[0] - 1) == 0:
        m = t.a[1].a[0] - 1; z, o = known(t.a[0], x, bit)
        return z & m | FULL & ~m, o & m
    if t.op in ("zx", "tr"):
        m = (1 << t.a[0]) - 1; z, o = known(t.a[1], x, bit)
        return (z & m | FULL & ~m, o & m) if t.op == "zx" else (z & m, o & m)
    if t.op == "lin" and t.a[0] == 0 and len(t.a[1]) == 1 and t.a[1][0][1] > 0 and t.a[1][0][1] & (t.a[1][0][1] - 1) == 0:
        n = t.a[1][0][1].bit_length() - 1; z, o = known(t.a[1][0][0], x, bit)
        return (z << n | (1 << n) - 1) & FULL, o << n & FULL
    b = truth(t, x, bit)
    if b is not None: return (FULL, 0) if not b else (FULL - 1, 1)
    if t.op in ("eq0", "lt0", "ult", "not"): return FULL - 1, 0
    return 0, 0

def truth(b, x, bit):
    """whether a condition holds, when one bit of x is 0; None when that does not settle it"""
    if b.op == "not":
        r = truth(b.a[0], x, bit); return None if r is None else not r
    if b.op != "eq0": return None
    k, d = parts(b.a[0])
    if k and len(d) == 1 and abs(list(d.values())[0]) == 1:
        y, n = list(d.items())[0]; v = -k * n & FULL
        z, o = known(y, x, bit)
        return False if v & z or ~v & o & FULL else None
    z, o = known(b.a[0], x, bit)
    return False if o else True if z == FULL else None

def detection(R):
    """each feature test answers yes only when the processor reports that feature"""
    n = 0
    for feat in sorted(BITS):
        f = R.prog.func("cpusupport_%s_detect_1" % feat.lower())
        if f is None: continue
        def regs(st, leaf):
            return [mk("cpuid", c(leaf), c(i)) for i in range(4)]
        def cpuid(e, st, fr, a, ins):
            leaf = cv(st.simp(a[0]))
            if leaf is None: raise Broken("cpuid leaf unknown")
            s2 = st.fork()
            for p, x in zip(a[-4:], regs(st, leaf)):
                b, o = base_off(st.simp(p)); st.wfacts(); st.iv[x] = (-2 ** 31 if leaf or x.a[1] is not ZERO else 0, 2 ** 31 - 1)
                mem_write(st, b, o, c(4), x)
            return [(st, ONE), (s2, ZERO)]
        def asm(e, st, fr, I, ops):
            got = re.findall(r"i32 (-?[0-9]+)\b", I.x.rsplit('"', 1)[-1])
            leaf = int(got[0]) if got else None
            if "cpuid" not in (I.x or "") or leaf is None: raise Broken("assembly in %s" % f.name)
            if leaf:
                m = mk("cpuid", ZERO, ZERO)
                R.ok(st.lb(m) >= leaf, "leaf-available", f.name, "asks for leaf %d without knowing that the processor has it" % leaf, st)
            return tuple(regs(st, leaf))
        e = Engine(R.prog, Cfg(models={"__get_cpuid": cpuid, "__get_cpuid_count": cpuid}, on_asm=asm, merge=False, nofollow={f.name}))
        e.cfg.models.pop(f.name, None)
        yes = 0
        leaf, rg, bit = BITS[feat]
        x = mk("cpuid", c(leaf), c(REG[rg]))
        for st, r in e.run(f, [], State()):
            if isinstance(r, str): continue
            n += 1
            r = st.simp(r)
            if st.iszero(r) is True: continue
            yes += 1
            # with this bit clear, can the path be taken and the answer be yes?
            off = any(truth(b, x, bit) is (not v) for b, v in st.bf.items()) or known(r, x, bit)[0] == FULL
            R.ok(off, "feature-reported", f.name, "may answer that the processor has %s when bit %d of %s from leaf %d is clear" % (feat, bit, rg, leaf), st)
        R.need(yes, "feature-tests", 1)
        R.used(e)
    R.need(n, "feature-test-paths", 4)


# ---------------------------------------------------------------- the choice, over histories of calls
class Sel:
    """models of the leaves: feature tests, accelerated functions, the AES library"""
    def __init__(self, R):
        self.R = R
        self.n = {"hw": 0, "sw": 0, "test": 0, "known": 0}
        self.feats = {}     # accelerated function -> the features its file is compiled for
        from ..build import CPUOF
        for m in R.prog.mods.values():
            need = CPUOF.get(m.src)
            if not need: continue
            for f in m.funcs.values():
                if f.name.startswith("cpusupport_") or f.internal: continue
                self.feats[f.name] = need
        self.models = {"AES_set_encrypt_key": self.setkey, "AES_encrypt": self.encrypt, "memcmp": self.memcmp, "abort": self.abort}
        for f in BITS: self.models["cpusupport_%s_detect_1" % f.lower()] = self.detect(f)
        d0 = M.dec(4, True)
        def be32dec(e, st, fr, a, ins):
            v = const(self.buf(e, st, a[0], 4))
            return d0(e, st, fr, a, ins) if v is None else [(st, c(int.from_bytes(v, "big", signed=True)))]
        for nm in ("be32dec", "libcperciva_be32dec"): self.models[nm] = be32dec
        own = {"crypto_aes_key_expand_aesni": self.hwexpand, "crypto_aes_encrypt_block_aesni": self.hwencrypt, "crypto_aes_key_free_aesni": self.hwfree, "crypto_aesctr_aesni_stream": self.hwstream}
        for n in self.feats:
            if n in own: self.models[n] = self.hw(n, own[n])
            elif n.startswith("SHA256_Transform"): self.models[n] = self.hw(n, self.hwsha)
            elif "rdrand" in n: self.models[n] = self.hw(n, self.rdrand)
            else: R.notes.append("%s runs only inside %s" % (n, "accelerated code"))
    def at(self, e, fr, ins):
        f, l = e.loc(fr, ins); i = f.find("/repo/")
        return "%s:%s" % (f[i + 6:] if i >= 0 else f, l)
    def detect(self, feat):
        def f(e, st, fr, a, ins):
            k = "feat:" + feat
            if k in st.aux: return [(st, ONE if st.aux[k] else ZERO)]
            s2 = st.fork(); st.aux[k] = 1; s2.aux[k] = 0
            return [(st, ONE), (s2, ZERO)]
        return f
    def abort(self, e, st, fr, a, ins): return [(st, "exit")]
    def hw(self, n, body):
        def f(e, st, fr, a, ins):
            self.n["hw"] += 1
            for x in self.feats[n]:
                self.R.ok(st.aux.get("feat:" + x) == 1, "feature-checked", self.at(e, fr, ins), "%s runs %s" % (n, "on a processor without %s" % x if st.aux.get("feat:" + x) == 0 else "without knowing whether the processor has %s" % x), st)
            return body(e, st, fr, n, a, ins)
        return f
    def buf(self, e, st, p, n):
        b, o = base_off(st.simp(p))
        if b is None: return mk("undef")
        e.region_init(st, b)
        return content(st, b, o, n if isinstance(n, T) else c(n))
    def put(self, st, p, n, v):
        b, o = base_off(st.simp(p))
        if b is not None: mem_write(st, b, o, c(n), v)
    # AES
    def hwexpand(self, e, st, fr, n, a, ins):
        s2 = st.fork(); M.set_errno(s2, "malloc")
        k = mk("hwkey", self.buf(e, st, a[0], a[1]), st.simp(a[1]))
        t = M.new_heap(e, st, fr, ins, n, c(256), False); st.assume(mk("eq0", t), False)
        st.aux["hwkeys"] = st.aux.get("hwkeys", ()) + ((t, k),)
        return [(st, t), (s2, ZERO)]
    def iskey(self, st, p):
        b, o = base_off(st.simp(p))
        for t, k in st.aux.get("hwkeys", ()):
            if t is b: return k
    def chosen(self, e, st, fr, ins, key, which):
        """using a key: it is of this kind"""
        b, o = base_off(st.simp(key))
        hw = self.iskey(st, key) is not None; sw = b in st.aux.get("swkeys", ())
        r = mem_region(st, b) if b is not None else None
        ok = r is not None and r.freed is None and (hw if which == "hw" else sw)
        self.R.ok(ok, "one-implementation-per-key", self.at(e, fr, ins), "a key %s is used by the %s code" % ("expanded by the portable code" if sw else "expanded by the hardware code" if hw else "not known to be expanded by either", "hardware" if which == "hw" else "portable"), st)
        return self.iskey(st, key)
    def hwencrypt(self, e, st, fr, n, a, ins):
        k = self.chosen(e, st, fr, ins, a[2], "hw")
        self.put(st, a[1], 16, mk("b.hwaes", self.buf(e, st, a[0], 16), k if k is not None else ZERO, c(16)))
        return [(st, None)]
    def hwstream(self, e, st, fr, n, a, ins):
        sb, so = base_off(st.simp(a[0]))
        # the key the stream was set up with: the pointer it holds, wherever it holds it
        r = mem_region(st, sb)
        ps = [v for o, n, v in r.segs if o.op == "c" and n is c(8) and isinstance(v, T) and v.p]
        k = self.chosen(e, st, fr, ins, ps[0] if len(ps) == 1 else mem_read(st, sb, so, 8, True), "hw")
        b, o = base_off(st.simp(a[2]))
        if b is not None: mem_write(st, b, o, st.simp(a[3]), mk("b.hwctr", k if k is not None else ZERO, st.fresh(), st.simp(a[3])))
        return [(st, None)]
    def hwfree(self, e, st, fr, n, a, ins):
        p = st.simp(a[0])
        if st.isnull(p) is True: return [(st, None)]
        self.chosen(e, st, fr, ins, p, "hw")
        b = base_off(p)[0]; r = mem_region(st, b)
        st.aux["hwfreed"] = st.aux.get("hwfreed", ()) + (b,)
        st.wmem()[b] = Region(r.d, r.segs, e.event(st, "call", "free", (p,), None, fr, ins), r.size)
        return [(st, None)]
    def setkey(self, e, st, fr, a, ins):
        b, o = base_off(st.simp(a[2]))
        s2 = st.fork()
        st.aux["swkeys"] = st.aux.get("swkeys", ()) + (b,)
        self.n["sw"] += 1
        return [(st, ZERO), (s2, c(-1))]
    def encrypt(self, e, st, fr, a, ins):
        self.chosen(e, st, fr, ins, a[2], "sw"); self.n["sw"] += 1
        self.put(st, a[1], 16, mk("b.swaes", self.buf(e, st, a[0], 16), st.fresh(), c(16)))
        return [(st, None)]
    # SHA-256
    def hwsha(self, e, st, fr, n, a, ins):
        s0 = self.buf(e, st, a[0], 32)
        self.put(st, a[0], 32, mk("b.hwsha", n, s0, self.buf(e, st, a[1], 64), c(32)))
        st.aux["ran:" + n] = 1
        return [(st, None)]
    def rdrand(self, e, st, fr, n, a, ins):
        r = mk("ret", n, st.fresh()); return [(st, r)]
    # self-tests
    def memcmp(self, e, st, fr, a, ins):
        """the same, or not: a same result is remembered with what was compared"""
        x, y = self.buf(e, st, a[0], a[2]), self.buf(e, st, a[1], a[2])
        s2 = st.fork()
        if x is not y or True: st.aux["same"] = st.aux.get("same", ()) + ((x, y, st.simp(a[2])),)
        self.n["test"] += 1
        r = mk("ret", "memcmp", st.fresh()); s2.assume(mk("eq0", r), False)
        return [(st, ZERO), (s2, r)]
    # what a passed self-test settles
    def aes_ok(self, st, klen):
        for x, y, n in st.aux.get("same", ()):
            if n is not c(16): continue
            for h, k in ((x, y), (y, x)):
                if h.op != "b.hwaes" or h.a[1].op != "hwkey" or h.a[1].a[1] is not c(klen): continue
                key, pt, want = const(h.a[1].a[0]), const(h.a[0]), const(k)
                if key and pt and want and len(key) == klen and aes(key, pt) == want: return True
        return False
    def sha_ok(self, st, fn):
        for x, y, n in st.aux.get("same", ()):
            if n is not c(32): continue
            for h, k in ((x, y), (y, x)):
                if h.op != "b.hwsha" or h.a[0] != fn: continue
                if hashw(k): continue
                w = const(k); i, b = const(h.a[1]), const(h.a[2])
                if w is not None and i is not None and b is not None and sha(i, b) == w: return True
        return False

def walk(t, seen=None):
    """every term within a term, once"""
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple): todo.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x); todo.extend(x.a)
    return seen

def hashw(t): return any(x.op.startswith("b.hw") for x in walk(t))
def hwkeys_in(t, out): return {x for x in walk(t) if x.op in ("b.hwsha", "hwkey")}

IV = b"".join(x.to_bytes(4, "little") for x in (0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19))

def sha(state, block):
    from math import isqrt
    ps = [p for p in range(2, 312) if all(p % q for q in range(2, isqrt(p) + 1))][:64]
    def cbrt(n):
        lo, hi = 0, 1 << (n.bit_length() // 3 + 1)
        while lo < hi:
            m = (lo + hi + 1) // 2
            if m ** 3 <= n: lo = m
            else: hi = m - 1
        return lo
    K = [cbrt(p << 96) & 0xffffffff for p in ps]
    st = [int.from_bytes(state[i:i + 4], "little") for i in range(0, 32, 4)]
    w = [int.from_bytes(block[i:i + 4], "big") for i in range(0, 64, 4)]
    R = lambda x, n: (x >> n | x << 32 - n) & 0xffffffff
    for i in range(16, 64):
        s0 = R(w[i - 15], 7) ^ R(w[i - 15], 18) ^ w[i - 15] >> 3; s1 = R(w[i - 2], 17) ^ R(w[i - 2], 19) ^ w[i - 2] >> 10
        w.append((w[i - 16] + s0 + w[i - 7] + s1) & 0xffffffff)
    a, b, c_, d, e, f, g, h = st
    for i in range(64):
        t1 = (h + (R(e, 6) ^ R(e, 11) ^ R(e, 25)) + (e & f ^ ~e & g) + K[i] + w[i]) & 0xffffffff
        t2 = ((R(a, 2) ^ R(a, 13) ^ R(a, 22)) + (a & b ^ a & c_ ^ b & c_)) & 0xffffffff
        h, g, f, e, d, c_, b, a = g, f, e, (d + t1) & 0xffffffff, c_, b, a, (t1 + t2) & 0xffffffff
    return b"".join(((x + y) & 0xffffffff).to_bytes(4, "little") for x, y in zip(st, (a, b, c_, d, e, f, g, h)))

def C32(R):
    """A hardware implementation runs only where the processor has every feature it uses and after a passed self-test; one key stays with one implementation."""
    detection(R)
    X = Sel(R)
    R.notes.append("accelerated functions: " + ", ".join("%s (%s)" % (k, " ".join(v)) for k, v in sorted(X.feats.items())))
    R.need(len(X.feats), "accelerated-functions", 5)
    aes_histories(R, X)
    sha_histories(R, X)
    entropy(R, X)

def engine(R, X, **kw):
    cfg = Cfg(models=X.models, inits=True, merge=False, unroll_mem=True, **kw)
    for n in list(cfg.models):
        if n.startswith(("crypto_aes", "SHA256_", "HMAC_", "libcperciva_SHA256", "libcperciva_HMAC", "memcmp", "crypto_entropy")) and n not in X.models: cfg.models.pop(n)
    return Engine(R.prog, cfg)

def cells(st):
    out = []
    for b, r in st.mem.items():
        if b.op == "glob":
            for o, z, v in r.segs:
                if isinstance(v, T) and v.op == "c" and z.op == "c" and cv(z) <= 8: out.append((b.id, cv(o), v.a[0]))
    return tuple(sorted(out))

def aes_histories(R, X):
    """every order of making, using and freeing a key and a stream, on every processor, with every self-test outcome"""
    F = {n: R.prog.need(n) for n in ("crypto_aes_can_use_intrinsics", "crypto_aes_key_expand", "crypto_aes_encrypt_block", "crypto_aes_key_free", "crypto_aesctr_init", "crypto_aesctr_stream", "crypto_aesctr_free", "crypto_aesctr_buf")}
    e = engine(R, X, unroll_all=20)
    raw = atom("param", "rawkey", p=True, nn=True); inb = atom("param", "in", p=True, nn=True); outb = atom("param", "out", p=True, nn=True); nonce = atom("param", "nonce")
    work = [(State(), None, 0, None, ())]
    seen = set(); n = {"states": 0, "hwkey": 0, "swkey": 0, "refused": 0}
    while work:
        s0, key, klen, stream, tr = work.pop()
        hw = X.iskey(s0, key) is not None if key is not None else None
        k = (cells(s0), hw, klen, stream is not None, tuple(sorted(x for x in s0.aux.items() if x[0].startswith("feat:"))), s0.aux.get("chosen"), X.aes_ok(s0, 16), X.aes_ok(s0, 32))
        if k in seen: continue
        seen.add(k); n["states"] += 1
        if n["states"] > 400: raise Broken("too many histories")
        ops = [("crypto_aes_can_use_intrinsics", [])]
        if key is None:
            ops += [("crypto_aes_key_expand", [raw, c(z)]) for z in (32, 16)]
            ops.append(("crypto_aes_key_free", [ZERO]))
        else:
            ops.append(("crypto_aes_encrypt_block", [inb, outb, key]))
            ops += [("crypto_aesctr_buf", [key, nonce, inb, outb, c(z)]) for z in (5, 40)]
            if stream is None: ops += [("crypto_aesctr_init", [key, nonce]), ("crypto_aes_key_free", [key])]
            else: ops += [("crypto_aesctr_stream", [stream, inb, outb, c(z)]) for z in (1, 15, 16, 33)] + [("crypto_aesctr_free", [stream])]
        for name, args in ops:
            s = s0.fork()
            if outb in s.mem: del s.wmem()[outb]
            s.aux["ops"] = tr
            for t, r in e.run(F[name], args, s):
                at = " > ".join(tr[-3:] + (name + ("(%d)" % cv(args[1]) if name.endswith("expand") else ""),))
                if r == "exit": n["refused"] += 1; continue
                if isinstance(r, str): R.ok(False, "operations-return", at, "ends in %s" % r, t); continue
                for x in memfaults(t.evlist()): R.ok(False, "no-memory-fault", at, x.name, t)
                # what comes out of an accelerated function is trusted only after a self-test
                res = content(t, outb, ZERO, c(40)) if outb in t.mem else None
                for h in hwkeys_in(res, set()) if res is not None else ():
                    if h.op == "hwkey": R.ok(X.aes_ok(t, cv(h.a[1])), "self-tested", at, "data goes through hardware AES (%s-byte key) without a self-test of known answers having passed" % show(h.a[1]), t)
                k2, l2, st2 = key, klen, stream
                ret = t.simp(r) if isinstance(r, T) else None
                which = None
                if name == "crypto_aes_key_expand":
                    if t.isnull(ret) is True: continue
                    k2, l2 = ret, cv(args[1])
                    hwk = X.iskey(t, ret)
                    which = "hardware" if hwk is not None else "portable"
                    n["hwkey" if hwk is not None else "swkey"] += 1
                    if hwk is not None:
                        R.ok(X.aes_ok(t, l2), "self-tested", at, "a %d-byte key is expanded by hardware without a self-test with such a key having passed" % l2, t)
                        R.ok(hwk.a[0] is content(t, raw, ZERO, args[1]) and hwk.a[1] is args[1], "key-expanded", at, "the hardware key is expanded from other bytes than the key", t)
                    else: R.ok(base_off(ret)[0] in t.aux.get("swkeys", ()), "key-expanded", at, "returns a key that nothing expanded", t)
                elif name == "crypto_aes_key_free":
                    if key is not None and args[0] is key:
                        R.ok(mem_region(t, base_off(key)[0]).freed is not None, "key-freed", at, "the key is not freed", t)
                        R.ok(not hw or base_off(key)[0] in t.aux.get("hwfreed", ()), "one-implementation-per-key", at, "a key expanded by the hardware code is freed by the portable code", t)
                        k2, l2 = None, 0
                elif name == "crypto_aesctr_init":
                    if t.isnull(ret) is True: continue
                    st2 = ret
                elif name == "crypto_aesctr_free": st2 = None
                elif name == "crypto_aes_can_use_intrinsics":
                    if t.iszero(ret) is True: which = "portable"
                    else:
                        which = "hardware"
                        R.ok(X.aes_ok(t, 16) or X.aes_ok(t, 32), "self-tested", at, "says that the hardware may be used without a self-test having passed", t)
                else:
                    ks = hwkeys_in(res, set()) if res is not None else ()
                    which = "hardware" if ks else "portable"
                if which:
                    old = t.aux.get("chosen")
                    R.ok(old in (None, which), "choice-kept", at, "%s code runs after %s code had been chosen" % (which, old), t)
                    t.aux["chosen"] = which
                work.append((t, k2, l2, st2, tr + (name[7:],)))
    R.used(e)
    R.notes.append("AES: %(states)d states; keys expanded by hardware %(hwkey)d, by portable code %(swkey)d; stopped because portable AES gives wrong answers: %(refused)d" % n)
    if not R.viol:
        R.need(n["hwkey"], "hardware-keys", 2); R.need(n["swkey"], "portable-keys", 2); R.need(X.n["test"], "self-tests", 2)

def sha_histories(R, X):
    """hashing, on every processor, with every self-test outcome"""
    F = {n: R.prog.need(n) for n in ("SHA256_Init", "SHA256_Update")}
    e = engine(R, X, unroll_all=70, unroll=70)
    n = {"hw": 0, "sw": 0, "states": 0}
    msg = atom("param", "msg", p=True, nn=True)
    s = State(); s.wmem()[msg] = Region(("init", 0), ((ZERO, c(64), mk("b.const", bytes(range(100, 164)))),), None, c(64))
    work = [(s, 0, ())]; seen = set()
    while work:
        s0, d, tr = work.pop()
        fe = tuple(sorted(x for x in s0.aux.items() if x[0].startswith("feat:")))
        k = (cells(s0), fe, s0.aux.get("chosen"), d, tuple(sorted(f for f in X.feats if X.sha_ok(s0, f))))
        if k in seen: continue
        seen.add(k); n["states"] += 1
        if n["states"] > 200: raise Broken("too many histories")
        if d == 2: continue
        ctx = atom("param", "ctx%d" % d, p=True, nn=True)
        at = "hash %d" % (d + 1)
        for t, r in e.run(F["SHA256_Init"], [ctx], s0.fork()):
            if isinstance(r, str):
                if r != "exit": R.ok(False, "operations-return", at, "SHA256_Init ends in %s" % r, t)
                continue
            for t2, r2 in e.run(F["SHA256_Update"], [ctx, msg, c(64)], t):
                if isinstance(r2, str): continue
                for x in memfaults(t2.evlist()): R.ok(False, "no-memory-fault", at, x.name, t2)
                res = content(t2, ctx, ZERO, c(32))
                hs = [h for h in hwkeys_in(res, set()) if h.op == "b.hwsha"]
                for h in hs:
                    R.ok(X.sha_ok(t2, h.a[0]), "self-tested", at, "data is hashed with %s without a self-test of it against the portable code having passed" % h.a[0], t2)
                    n["hw"] += 1
                if not hs:
                    n["sw"] += 1
                    w = const(res)
                    if w is not None: R.ok(w == sha(IV, bytes(range(100, 164))), "portable-result", at, "the portable code hashes a block wrongly", t2)
                which = hs[0].a[0] if hs else "portable"
                old = t2.aux.get("chosen")
                R.ok(old in (None, which), "choice-kept", at, "%s code runs after %s had been chosen" % (which, old), t2)
                t2.aux["chosen"] = which
                work.append((t2, d + 1, tr))
    R.used(e)
    R.notes.append("SHA-256: %(states)d states; first blocks hashed by hardware %(hw)d, by portable code %(sw)d" % n)
    if not R.viol: R.need(n["hw"], "hardware-hashes", 2); R.need(n["sw"], "portable-hashes", 1)

def entropy(R, X):
    """the processor's random numbers are asked for only where it has them"""
    f = R.prog.need("crypto_entropy_read")
    k = X.n["hw"]
    ms = {n: v for n, v in X.models.items() if n.startswith("cpusupport_") or "rdrand" in n}
    e = Engine(R.prog, Cfg(models=ms, inits=True, merge=False, unroll_all=3, nofollow={"crypto_entropy_read"},
                           opaque={"entropy_read", "entropy_read_init", "entropy_read_fill", "entropy_read_done", "HMAC_SHA256_Init", "HMAC_SHA256_Update", "HMAC_SHA256_Final", "HMAC_SHA256_Buf",
                                   "libcperciva_HMAC_SHA256_Init", "libcperciva_HMAC_SHA256_Update", "libcperciva_HMAC_SHA256_Final", "libcperciva_HMAC_SHA256_Buf"}))
    e.cfg.models.pop("crypto_entropy_read", None)
    st = State()
    for t, r in e.run(f, [atom("param", "buf", p=True, nn=True), c(32)], st):
        pass
    R.used(e)
    if any("rdrand" in n for n in X.feats) and not R.viol: R.need(X.n["hw"] - k, "random-instructions", 1)
