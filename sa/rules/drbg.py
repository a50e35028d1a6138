"""The random generator: C08."""
from .common import *
from ..machine import *
from . import netio, start

BLK = 32

def m_entropy(e, st, fr, a, ins):
    s2 = st.fork()
    e.event(s2, "call", "entropy_read", tuple(a), c(-1), fr, ins); M.set_errno(s2, "entropy_read")
    v = mk("b.fn", "entropy", st.fresh(), a[1])
    b, o = base_off(st.simp(a[0]))
    mem_write(st, b, o, st.simp(a[1]), v)
    e.event(st, "call", "entropy_read", tuple(a), ZERO, fr, ins, v)
    return [(st, ZERO), (s2, c(-1))]

def m_rdrand(e, st, fr, a, ins):
    s2 = st.fork()
    e.event(s2, "call", "generate_seed_rdrand", tuple(a), ONE, fr, ins)
    n = st.simp(a[1])
    z = scale(n, 4)
    v = mk("b.fn", "rdrand", st.fresh(), z)
    b, o = base_off(st.simp(a[0]))
    mem_write(st, b, o, z, v)
    e.event(st, "call", "generate_seed_rdrand", tuple(a), ZERO, fr, ins, v)
    return [(st, ZERO), (s2, ONE)]

def models():
    m = dict(crypto.MODELS)
    for n in ("crypto_entropy_read",): m.pop(n, None)
    m.update({"entropy_read": m_entropy, "generate_seed_rdrand": m_rdrand, "cpusupport_x86_rdrand": start.outcome("cpusupport_x86_rdrand", (0, 0), (1, 1))})
    return m

def hmac(k, m): return mk("b.fn", "HMAC", k, m, c(32))
def byte(x): return norm_b(mk("b.fill", c(x), ONE)) if x else norm_b(mk("b.const", b"\0"))
def bb(x): return norm_b(mk("b.const", bytes([x])))
K00, V01 = mk("b.fill", ZERO, c(32)), mk("b.fill", ONE, c(32))

def same(x, y):
    if x is y: return True
    from .keys import canon_zeros
    return canon2(x) == canon2(y)

_cm = {}
def canon2(b):
    """number of a byte string; strings which differ only in how constant parts are cut get the same one"""
    if b in _cm: return _cm[b]
    out = []
    for p in (b.a if b.op == "b.cat" else (b,)):
        z = bsize(p)
        if p.op == "b.fill" and z.op == "c" and p.a[0].op == "c": x = bytes([p.a[0].a[0] & 255]) * z.a[0]
        elif p.op == "b.const": x = p.a[0]
        elif p.op == "b.int" and p.a[1].op == "c": x = (p.a[1].a[0] & ((1 << 8 * p.a[0]) - 1)).to_bytes(p.a[0], "little")
        elif p.op == "b.fn" and p.a[0] == "HMAC": x = ("HMAC", canon2(p.a[1]), canon2(p.a[2]))
        else: x = p
        if isinstance(x, bytes) and out and isinstance(out[-1], bytes): out[-1] += x
        else: out.append(x)
    r = _cm[b] = _intern.setdefault(tuple(out), len(_intern))
    return r
_intern = {}

class Ref:
    """HMAC_DRBG (NIST SP 800-90A) driven by the seeding and the HMAC computations of a path"""
    def __init__(self, K, V):
        self.K, self.V = K, V
        self.data = None; self.step = 0
        self.blocks = []; self.cur = 0
        self.pieces = []; self.seeds = []
        self.bad = None
    def seed(self, data, first):
        if first: self.K, self.V = K00, V01
        if self.step or self.data is not None: self.bad = "seeded in the middle of an update"
        self.data = data
    def expected(self):
        z = self.data if self.data is not None else mk("b.const", b"")
        if self.step in (0, 2): return hmac(self.K, bcat([self.V, bb(0 if self.step == 0 else 1), z]))
        return hmac(self.K, self.V)
    def on(self, d):
        """an HMAC was computed"""
        if self.data is None and self.step == 0:
            v = hmac(self.K, self.V)
            if same(d, v):
                self.V = d; self.blocks.append(d); self.cur += 1
                return
        if not same(d, self.expected()): return
        if self.step in (0, 2): self.K = d
        else: self.V = d
        self.step += 1
        if self.step == (4 if self.data is not None else 2):
            if self.data is None:
                self.pieces.append(self.cur); self.cur = 0
            self.step = 0; self.data = None

def drive(ref, s):
    for x in s.evlist():
        if x.kind != "call": continue
        if x.name == "entropy_read" and x.ret is ZERO:
            ref.seeds.append(x)
            ref.seed(x.x, len(ref.seeds) == 1 and ref.fresh)
        elif x.name == "generate_seed_rdrand" and x.ret is ZERO:
            ref.seed(x.x, False)
        elif x.name in ("HMAC_SHA256_Buf", "HMAC_SHA256_Final"):
            ref.on(x.x)
    return ref

def judge(R, f, n, s, r, K, V, fresh, buf, at):
    """one path of a request for n bytes"""
    ent = [x for x in s.evlist() if x.kind == "call" and x.name == "entropy_read"]
    bad = [x for x in ent if x.ret is not ZERO]
    if bad:
        R.ok(s.iszero(r) is False, "entropy-failure-fails-request", at, "succeeds although there was no entropy", s)
        R.ok(bad[0] is ent[-1], "entropy-failure-fails-request", at, "goes on after a failure to get entropy", s)
        return None
    if not R.ok(s.iszero(r) is True, "request-succeeds", at, "fails (%s) without cause" % show(r), s): return None
    ref = Ref(K, V); ref.fresh = fresh
    drive(ref, s)
    if fresh: R.ok(len(ent) >= 1 and cv(s.simp(ent[0].args[1])) is not None and s.simp(ent[0].args[1]).a[0] >= 48, "instantiated-from-48", at, "the first request is served after %s bytes of system entropy" % (show(ent[0].args[1]) if ent else "0"), s)
    for x in ent[1 if fresh else 0:]:
        z = s.simp(x.args[1])
        R.ok(z.op == "c" and z.a[0] >= 32, "reseeded-with-32", at, "reseeds with %s bytes" % show(z), s)
    R.ok(ref.bad is None and ref.step == 0 and ref.data is None, "update-function", at, ref.bad or "the state is not replaced through the whole update function (step %d)" % ref.step, s)
    got = assembled(s, buf, n)
    want = bslice(s, bcat(ref.blocks), ZERO, c(n)) if ref.blocks and 32 * len(ref.blocks) >= n else None
    R.ok(n == 0 or want is not None and same(got, want), "output-is-hmac-chain", at, "%d bytes were wanted, %d blocks of HMAC_DRBG output were made, and the buffer holds %s" % (n, len(ref.blocks), show(got)[:300]), s)
    R.ok(ref.cur == 0, "ratcheted-after-request", at, "the state is not replaced after output was made", s)
    R.ok(all(32 * k <= 65536 for k in ref.pieces), "piece-size", at, "pieces of %s blocks" % (ref.pieces,), s)
    return ref

def assembled(s, buf, n):
    """the buffer's contents from the stores made to it in order"""
    parts = []; pos = 0
    for x in s.evlist():
        if x.kind != "store": continue
        off, z, v = s.simp(sub(x.args[0], buf)), s.simp(x.args[1]), x.args[2]
        if off.op != "c" or z.op != "c" or off.a[0] != pos: return content(s, buf, ZERO, c(n))
        parts.append(v); pos += z.a[0]
    return bcat(parts) if pos == n else mk("b.unk", "length", c(pos))

def cells(s):
    for b, r in s.mem.items():
        if b.op != "glob" or ":.str" in b.a[0] or b.a[0] == "errno": continue
        for so, sz, v in r.segs: yield b, so, sz, v

def C08(R):
    """Content analysis (byte strings as terms over uninterpreted HMAC) of every path through a request to the generator, from process start and from an
    arbitrary later state, against a reference model of HMAC_DRBG; intervals for the reseed counter; and the reading of system entropy."""
    f = R.prog.need("crypto_entropy_read")
    buf, ln = params(f)
    def run(n, st, inits):
        e, a, res = analyse(R, f, [buf, c(n) if not isinstance(n, T) else n], st, models(), inits=inits, unroll=2100, merge=False, on_store=record_store(lambda b: b is buf))
        return e, [(s, r) for s, r in res if r not in ("loopback",)]
    def base():
        st = State(); st.assume(mk("eq0", buf), False)
        return st
    w = where(f)
    # from process start
    first = []
    e, res = run(33, base(), True)
    n = {"fail": 0, "ok": 0}
    for s, r in res:
        at = w + " for 33 bytes as the first request"
        if isinstance(r, str):
            R.ok(False, "no-assertion-failure", at, "ends in %s" % r, s); continue
        ref = judge(R, f, 33, s, r, K00, V01, True, buf, at)
        if ref is None: 
            n["fail"] += 1
            R.ok(not content_touched(s, buf), "entropy-failure-fails-request", at, "output is stored although there was no entropy", s)
            # the next request still instantiates
            s3 = s.fork(); s3.ev = None
            e2, res2 = run(1, s3, True)
            for s4, r4 in res2:
                if isinstance(r4, str) or s4.iszero(r4) is not True: continue
                judge(R, f, 1, s4, r4, K00, V01, True, buf, w + " after a failed first request")
        else:
            n["ok"] += 1; first.append((s, ref))
        faults1(R, s, at)
    R.need(n["fail"], "failed-first"); R.need(n["ok"], "first", 2)
    if not first: return
    # where the state lives
    s, ref = first[0]
    key = [(b, so) for b, so, sz, v in cells(s) if sz is c(32) and isinstance(v, T) and v.op.startswith("b.") and same(v, ref.K)]
    val = [(b, so) for b, so, sz, v in cells(s) if sz is c(32) and isinstance(v, T) and v.op.startswith("b.") and same(v, ref.V)]
    if not (len(key) == 1 and len(val) == 1):
        if R.viol: return
        raise Broken("cannot identify the generator's state")
    # the counter: what one more request changes by a constant
    s1 = s.fork(); s1.ev = None
    ctr = []
    e, res = run(1, s1, True)
    for s2, r in res:
        if isinstance(r, str) or s2.iszero(r) is not True: continue
        R.ok(not [x for x in s2.evlist() if x.name == "entropy_read"], "seeded-once", w, "every request is seeded anew", s2)
        for b, so, sz, v in cells(s2):
            if sz.op != "c" or sz.a[0] > 8 or v.op != "c": continue
            o = mem_read(s, b, so, sz.a[0], False)
            if o.op == "c" and o is not v: ctr.append((b, so, sz.a[0], o.a[0], v.a[0] - o.a[0]))
        break
    R.ok(bool(ctr), "requests-counted", w, "nothing in the generator's state counts the requests since the last seeding")
    if len(set(ctr)) != 1:
        if R.viol: return
        raise Broken("cannot identify the generator's reseed counter: %s" % (ctr,))
    cb_, co, cz, v1, d = ctr[0]
    c0 = v1 - d * len(ref.pieces)
    lens = [0, 1, 31, 32, 33, 64, 100, 257] + ([65535, 65536, 65537, 65600, 131073] if R.tier == "thorough" else [65537])
    nn = {"kept": 0, "reseeded": 0, "failed": 0}
    def anystate(kv):
        st = s.fork(); st.ev = None
        K = mk("b.mem", atom("param", "key", p=True), ("init", 0), ZERO, c(32)); V = mk("b.mem", atom("param", "state", p=True), ("init", 0), ZERO, c(32))
        mem_write(st, key[0][0], key[0][1], c(32), K); mem_write(st, val[0][0], val[0][1], c(32), V)
        if isinstance(kv, int): k = c(kv)
        else:
            k = atom("param", "count"); lo, hi = (c0, 2 ** (8 * cz) - 2) if d > 0 else (-(2 ** 31), c0)
            st.iv[k] = (lo, hi)
        mem_write(st, cb_, co, c(cz), k)
        st.wmem()[buf] = Region(("init", 0))
        return st, K, V, k
    for L in lens:
        for kv in ("any",) if L < 60000 else (c0 + 255 * d, c0, c0 + 254 * d):
            st, K, V, k = anystate(kv)
            e, res = run(L, st, True)
            at = w + " for %d bytes" % L + ("" if kv == "any" else " as request %d since seeding" % ((kv - c0) * d + 1))
            for s2, r in res:
                if isinstance(r, str):
                    R.ok(False, "no-assertion-failure", at, "ends in %s" % r, s2); continue
                ref = judge(R, f, L, s2, r, K, V, False, buf, at)
                faults1(R, s2, at)
                if ref is None: nn["failed"] += 1; continue
                # how many pieces since the last seeding
                if kv == "any":
                    if not ref.seeds:
                        nn["kept"] += 1
                        if L: R.ok(s2.ub(scale(addc(k, -c0), d)) <= 255, "reseeded-in-time", at, "output is made when up to %s requests were served since the last seeding" % (s2.ub(scale(addc(k, -c0), d)),), s2)
                    else:
                        nn["reseeded"] += 1
                        R.ok(s2.lb(scale(addc(k, -c0), d)) >= 0, "reseeded-in-time", at, "", s2)
                else:
                    since = (kv - c0) * d; worst = 0; pc = 0
                    for x in seq(s2):
                        if x == "seed": since = 0
                        else: since += 1; worst = max(worst, since)
                    R.ok(worst <= 256, "reseeded-in-time", at, "%d requests are served without new entropy" % worst, s2)
                    nn["reseeded" if ref.seeds else "kept"] += 1
                cnt = s2.simp(mem_read(s2, cb_, co, cz, False))
                want = add(k, c(d * len(ref.pieces))) if not ref.seeds else None
                if want is not None: R.ok(s2.iszero(sub(cnt, want)) is True, "requests-counted", at, "%d pieces are served and the counter goes from %s to %s" % (len(ref.pieces), show(k), show(cnt)), s2)
                elif kv == "any": R.ok(s2.iszero(sub(cnt, c(c0 + d * len(ref.pieces)))) is True, "requests-counted", at, "after reseeding the counter is %s" % show(cnt), s2)
    for k, v in nn.items(): R.need(v, "requests-" + k, 3)
    system_entropy(R)

def seq(s):
    out = []
    for x in s.evlist():
        if x.kind != "call": continue
        if x.name == "entropy_read" and x.ret is ZERO: out.append("seed")
        elif x.name == "HMAC_SHA256_Final":
            m = x.x.a[2] if x.x.op == "b.fn" else None
            z = bsize(m) if m is not None else None
            if z is c(33): out.append("piece")
    return out

def content_touched(s, buf):
    r = s.mem.get(buf)
    return r is not None and bool(r.segs)

def faults1(R, s, at):
    for x in s.evlist():
        if x.kind == "mem": R.ok(False, "memory-safe", at + " " + locs(x), "%s of %s" % (x.name, show(x.args[0])), x.st)
    R.ok(True, "memory-safe", at, "")

GHOST = atom("glob", "ghost:filled", p=True, nn=True)

def m_readfill(dst, n):
    """read(2) that also counts the bytes put consecutively into the buffer"""
    def f(e, st, fr, a, ins):
        out = []
        s2 = st.fork()
        e.event(s2, "call", "read", tuple(a), c(-1), fr, ins); M.set_errno(s2, "read"); out.append((s2, c(-1)))
        s3 = st.fork()
        e.event(s3, "call", "read", tuple(a), ZERO, fr, ins); out.append((s3, ZERO))
        T0 = mem_read(st, GHOST, ZERO, 8, False)
        r = mk("ret", "read", st.fresh())
        st.wfacts(); st.iv[r] = (1, 2 ** 62)
        if not st.setiv(sub(r, a[2]), -INF, 0): return out
        ok = st.iszero(sub(sub(st.simp(a[1]), dst), T0)) is True and st.ub(sub(add(a[2], T0), n)) <= 0
        mem_write(st, GHOST, ZERO, c(8), add(T0, r))
        e.event(st, "call", "read", tuple(a), r, fr, ins, ok)
        return out + [(st, r)]
    return f

def system_entropy(R):
    f = R.prog.need("entropy_read")
    buf, n = a = params(f)
    st = State()
    st.assume(mk("eq0", buf), False); st.iv[n] = (0, 2 ** 40)
    st.wmem()[GHOST] = Region(("zero",), ())
    e, a, res = analyse(R, f, a, st, {"read": m_readfill(buf, n), "open": start.outcome("open", (-1, -1), (0, 2 ** 31 - 1)), "close": start.m_close_retry}, merge=False, peel=True)
    w = where(f)
    k = {"ok": 0, "fail": 0}
    for s, r in res:
        if r == "loopback": continue
        if isinstance(r, str):
            R.ok(False, "no-assertion-failure", w, "ends in %s" % r, s); continue
        by = lambda *q: [x for x in s.evlist() if x.kind == "call" and x.name in q]
        op = by("open"); rd = by("read"); fd = op[0].ret if op else None
        for x in rd:
            R.ok(fd is not None and x.args[0] is fd, "reads-system-source", w, "reads from %s" % show(x.args[0]), s)
            if x.ret.op != "c": R.ok(x.x is True, "entropy-fills-buffer", w + " " + locs(x), "reads %s bytes to %s, not where the last read ended or past the end" % (show(x.args[2]), show(x.args[1])), s)
        for x in op:
            from .opts import cstr
            nm = cstr(e, s, x.args[0])
            R.ok(nm in (b"/dev/urandom", b"/dev/random", "/dev/urandom", "/dev/random"), "reads-system-source", w, "opens %s" % (nm,), s)
        if s.iszero(r) is True:
            k["ok"] += 1
            T1 = mem_read(s, GHOST, ZERO, 8, False)
            R.ok(s.iszero(sub(T1, n)) is True, "entropy-fills-buffer", w, "succeeds with %s of %s bytes" % (show(T1), show(n)), s)
        else:
            k["fail"] += 1
            R.ok(s.iszero(r) is False, "entropy-result", w, "returns %s" % show(r), s)
            cause = [x for x in by("open", "read", "close") if x.ret is c(-1) or x.ret is ZERO and x.name == "read" or s.iszero(x.ret) is not True and x.name == "close"] + [x for x in by("malloc", "calloc") if s.isnull(x.ret) is True]
            R.ok(bool(cause), "entropy-result", w, "fails although everything worked", s)
        for i, x in enumerate(rd[:-1]):
            R.ok(x.ret is not ZERO, "entropy-fills-buffer", w + " " + locs(x), "reads on after the end of the entropy source", s)
        if op and op[0].ret is not c(-1):
            cl = by("close")
            R.ok(len(cl) >= 1 and all(x.args[0] is fd for x in cl), "entropy-source-closed", w, "closes %s" % [show(x.args[0]) for x in cl], s)
        for b, rg in s.mem.items():
            R.ok(b.op != "heap" or rg.freed is not None or s.isnull(b) is True, "entropy-source-closed", w, "leaks the object allocated by %s" % (b.a[0],), s)
        faults1(R, s, w)
    R.need(k["ok"], "entropy-read-ok"); R.need(k["fail"], "entropy-read-fail", 3)
