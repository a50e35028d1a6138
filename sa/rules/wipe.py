"""Wiping of secret working memory: C10."""
import re
from .common import *
from .. import models as M
from . import start

SEC = lambda st: mk("sec", st.fresh())

def walk(t, seen, f):
    """does f hold of some subterm"""
    if isinstance(t, tuple): return any(walk(x, seen, f) for x in t)
    if not isinstance(t, T) or t.id in seen: return False
    seen.add(t.id)
    return f(t) or any(walk(x, seen, f) for x in t.a if isinstance(x, (T, tuple)))

class Wipe(Engine):
    """which bytes of which object hold something derived from a secret and have not been overwritten for good.

    A store of a secret-derived value makes its bytes dirty; only a store the compiler must keep (insecure_memzero and its like) makes them clean again.  The dirty set is part of the path's state; what a
    generalised loop may have stored is added when the loop is left."""
    def __init__(self, R, models=None, secret=(), globs=(), **kw):
        m = {"insecure_memzero": self.wipe, "explicit_bzero": self.wipe, "OPENSSL_cleanse": self.wipe, "free": self.free}
        m.update(models or {})
        kw.setdefault("merge", False)
        Engine.__init__(self, R.prog, Cfg(models=m, on_store=self.stored, **kw))
        self.R = R; self.secret = set(secret); self.globs = set(globs)
        self.D = {}; self.joins = True
        self.wide = set()           # objects whose numbers and pointers are public and whose larger fields are not
        self.n = {"stores": 0, "wipes": 0, "frames": 0, "returns": 0, "frees": 0}
        self.blame = {}
    # ---- what is secret
    def tainted(self, st, v):
        def f(t):
            if t.op == "sec": return True
            if t.op in ("ld", "b.mem"):
                b = t.a[0]
                if not isinstance(b, T): return False
                if b.op == "glob": return b.a[0] in self.globs
                if b in self.secret: return True
                if b in self.wide: return not (isinstance(t.a[3], T) and t.a[3].op == "c" and t.a[3].a[0] <= 8)
                if b.op in ("stk", "heap"): return b in self.D and not (t.a[1] and t.a[1][0] == "undef")
            # what a generalised loop or an uncertain position leaves in an object
            if t.op == "hv" or t.op == "b.unk" and isinstance(t.a[0], tuple):
                return any(isinstance(x, T) and (x in self.D or x in self.secret) for x in (t.a if t.op == "hv" else t.a[0]))
            return False
        return walk(v, set(), f)
    def src(self, st, p, n):
        """is any of n bytes at p secret-derived"""
        b, o = base_off(st.simp(p))
        if b is None: return False
        self.region_init(st, b)
        return self.tainted(st, content(st, b, o, st.simp(n)))
    # ---- dirty bytes
    def dirty(self, st, b): return dict(st.aux.get("dirty", ())).get(b, ())
    def setdirty(self, st, b, iv):
        d = dict(st.aux.get("dirty", ()))
        if iv: d[b] = tuple(iv)
        else: d.pop(b, None)
        st.aux["dirty"] = tuple(d.items())
    def add(self, st, b, lo, hi):
        iv = sorted(list(self.dirty(st, b)) + [(lo, hi)]); out = []
        for l, h in iv:
            if out and l <= out[-1][1]: out[-1] = (out[-1][0], max(h, out[-1][1]))
            else: out.append((l, h))
        self.setdirty(st, b, out)
    def extent(self, st, b, off, size):
        off = st.simp(off); size = st.simp(size) if isinstance(size, T) else c(size)
        r = st.mem.get(b)
        top = cv(r.size) if r is not None and r.size is not None and isinstance(r.size, T) and r.size.op == "c" else None
        lo = off.a[0] if off.op == "c" else 0
        hi = off.a[0] + size.a[0] if off.op == "c" and size.op == "c" else (top if top is not None else INF)
        return lo, hi
    def stored(self, e, st, base, off, size, v, fr, ins):
        if base is None or base.op not in ("stk", "heap") and base not in self.secret: return
        if isinstance(v, T) and (v.p or base_off(v)[0] is not None and base_off(v)[0].p) or not self.tainted(st, v): return       # where something lies is no secret
        lo, hi = self.extent(st, base, off, size)
        self.n["stores"] += 1
        self.D.setdefault(base, set()).add((lo, hi))
        if fr is not None: self.blame.setdefault(base, "%s:%s" % (lambda l: (l[0].split("/repo/")[-1], l[1]))(self.loc(fr, ins)))
        self.add(st, base, lo, hi)
    def put(self, st, p, n, v, fr, ins):
        """a model stores n bytes of v"""
        b, o = base_off(st.simp(p))
        if b is None: return
        M.chk_freed(self, st, b, p, fr, ins)
        x = mk("b.unk", v, c(n) if not isinstance(n, T) else n)
        self.stored(self, st, b, o, n, x, fr, ins)
        mem_write(st, b, o, c(n) if not isinstance(n, T) else n, x)
    def wipe(self, e, st, fr, a, ins):
        self.n["wipes"] += 1
        b, o = base_off(st.simp(a[0])); n = st.simp(a[1])
        self.event(st, "call", "insecure_memzero", tuple(a), None, fr, ins)
        M.m_memset(self, st, fr, [a[0], ZERO, n], ins)
        if b is not None and o.op == "c":
            lo = o.a[0]; r = st.mem.get(b)
            hi = lo + n.a[0] if n.op == "c" else lo
            if r is not None and r.size is not None and st.lb(sub(add(o, n), r.size)) >= 0: hi = INF
            out = []
            for l, h in self.dirty(st, b):
                if l < lo: out.append((l, min(h, lo)))
                if h > hi: out.append((max(l, hi), h))
            self.setdirty(st, b, out)
        return [(st, None)]
    def free(self, e, st, fr, a, ins):
        b, o = base_off(st.simp(a[0]))
        if b is not None and st.isnull(st.simp(a[0])) is not True:
            self.n["frees"] += 1
            self.clean(st, b, "wiped-before-free", "%s (%s)" % (fr.fn.name.replace("libcperciva_", ""), "%s:%s" % (lambda l: (l[0].split("/repo/")[-1], l[1]))(self.loc(fr, ins))), "memory freed here")
        return M.m_free(self, st, fr, a, ins)
    def clean(self, st, b, rule, at, what):
        iv = self.dirty(st, b)
        self.R.ok(not iv, rule, at, "%s still holds secret-derived bytes %s of %s (written at %s)" % (what, ",".join("%s..%s" % (l, "end" if h == INF else h) for l, h in iv), self.name(b), self.blame.get(b, "?")), st)
    def name(self, b): return "local %s of %s" % (b.a[1], str(b.a[0]).replace("libcperciva_", "")) if b.op == "stk" else show(b)
    # ---- engine hooks
    def apply_havoc(self, fr, st, env, b, hv):
        Engine.apply_havoc(self, fr, st, env, b, hv)
        for base, iv in hv.get("dirty", {}).items():
            for lo, hi in iv: self.add(st, base, lo, hi)
        if hv.get("gaveup"):
            for base in set(hv["regions"]) | {k[0] for k in hv["cells"]}:
                for lo, hi in self.D.get(base, ()): self.add(st, base, lo, hi)
    def loop_aux(self, backs, mk0):
        """bytes an iteration may leave secret are secret when the next one begins"""
        d = mk0.setdefault("dirty", {}); grew = False
        for s in backs:
            for base, iv in s.aux.get("dirty", ()):
                new = set(iv) - d.get(base, set())
                if new: d.setdefault(base, set()).update(new); grew = True
        return grew
    def run(self, f, args, st, chain=()):
        n0 = st.n
        res = Engine.run(self, f, args, st, chain)
        self.n["frames"] += 1
        ptr = None
        for s, r in res:
            if isinstance(r, str): continue
            if r is not None:
                v = s.simp(r)
                if v.p or v.op in ("stk", "heap"):
                    if s.isnull(v) is True: continue
                elif s.ub(v) < 0 or v.op == "c" and v.a[0] > 0: continue
            self.n["returns"] += 1
            for b in list(s.mem):
                if b.op == "stk" and b in self.D and b.a[0] == f.name and b.a[2] > n0:
                    self.clean(s, b, "wiped-before-return", where(f), "the frame left here")
        return self.join(res, n0) if self.joins else res
    def join(self, res, n0):
        """one state for all paths with the same result: what differs between them is forgotten, what any of them left dirty stays dirty"""
        groups = {}; out = []
        for s, r in res:
            if isinstance(r, str): out.append((s, r)); continue
            v = s.simp(r) if r is not None else None
            k = (v.id if v is not None else None, s.isnull(v) if v is not None and v.p else None, tuple(sorted(b.id for b, rg in s.mem.items() if rg.freed is not None)),
                 tuple(sorted((x, y) for x, y in s.aux.items() if x != "dirty")))
            groups.setdefault(k, []).append((s, v))
        for g in groups.values():
            if len(g) == 1: out.append(g[0]); continue
            ss = [s for s, _ in g]
            s = ss[0].fork()
            s.n = max(x.n for x in ss)
            s.wfacts()
            hull = lambda A: {k: (min(a[k][0] for a in A), max(a[k][1] for a in A)) for k in A[0] if all(k in a for a in A)}
            s.iv = hull([x.iv for x in ss]); s.uv = hull([x.uv for x in ss])
            s.ne = {k: v for k, v in ss[0].ne.items() if all(x.ne.get(k) == v for x in ss)}
            s.bf = {k: v for k, v in ss[0].bf.items() if all(x.bf.get(k) == v for x in ss)}
            m = s.wmem()
            for b in {b for x in ss for b in x.mem}:
                if b.op == "stk" and b.a[2] > n0 and not any(b in dict(x.aux.get("dirty", ())) for x in ss): m.pop(b, None); continue
                rg = [mem_region(x, b) for x in ss]
                if all(r is rg[0] for r in rg): m[b] = rg[0]; continue
                if any(r.d != rg[0].d for r in rg):
                    m[b] = Region(("init", ("join", s.fresh())), (), rg[0].freed, rg[0].size)
                    continue
                common = [q for q in rg[0].segs if all(q in r.segs for r in rg[1:])]
                cs = set(common); extra = []
                for x, r in zip(ss, rg):
                    for q in r.segs:
                        if q not in cs and not any(q[0] is w[0] and q[1] is w[1] for w in extra):
                            extra.append((q[0], q[1], mk("b.unk", SEC(s) if any(self.tainted(y, w[2]) for y, r2 in zip(ss, rg) for w in r2.segs if w[0] is q[0] and w[1] is q[1]) else mk("pub", s.fresh()), q[1])))
                m[b] = Region(rg[0].d, tuple(common + extra), rg[0].freed, rg[0].size)
            for x in ss[1:]:
                for b, iv in x.aux.get("dirty", ()):
                    for lo, hi in iv: self.add(s, b, lo, hi)
            out.append((s, g[0][1]))
        return out

# ------------------------------------------------------------------ hash functions
def transform(names):
    """the compression functions: state, block, and the scratch arrays they are handed"""
    def f(e, st, fr, a, ins):
        sec = e.src(st, a[0], c(32)) or e.src(st, a[1], c(64))
        v = SEC(st) if sec else mk("pub", st.fresh())
        e.put(st, a[0], 32, v, fr, ins)
        if len(a) > 2: e.put(st, a[2], 256, v, fr, ins)
        if len(a) > 3: e.put(st, a[3], 32, v, fr, ins)
        return [(st, None)]
    return {n: f for n in names}

HW = ("SHA256_Transform_sse2", "SHA256_Transform_shani", "SHA256_Transform_arm")
def compress(R):
    """the static function every block passes through: it lies on every call path from hashing and padding to the compression primitives"""
    mod = R.prog.need("SHA256_Update").mod
    def callees(f):
        return {norm(I.x[1]) for b in f.order for I in f.blocks[b] if I.op == "call" and I.x and I.x[0] == "g"}
    g = {norm(n): callees(f) for n, f in mod.funcs.items()}
    def reach(start, without=None):
        seen, w = set(), [start]
        while w:
            n = w.pop()
            if n in seen or n == without: continue
            seen.add(n); w += [x for x in g.get(n, ())]
        return seen
    roots = [n for n in ("SHA256_Update", "SHA256_Final") if n in g]
    best = None
    for n, f in mod.funcs.items():
        if not f.internal: continue
        f._parse()
        if len(f.params) < 3: continue
        if all(set(HW) & reach(r) and not set(HW) & reach(r, norm(n)) for r in roots):
            # the outermost such function
            if best is None or best in reach(norm(n)): best = norm(n)
    return (best,) if best else ()
P = lambda n, nn=True: atom("param", n, p=True, nn=nn)
I = lambda n: atom("param", n)

def obj(st, n, size):
    t = P(n); st.wmem()[t] = Region(("undef",), (), None, c(size)); return t

def cpus(R, none=False):
    m = {n: start.outcome(n, (0, 0)) if none else start.outcome(n, (0, 0), (1, 1)) for n in ("cpusupport_x86_shani", "cpusupport_x86_ssse3", "cpusupport_x86_sse2", "cpusupport_x86_aesni", "cpusupport_x86_rdrand", "cpusupport_arm_sha256", "cpusupport_arm_aes")}
    return m

def ranged(st, n, lo, hi):
    t = I(n); st.wfacts(); st.iv[t] = (lo, hi); return t

def hashes(R):
    Kb, In, Out, Salt = P("K"), P("in"), P("out"), P("salt")
    tot = {}
    def row(what, names, ops, follow=False, secret=(Kb, In), size=None):
        ms = transform(HW if follow else HW + compress(R))
        ms.update(cpus(R, follow))
        e = Wipe(R, ms, secret=set(secret))
        st = State()
        ctx = None
        if size: ctx = obj(st, "ctx", size); e.secret.add(ctx)
        sts = [st]
        for fn, mkargs in ops:
            f = R.prog.need(fn); nx = []
            for s in sts:
                for t, r in e.run(f, mkargs(s, ctx), s):
                    if not isinstance(r, str): nx.append(t)
                    elif r not in ("loopback", "exit", "unreachable"): R.ok(False, "operations-return", where(f), "ends in %s" % r, t)
            sts = first(nx, e)
        for s in sts:
            if ctx is not None: e.clean(s, ctx, "finished-context-wiped", what, "the finished computation")
        for x in e.n: tot[x] = tot.get(x, 0) + e.n[x]
        R.need(len(sts), "completed " + what, 1)
        R.used(e)
    def first(sts, e):
        seen = {}
        for s in sts: seen.setdefault(s.aux.get("dirty", ()), s)
        return list(seen.values())
    L = lambda s, n="len": ranged(s, n, 0, 2 ** 61)
    up = lambda fn: (fn, lambda s, x: [x, In, L(s)])
    row("SHA256 hash", "", [("SHA256_Init", lambda s, x: [x]), up("SHA256_Update"), up("SHA256_Update"), ("SHA256_Final", lambda s, x: [Out, x])], size=104)
    row("SHA256 of one block, portable code", "", [("SHA256_Init", lambda s, x: [x]), ("SHA256_Update", lambda s, x: [x, In, c(64)]), ("SHA256_Final", lambda s, x: [Out, x])], size=104, follow=True)
    row("SHA256_Buf", "", [("SHA256_Buf", lambda s, x: [In, L(s), Out])])
    hi = ("HMAC_SHA256_Init", lambda s, x: [x, Kb, L(s, "klen")])
    row("HMAC_SHA256", "", [hi, up("HMAC_SHA256_Update"), ("HMAC_SHA256_Final", lambda s, x: [Out, x])], size=208)
    row("HMAC_SHA256_Buf", "", [("HMAC_SHA256_Buf", lambda s, x: [Kb, L(s, "klen"), In, L(s), Out])])
    row("PBKDF2_SHA256", "", [("PBKDF2_SHA256", lambda s, x: [Kb, L(s, "klen"), Salt, L(s), ranged(s, "c", 0, 2 ** 40), Out, ranged(s, "dklen", 0, 2 ** 37)])])
    return tot


# ------------------------------------------------------------------ the callers of the hash functions, seen from outside
def hashmodels():
    """contexts and digests: what a computation absorbed makes its context secret; finishing it wipes the context"""
    def ini(size, key):
        def f(e, st, fr, a, ins):
            e.put(st, a[0], size, SEC(st) if not key or e.src(st, a[1], a[2]) else mk("pub", st.fresh()), fr, ins); return [(st, None)]
        return f
    def upd(size):
        def f(e, st, fr, a, ins):
            e.put(st, a[0], size, SEC(st), fr, ins); return [(st, None)]
        return f
    def fin(size):
        def f(e, st, fr, a, ins):
            e.wipe(e, st, fr, [a[1], c(size)], ins)
            e.put(st, a[0], 32, e.digest(st), fr, ins); return [(st, None)]
        return f
    def buf(i):
        def f(e, st, fr, a, ins):
            e.put(st, a[i], 32, e.digest(st), fr, ins); return [(st, None)]
        return f
    def pbk(e, st, fr, a, ins):
        e.put(st, a[5], st.simp(a[6]), e.digest(st), fr, ins); return [(st, None)]
    return {"SHA256_Init": ini(104, False), "SHA256_Update": upd(104), "SHA256_Final": fin(104), "SHA256_Buf": buf(2), "HMAC_SHA256_Init": ini(208, True), "HMAC_SHA256_Update": upd(208), "HMAC_SHA256_Final": fin(208),
            "HMAC_SHA256_Buf": buf(4), "PBKDF2_SHA256": pbk}

def drive(R, e, what, st, ops, need=1):
    """run the functions of ops one after the other over every state"""
    sts = [st]; done = []
    for fn, mkargs in ops:
        f = R.prog.need(fn); nx = []
        for s in sts:
            a = mkargs(s)
            if a is None: done.append(s); continue
            for t, r in e.run(f, a, s):
                if not isinstance(r, str): t.aux["last"] = r; nx.append(t)
                elif r not in ("loopback", "exit", "unreachable"): R.ok(False, "operations-return", where(f), "ends in %s" % r, t)
        sts = nx
    R.need(len(sts), "completed " + what, need)
    R.used(e)
    R.notes.append("%s: %s" % (what, ", ".join("%s %d" % (k, v) for k, v in e.n.items())))
    return sts

def aeskeys(R):
    """an expanded AES key is overwritten before it is freed, whichever code holds it"""
    def setkey(e, st, fr, a, ins):
        s2 = st.fork()
        e.put(st, a[2], 244, SEC(st), fr, ins)
        e.event(st, "call", "AES_set_encrypt_key", tuple(a), ZERO, fr, ins); e.event(s2, "call", "AES_set_encrypt_key", tuple(a), c(-1), fr, ins)
        return [(st, ZERO), (s2, c(-1))]
    def enc(e, st, fr, a, ins):
        e.put(st, a[1], 16, mk("pub", st.fresh()), fr, ins); return [(st, None)]
    ms = {"AES_set_encrypt_key": setkey, "AES_encrypt": enc, "crypto_aes_encrypt_block_aesni": enc, "abort": lambda e, st, fr, a, ins: [(st, "exit")]}
    ms.update(cpus(R))
    key = P("key")
    e = Wipe(R, ms, secret={key}, inits=True)
    e.joins = False
    st = State()
    ss = drive(R, e, "expanding and freeing AES keys", st, [("crypto_aes_key_expand", lambda s: [key, ranged(s, "len", 16, 32)]),
        ("crypto_aes_key_free", lambda s: [s.aux["last"]] if s.isnull(s.aux["last"]) is False else None)])
    k = 0
    for s in ss:
        for b, rg in s.mem.items():
            if b.op == "heap" and rg.freed is None and s.isnull(b) is False: R.ok(False, "wiped-before-free", "crypto_aes_key_free", "an expanded key is left in memory nothing refers to", s)
    R.need(e.n["frees"], "keys freed", 2)

def streams(R):
    def stream(e, st, fr, a, ins):
        for off, n in ((8, 24),): e.put(st, add(a[0], c(off)), n, SEC(st), fr, ins)
        return [(st, None)]
    key, i, o = P("key"), P("in"), P("out")
    ms = {"crypto_aesctr_stream": stream, "crypto_aesctr_aesni_stream": stream, "crypto_aes_can_use_intrinsics": start.outcome("can", (0, 0), (1, 1)),
          "crypto_aes_encrypt_block": lambda e, st, fr, a, ins: (e.put(st, a[1], 16, SEC(st), fr, ins), [(st, None)])[1]}
    for n, ops in (("AES-CTR of one buffer", [("crypto_aesctr_buf", lambda s: [key, I("nonce"), i, o, ranged(s, "len", 0, 2 ** 62)])]),
                   ("AES-CTR stream", [("crypto_aesctr_init", lambda s: [key, I("nonce")]), ("crypto_aesctr_stream", lambda s: keep(s) and [s.aux["last"], i, o, ranged(s, "len", 0, 2 ** 62)]),
                                       ("crypto_aesctr_free", lambda s: [s.aux["obj"]])])):
        for follow in (True, False):
            m = dict(ms)
            if follow: m.pop("crypto_aesctr_stream")
            e = Wipe(R, m, secret={key, i}, inits=True); e.joins = False
            if not follow: e.cfg.models["crypto_aesctr_stream"] = stream
            ss = drive(R, e, n + (", portable code" if follow else ""), State(), ops)

def keep(s):
    if s.isnull(s.aux["last"]) is not False: return None
    s.aux["obj"] = s.aux["last"]; return True

def generator(R):
    """seed material, and the copies of the generator's state an update works on"""
    def ent(e, st, fr, a, ins):
        s2 = st.fork(); e.put(st, a[0], st.simp(a[1]), SEC(st), fr, ins); return [(st, ZERO), (s2, c(-1))]
    def rdrand(e, st, fr, a, ins):
        s2 = st.fork(); e.put(st, a[0], scale(st.simp(a[1]), 4), SEC(st), fr, ins); return [(st, ZERO), (s2, ONE)]
    ms = hashmodels(); ms.update(cpus(R)); ms.update({"entropy_read": ent, "generate_seed_rdrand": rdrand})
    # the generator's state: the file's own aggregate variables
    mod = R.prog.need("crypto_entropy_read").mod
    state = {"%s:%s" % (mod.src, g) for g, t in mod.globals.items() if re.match(r"internal global [%\[{]", t)}
    R.need(len(state), "generator states", 1)
    e = Wipe(R, ms, globs=state, inits=True, nofollow={"crypto_entropy_read"})
    e.digest = SEC
    buf = P("buf")
    z = lambda s: [buf, ranged(s, "len", 0, 2 ** 62)]
    st = State()
    for r in range(2):
        ss = drive(R, e, "random bytes" if not r else "more random bytes", st, [("crypto_entropy_read", z)])
        ok = [s for s in ss if s.simp(s.aux["last"]) is ZERO]
        st = e.join([(s, None) for s in ok], 10 ** 9)[0][0] if ok else ss[0]
    R.need(e.n["wipes"], "wipes", 4)

class Bignums:
    """big numbers: secret when any operand or the bytes they are made of are"""
    OPS = ("BN_add", "BN_sub", "BN_mod_exp", "BN_mod_mul", "BN_mul", "BN_mod", "BN_div", "BN_set_word", "BN_copy", "BN_mod_add", "BN_mod_sub", "BN_exp", "BN_sqr", "BN_lshift", "BN_rshift", "BN_add_word", "BN_sub_word",
           "BN_mod_exp_mont", "BN_mod_exp_mont_consttime", "BN_set_bit", "BN_clear_bit", "BN_nnmod", "BN_uadd", "BN_usub")
    def __init__(self, R):
        self.R = R; self.n = {"made": 0, "secret": 0, "cleared": 0, "freed": 0}
    def models(self):
        m = {n: self.op for n in self.OPS}
        m.update({"BN_new": self.new, "BN_secure_new": self.new, "BN_bin2bn": self.bin, "BN_dup": self.dup, "BN_free": self.free, "BN_clear_free": self.cfree, "BN_clear": self.clear, "BN_bn2bin": self.out, "BN_bn2binpad": self.out,
                  "BN_CTX_new": self.ctx, "BN_CTX_free": lambda e, st, fr, a, ins: [(st, None)]})
        return m
    def is_(self, st, x): return st.simp(x) in st.aux.get("secbn", ())
    def mark(self, st, x):
        x = st.simp(x)
        if x not in st.aux.get("secbn", ()): st.aux["secbn"] = st.aux.get("secbn", ()) + (x,); self.n["secret"] += 1
    def make(self, e, st, sec):
        s2 = st.fork(); b = atom("bn", st.fresh(), p=True, nn=True); self.n["made"] += 1
        if sec: self.mark(st, b)
        return [(st, b), (s2, ZERO)]
    def new(self, e, st, fr, a, ins): return self.make(e, st, False)
    def ctx(self, e, st, fr, a, ins):
        s2 = st.fork(); return [(st, atom("bnctx", st.fresh(), p=True, nn=True)), (s2, ZERO)]
    def bin(self, e, st, fr, a, ins):
        b, o = base_off(st.simp(a[0])); e.region_init(st, b)
        v = content(st, b, o, st.simp(a[1]))
        sec = e.tainted(st, v) or walk(v, set(), lambda t: t.op == "rnd")
        if len(a) > 2 and st.isnull(st.simp(a[2])) is not True:
            s2 = st.fork()
            if sec: self.mark(st, a[2])
            return [(st, a[2]), (s2, ZERO)]
        return self.make(e, st, sec)
    def dup(self, e, st, fr, a, ins): return self.make(e, st, self.is_(st, a[0]))
    def op(self, e, st, fr, a, ins):
        if any(self.is_(st, x) for x in a if isinstance(x, T)): self.mark(st, a[0])
        s2 = st.fork()
        return [(st, ONE), (s2, ZERO)]
    def out(self, e, st, fr, a, ins):
        e.put(st, a[1], st.simp(a[2]) if len(a) > 2 else mk("bnlen", st.simp(a[0])), mk("pub", st.fresh()), fr, ins)
        return [(st, atom("bnlen", st.simp(a[0]), nn=True))]
    def clear(self, e, st, fr, a, ins):
        st.aux["secbn"] = tuple(x for x in st.aux.get("secbn", ()) if x is not st.simp(a[0])); return [(st, None)]
    def cfree(self, e, st, fr, a, ins):
        self.n["cleared"] += 1; return self.clear(e, st, fr, a, ins)
    def free(self, e, st, fr, a, ins):
        self.n["freed"] += 1
        l = e.loc(fr, ins)
        self.R.ok(not self.is_(st, a[0]), "bignum-cleared", "%s (%s:%s)" % (fr.fn.name.replace("libcperciva_", ""), l[0].split("/repo/")[-1], l[1]), "a number computed from the private exponent is freed without being overwritten", st)
        return [(st, None)]

def exchange(R):
    B = Bignums(R)
    def ent(e, st, fr, a, ins):
        s2 = st.fork(); e.put(st, a[0], st.simp(a[1]), mk("rnd", st.fresh()), fr, ins); return [(st, ZERO), (s2, c(-1))]
    ms = B.models(); ms["crypto_entropy_read"] = ent
    priv, pub, out = P("priv"), P("pub"), P("key")
    for n, f, a in (("making a public value", "crypto_dh_generate_pub", [out, priv]), ("computing the shared value", "crypto_dh_compute", [pub, priv, out])):
        e = Wipe(R, ms, secret={priv}); e.joins = False
        for s in drive(R, e, n, State(), [(f, lambda s: a)]):
            if s.simp(s.aux["last"]) is ZERO: R.ok(not s.aux.get("secbn"), "bignum-cleared", f, "a number computed from the private exponent is neither overwritten nor freed", s)
    R.notes.append("big numbers: %s" % B.n)
    R.need(B.n["secret"], "secret numbers", 4); R.need(B.n["cleared"], "numbers cleared", 4)

def packets(R):
    """the encryption layer: contexts, key objects, the shared secret"""
    def keyx(e, st, fr, a, ins):
        s2 = st.fork()
        k = M.new_heap(e, st, fr, ins, "aeskey", c(244), False); st.assume(mk("eq0", k), False)
        e.stored(e, st, k, ZERO, c(244), SEC(st), fr, ins)
        return [(st, k), (s2, ZERO)]
    def keyf(e, st, fr, a, ins):
        b, o = base_off(st.simp(a[0]))
        if b is not None: e.setdirty(st, b, ())
        return M.m_free(e, st, fr, a, ins)
    def sini(e, st, fr, a, ins):
        s2 = st.fork(); k = M.new_heap(e, st, fr, ins, "aesctr", c(48), False); st.assume(mk("eq0", k), False)
        e.stored(e, st, k, ZERO, c(48), SEC(st), fr, ins)
        return [(st, k), (s2, ZERO)]
    def cbuf(e, st, fr, a, ins):
        e.put(st, a[3], st.simp(a[4]), mk("pub", st.fresh()), fr, ins); return [(st, None)]
    def cstr(e, st, fr, a, ins):
        e.put(st, a[2], st.simp(a[3]), mk("pub", st.fresh()), fr, ins); return [(st, None)]
    def fread(e, st, fr, a, ins):
        e.put(st, a[0], st.simp(a[2]), mk("pub", st.fresh()), fr, ins)
        r = mk("ret", "fread", st.fresh()); st.wfacts(); st.iv[r] = (0, 2 ** 30)
        return [(st, r)]
    ms = hashmodels()
    ms.update({"crypto_aes_key_expand": keyx, "crypto_aes_key_free": keyf, "crypto_aesctr_init": sini, "crypto_aesctr_alloc": sini, "crypto_aesctr_free": keyf, "crypto_aesctr_buf": cbuf, "crypto_aesctr_stream": cstr, "fread": fread,
               "crypto_dh_compute": lambda e, st, fr, a, ins: [(st, ZERO), (st.fork(), c(-1))], "crypto_verify_bytes": lambda e, st, fr, a, ins: [(st, ZERO), (st.fork(), ONE)]})
    K, k = P("K"), P("k")
    pub = lambda st: mk("pub", st.fresh())
    def mkE(secret, digest):
        e = Wipe(R, ms); e.digest = digest; e.joins = False; e.wide = secret
        return e
    q = lambda s: [P("ibuf"), ranged(s, "len", 0, 1024), P("obuf"), k]
    drive(R, mkE({k}, pub), "encrypting a packet", State(), [("proto_crypt_enc", q)])
    drive(R, mkE({k}, pub), "decrypting a packet", State(), [("proto_crypt_dec", lambda s: [P("ibuf"), P("obuf"), k])])
    # the session keys
    ec, es = P("eh_c"), P("eh_s")
    e = mkE(set(), pub)
    ops = [("proto_crypt_mkkeys", lambda s: [K, P("nl"), P("nr"), P("yh"), P("x"), ranged(s, "nopfs", 0, 1), ranged(s, "decr", 0, 1), ec, es])]
    for d in (ec, es):
        def fr_(s, d=d):
            if s.simp(s.aux.get("made", s.aux["last"])) is not ZERO: return None
            s.aux["made"] = ZERO
            return [mem_read(s, d, ZERO, 8, True)]
        ops.append(("proto_crypt_free", fr_))
    drive(R, e, "making and freeing session keys", State(), ops)
    R.need(e.n["frees"], "session keys freed", 2)
    # the shared secret
    e = mkE(set(), SEC)
    ss = drive(R, e, "loading and freeing the shared secret", State(), [("proto_crypt_secret", lambda s: [P("file")]), ("proto_crypt_secret_free", lambda s: [s.aux["last"]] if s.isnull(s.aux["last"]) is False else None)])
    R.need(e.n["wipes"], "secrets wiped", 1)

def primitive(R):
    """insecure_memzero stores a zero to every byte it is asked to, in a way the compiler has to keep"""
    g = [m for m in R.prog.mods.values() if "insecure_memzero" in m.src]
    fs = R.prog.defining("insecure_memzero")
    R.need(len(fs), "definitions of insecure_memzero", 1)
    seen = set()
    for f in fs:
        key = "\n".join(f.lines) if hasattr(f, "lines") else f.key
        at = where(f)
        # the pointer is fetched anew at each call, or the stores are made here
        calls = [I for b in f.order for I in f.blocks[b] if I.op == "call" and not (I.x and I.x[0] == "g")]
        loads = {I.res: I for b in f.order for I in f.blocks[b] if I.op == "load"}
        direct = []
        for I in calls:
            ok = I.x[0] == "l" or True
            L = loads.get(I.x[1]) if I.x and len(I.x) > 1 else None
            R.ok(L is not None and bool(L.x), "wipe-kept", at, "the zeroing function is called through a pointer the compiler may see through", None)
        e = Engine(R.prog, Cfg(inits=True, merge=False, unroll_all=40))
        e.base_models = {k: v for k, v in e.base_models.items() if k not in ("insecure_memzero",)}
        fns = []
        buf = P("buf")
        for n in (0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 33) if not seen else (5,):
            st = State()
            r = []
            for t, ret in e.run(f, [buf, c(n)], st):
                if isinstance(ret, str): R.ok(ret == "unreachable", "zeroes-all", at, "ends in %s" % ret, t); continue
                v = content(t, buf, ZERO, c(n)) if n else None
                z = n == 0 or isinstance(v, T) and (v.op == "b.fill" and v.a[0] is ZERO or v.op == "b.const" and not any(v.a[0]) or v.op == "b.cat" and all(p.op == "b.fill" and p.a[0] is ZERO or p.op == "b.const" and not any(p.a[0]) for p in v.a))
                R.ok(z, "zeroes-all", at, "%d bytes are asked to be overwritten: %s" % (n, show(v) if v is not None else ""), t)
                R.ok(all(t.ub(add(q[0], q[1])) <= n and t.lb(q[0]) >= 0 for q in mem_region(t, buf).segs), "zeroes-no-more", at, "writes outside the %d bytes it is given" % n, t)
        seen.add(f.key)
        for k in e.funcs:
            fn = next((x for m in R.prog.mods.values() for x in m.funcs.values() if x.key == k), None)
            if fn is None: continue
            for b in fn.order:
                for I in fn.blocks[b]:
                    if I.op == "store" and fn is not f or I.op == "store" and not calls:
                        R.ok(bool(I.x) or I.a[0][0] == "l" and False, "wipe-kept", where(fn), "a zeroing store the compiler may drop", None)
                    if I.op == "call" and I.x and I.x[0] == "g" and (I.x[1].startswith("llvm.memset") or I.x[1] == "memset"):
                        R.ok(False, "wipe-kept", where(fn), "zeroes with memset, which the compiler may drop", None)
        R.used(e)
    R.need(len(seen), "definitions", 1)

def C10(R):
    """Every object that held something derived from a secret is overwritten, by a store the compiler has to keep, before its frame is left or its memory is freed."""
    t = hashes(R)
    R.notes.append("hash functions: %s" % ", ".join("%s %d" % x for x in t.items()))
    aeskeys(R); streams(R); generator(R); exchange(R); packets(R); primitive(R)
