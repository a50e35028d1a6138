"""Path-sensitive interprocedural dataflow over the LLVM IR of /repo.

Abstract values are value numbers (terms.py); an abstract state maps memory regions to symbolic segments and
carries interval / disequality facts.  Loops are analysed from an invariant header state computed to a fixpoint
(what an iteration changes is forgotten).  Calls to functions of the program are analysed in place, so that moving
code into a helper changes nothing; leaf APIs are given by models.  No solver is used.
"""
import sys
import math
from math import gcd
from .ir import Broken, Ty, P as TokP, toks, parse_type, parse_val, skip_attrs
from .terms import *

sys.setrecursionlimit(20000)
INF = float("inf")

class Region:
    __slots__ = ("d", "segs", "freed", "size")
    def __init__(self, d, segs=(), freed=None, size=None):
        self.d, self.segs, self.freed, self.size = d, segs, freed, size

class Ev:
    __slots__ = ("kind", "name", "args", "ret", "loc", "chain", "mem", "prev", "n", "x", "st")
    def __init__(self, kind, name, args, ret, loc, chain, mem, prev, x=None):
        self.kind, self.name, self.args, self.ret, self.loc = kind, name, args, ret, loc
        self.chain, self.mem, self.prev, self.x = chain, mem, prev, x
        self.n = prev.n + 1 if prev else 0
    def __repr__(self):
        return "%s %s(%s) -> %s @%s:%s" % (self.kind, self.name, ", ".join(map(show, self.args or ())),
            show(self.ret) if self.ret is not None else "", self.loc[0], self.loc[1])

NEST = [0]

class State:
    __slots__ = ("mem", "cow", "iv", "uv", "ne", "bf", "fcow", "ev", "n", "path", "aux")
    def __init__(self):
        self.mem = {}; self.cow = False
        self.iv = {}; self.uv = {}; self.ne = {}; self.bf = {}; self.fcow = False
        self.ev = None; self.n = 0; self.path = None; self.aux = {}
    def fork(self):
        s = State.__new__(State)
        self.cow = True; self.fcow = True
        s.mem = self.mem; s.cow = True
        s.iv, s.uv, s.ne, s.bf, s.fcow = self.iv, self.uv, self.ne, self.bf, True
        s.ev, s.n, s.path = self.ev, self.n, self.path
        s.aux = dict(self.aux)
        return s
    def wmem(self):
        if self.cow:
            self.mem = dict(self.mem); self.cow = False
        return self.mem
    def wfacts(self):
        if self.fcow:
            self.iv = dict(self.iv); self.uv = dict(self.uv); self.ne = dict(self.ne); self.bf = dict(self.bf)
            self.fcow = False
    def fresh(self):
        self.n += 1
        return self.n
    # ------------------------------------------------------------ bounds
    def akey(self, t):
        """(constant, key, sign) with t == constant + sign*key, key's first coefficient positive; key None for const"""
        if t.op == "c":
            return t.a[0], None, 1
        if t.op != "lin":
            return 0, t, 1
        k, items = t.a
        if items[0][1] > 0:
            return k, mk("lin", 0, items) if not (len(items) == 1 and items[0][1] == 1) else items[0][0], 1
        it = tuple((a, -n) for a, n in items)
        return k, mk("lin", 0, it) if not (len(it) == 1 and it[0][1] == 1) else it[0][0], -1
    def abounds(self, a):
        lo, hi = self.iv.get(a, (-INF, INF))
        l2, h2 = intrinsic(self, a)
        return max(lo, l2), min(hi, h2)
    def bounds(self, t):
        if t.op == "c":
            return t.a[0], t.a[0]
        if t.op != "lin":
            return self.abounds(t)
        k, items = t.a
        lo = hi = k
        for a, n in items:
            l, h = self.abounds(a)
            if n > 0:
                lo += l * n; hi += h * n
            else:
                lo += h * n; hi += l * n
        kk, key, sg = self.akey(t)
        if key is not None and key in self.iv:
            l, h = self.iv[key]
            if sg < 0:
                l, h = -h, -l
            lo = max(lo, kk + l); hi = min(hi, kk + h)
        if len(items) >= 2 and NEST[0] < 2:
            NEST[0] += 1        # facts about quotients lead back to what is divided
            try: l, h = self.relbounds(dict(items), 2)
            finally: NEST[0] -= 1
            lo = max(lo, k + l); hi = min(hi, k + h)
        return lo, hi
    def relbounds(self, d, depth):
        """bounds of a linear combination from the recorded facts about linear combinations"""
        lo, hi = -INF, INF
        lins = [x for x in self.iv.items() if x[0].op == "lin" and len(x[0].a[1]) >= 2]
        if not lins: return lo, hi
        near = [x for x in lins if any(a in d for a, n in x[0].a[1])]
        if len(near) > 14: depth = 1
        for dk, (l, h) in near:
            di = dk.a[1]
            for s in (1, -1):
                # must cancel (part of) a shared term
                if not any(a in d and (d[a] > 0) == (s * n > 0) for a, n in di): continue
                r = dict(d); grow = 0
                for a, n in di:
                    x = r.get(a, 0)
                    if x == 0: grow += 1
                    x -= s * n
                    if x: r[a] = x
                    elif a in r: del r[a]
                if grow and (depth < 2 or len(r) > 3): continue
                if len(r) > len(d) + 1: continue
                rl = rh = 0
                for a, n in r.items():
                    l2, h2 = self.abounds(a)
                    if n > 0:
                        rl += l2 * n; rh += h2 * n
                    else:
                        rl += h2 * n; rh += l2 * n
                if len(r) >= 2 and depth > 1:
                    l2, h2 = self.relbounds(r, depth - 1)
                    rl = max(rl, l2); rh = min(rh, h2)
                if s > 0:
                    lo = max(lo, rl + l); hi = min(hi, rh + h)
                else:
                    lo = max(lo, rl - h); hi = min(hi, rh - l)
        return lo, hi
    def lb(self, t):
        return self.bounds(t)[0]
    def ub(self, t):
        return self.bounds(t)[1]
    def simp(self, t):
        """replace atoms known to be a constant"""
        if t.op == "c" or not isinstance(t, T):
            return t
        if t.op == "lin":
            k, items = t.a
            d = {}
            ch = False
            for a, n in items:
                l, h = self.abounds(a)
                if l == h:
                    k += n * l; ch = True
                else:
                    d[a] = n
            return mklin(k, d) if ch else t
        l, h = self.abounds(t)
        if l == h and l not in (INF, -INF):
            return c(int(l))
        if isbool(t):
            r = self.truth(t)
            if r is not None:
                return c(1 if r else 0)
        return t
    # ------------------------------------------------------------ booleans
    def truth(self, b):
        if b.op == "c":
            return b.a[0] != 0
        if b in self.bf:
            return self.bf[b]
        if b.op == "not":
            r = self.truth(b.a[0])
            return None if r is None else not r
        if b.op == "eq0":
            return self.iszero(b.a[0])
        if b.op == "lt0":
            lo, hi = self.bounds(b.a[0])
            if hi < 0: return True
            if lo >= 0: return False
            return None
        if b.op == "ult":
            return self.ult(b.a[0], b.a[1], b.a[2])
        return None
    def iszero(self, d):
        if d.op == "c":
            return d.a[0] == 0
        lo, hi = self.bounds(d)
        if lo == 0 and hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        k, key, sg = self.akey(d)
        s = self.ne.get(key)
        if s and (-k * sg) in s:
            return False
        b = mk("eq0", d)
        if b in self.bf:
            return self.bf[b]
        if d.op != "lin":
            if d.nn:
                return False
            if isbool(d):
                r = self.truth(d)
                return None if r is None else not r
            return None
        items = d.a[1]
        if len(items) == 1 and items[0][1] == 1 and items[0][0].nn:
            return False
        base, off = base_off(d)
        if base is not None and base.p and base.op in ("heap", "stk", "glob", "param", "hnd") and (base.nn or self.iszero(base) is False) and self.lb(off) >= 0:
            return False        # a place within an object
        if len(items) == 2:
            (a, n), (a2, n2) = items
            if n * n2 == -1 and a.p and a2.p and a.op in OBJ and a2.op in OBJ:
                return False
        return None
    def ubounds(self, t, w):
        """bounds of t read as an unsigned w-bit number"""
        lo, hi = self.bounds(t)
        if lo >= 0:
            u = self.uv.get(t)
            if u:
                return max(lo, u[0]), min(hi, u[1])
            return lo, hi
        if hi < 0:
            return lo + 2 ** w, hi + 2 ** w
        u = self.uv.get(t, (0, 2 ** w - 1))
        return u
    def ult(self, a, b, w):
        b0 = mk("ult", a, b, w)
        if b0 in self.bf:
            return self.bf[b0]
        al, ah = self.ubounds(a, w)
        bl, bh = self.ubounds(b, w)
        if ah < bl: return True
        if al >= bh: return False
        if self.lb(a) >= 0 and self.lb(b) >= 0:
            lo, hi = self.bounds(sub(a, b))
            if hi < 0: return True
            if lo >= 0: return False
        if a is b: return False
        b1 = mk("ult", b, a, w)
        if self.bf.get(b1) is True: return False
        return None
    def setiv(self, t, lo, hi):
        """t in [lo,hi]; False when contradictory"""
        k, key, sg = self.akey(t)
        if key is None:
            return lo <= k <= hi
        l, h = lo - k, hi - k
        if sg < 0:
            l, h = -h, -l
        cl, ch = self.bounds(key)
        l = max(l, cl); h = min(h, ch)
        if key.op == "lin" and len(key.a[1]) == 1:
            a, n = key.a[1][0]
            l = -((-l) // n) if l != -INF else l
            h = h // n if h != INF else h
            key = a
            cl, ch = self.bounds(a)
            l = max(l, cl); h = min(h, ch)
        if key.op == "lin":
            g = math.gcd(*(n for a, n in key.a[1]))
            if g > 1 and self.setiv(mk("lin", 0, tuple((a, n // g) for a, n in key.a[1])), -((-l) // g) if l != -INF else l, h // g if h != INF else h) is False: return False
            if g > 1:
                if l != -INF: l = -((-l) // g) * g
                if h != INF: h = h // g * g
        s = self.ne.get(key)
        if s:
            while l in s: l += 1
            while h in s: h -= 1
        if l > h:
            return False
        if (l, h) != (cl, ch):
            self.wfacts()
            self.iv[key] = (l, h)
        return True
    def assume(self, b, v):
        """False when the assumption contradicts the state"""
        r = self.truth(b)
        if r is not None:
            return r == v
        if b.op == "not":
            return self.assume(b.a[0], not v)
        self.wfacts()
        self.bf[b] = v
        if b.op == "eq0":
            d = b.a[0]
            if isbool(d):
                return self.assume(d, not v)
            if v:
                return self.setiv(d, 0, 0)
            k, key, sg = self.akey(d)
            val = -k * sg
            self.ne[key] = self.ne.get(key, frozenset()) | {val}
            lo, hi = self.bounds(key)
            if lo == val:
                return self.setiv(key, lo + 1, hi)
            if hi == val:
                return self.setiv(key, lo, hi - 1)
            return True
        if b.op == "lt0":
            return self.setiv(b.a[0], -INF, -1) if v else self.setiv(b.a[0], 0, INF)
        if b.op == "ult":
            x, y, w = b.a
            if not v:
                x, y = y, x       # y <= x  with strict flag below
            st = 1 if v else 0
            # x + st <= y  (unsigned)
            xl, xh = self.ubounds(x, w)
            yl, yh = self.ubounds(y, w)
            nxh = min(xh, yh - st); nyl = max(yl, xl + st)
            if nxh < xl or nyl > yh:
                return False
            half = 2 ** (w - 1)
            self.uv[x] = (xl, nxh); self.uv[y] = (nyl, yh)
            if nxh < half and x.op != "c":
                if not self.setiv(x, max(xl, 0), nxh): return False
            if yh < half and y.op != "c":
                if not self.setiv(y, max(nyl, 0), yh): return False
            if self.lb(x) >= 0 and self.lb(y) >= 0:
                return self.setiv(sub(y, x), st, INF)
            return True
        return True
    # ------------------------------------------------------------ events
    def evlist(self, since=None):
        out = []
        e = self.ev
        while e is not None and e is not since:
            out.append(e); e = e.prev
        out.reverse()
        return out
    def isnull(self, t):
        return self.iszero(t)

def intrinsic(st, a):
    o = a.op
    if o == "zx":
        w = a.a[0]
        lo, hi = st.bounds(a.a[1])
        if lo >= 0:
            return lo, hi
        u = st.uv.get(a.a[1], (0, 2 ** w - 1))
        if u[0] == 0:
            s = st.ne.get(a.a[1])
            if s and 0 in s:
                return 1, u[1]
        return u
    if o in BOOLOPS:
        return 0, 1
    if o == "umod":
        lo, hi = st.bounds(a.a[0])
        m = a.a[1]
        if m.op == "c":
            return 0, min(m.a[0] - 1, hi if lo >= 0 else INF)
        return 0, INF
    if o == "and":
        r = INF
        for x in a.a:
            if x.op == "c" and x.a[0] >= 0:
                r = min(r, x.a[0])
        if r < INF:
            return 0, r
    if o == "udiv":
        lo, hi = st.bounds(a.a[0])
        if lo >= 0 and a.a[1].op == "c" and a.a[1].a[0] > 0:
            return lo // a.a[1].a[0], (hi // a.a[1].a[0] if hi != INF else INF)
        return 0, INF
    if o == "byte":
        return 0, 255
    if o == "tr":
        w = a.a[0]
        return -2 ** (w - 1), 2 ** (w - 1) - 1
    if o == "rng":
        return a.a[-2], a.a[-1]
    return -INF, INF

# =============================================================== memory
def mem_region(st, base):
    r = st.mem.get(base)
    if r is None:
        if base is not None and base.op == "stk":
            return Region(("undef",))
        return Region(("init", 0))
    return r

def seg_rel(st, ao, asz, bo, bsz):
    """'same','disj','in' (a inside b),'cover' (a covers b),'?'"""
    if ao is bo and asz is bsz:
        return "same"
    ae = add(ao, asz); be = add(bo, bsz)
    if st.lb(sub(bo, ae)) >= 0 or st.lb(sub(ao, be)) >= 0:
        return "disj"
    if st.lb(sub(ao, bo)) >= 0 and st.lb(sub(be, ae)) >= 0:
        return "in"
    if st.lb(sub(bo, ao)) >= 0 and st.lb(sub(ae, be)) >= 0:
        return "cover"
    return "?"

def le_int(b):
    """byte string with constant size <= 8 -> int term or None"""
    if b.op == "b.int":
        return b.a[1]
    if b.op == "b.fill" and b.a[0].op == "c" and b.a[1].op == "c":
        v = b.a[0].a[0]
        n = b.a[1].a[0]
        return c(int.from_bytes(bytes([v & 255]) * n, "little", signed=True) if n > 1 else ((v & 255) - 256 if (v & 255) > 127 else v & 255))
    if b.op == "b.const" and len(b.a[0]) <= 8:
        return c(int.from_bytes(b.a[0], "little", signed=True))
    return None

def val_bytes(v, size):
    """scalar value of `size` bytes -> byte string"""
    if isinstance(v, T) and v.op.startswith("b."):
        return v
    if v.op == "c":
        return norm_b(mk("b.const", (v.a[0] & ((1 << (8 * size)) - 1)).to_bytes(size, "little")))
    if v.op == "ld" and cv(v.a[3]) == size:
        return mk("b.mem", v.a[0], v.a[1], v.a[2], v.a[3])
    if v.op == "le" and cv(bsize(v.a[0])) == size:
        return v.a[0]
    if size == 1 and v.op == "zx" and v.a[0] == 8:
        return val_bytes(v.a[1], 1)
    if size == 1 and v.op == "tr" and v.a[0] == 8 and v.a[1].op == "zx" and v.a[1].a[0] == 8:
        return val_bytes(v.a[1].a[1], 1)
    return mk("b.int", size, v)

def bslice(st, b, off, ln):
    if off is ZERO and ln is bsize(b):
        return b
    if off is ZERO and st.simp(sub(ln, bsize(b))) is ZERO:
        return b
    o = b.op
    if o == "b.fill":
        return mk("b.fill", b.a[0], ln)
    if o == "b.const" and off.op == "c" and ln.op == "c":
        return norm_b(mk("b.const", b.a[0][off.a[0]:off.a[0] + ln.a[0]]))
    if o == "b.mem":
        return mk("b.mem", b.a[0], b.a[1], add(b.a[2], off), ln)
    if o == "b.sl":
        return bslice(st, b.a[0], add(b.a[1], off), ln)
    if o == "b.cat":
        out = []; cur = ZERO; end = add(off, ln); ok = True
        for p in b.a:
            z = bsize(p); pe = add(cur, z)
            if st.lb(sub(off, pe)) >= 0 or st.lb(sub(cur, end)) >= 0:
                cur = pe
                continue
            if st.lb(sub(cur, off)) >= 0: s0 = ZERO
            elif st.lb(sub(off, cur)) >= 0: s0 = sub(off, cur)
            else: ok = False; break
            if st.lb(sub(end, pe)) >= 0: e0 = z
            elif st.lb(sub(pe, end)) >= 0: e0 = sub(end, cur)
            else: ok = False; break
            out.append(bslice(st, p, s0, sub(e0, s0)))
            cur = pe
        if ok:
            return bcat(out)
    return mk("b.sl", b, off, ln)

def content(st, base, off, ln):
    """byte string held in [off, off+ln) of the region"""
    r = mem_region(st, base)
    cur = off; end = add(off, ln); out = []
    for _ in range(200):
        rem = st.simp(sub(end, cur))
        if rem.op == "c" and rem.a[0] <= 0:
            return bcat(out)
        limit = end; hit = None
        for so, sz, v in reversed(r.segs):
            se = add(so, sz)
            if so is cur or sub(so, cur) is ZERO:
                hit = (so, sz, v); break
            if st.lb(sub(so, limit)) >= 0 or st.lb(sub(cur, se)) >= 0:
                continue
            if st.lb(sub(cur, so)) >= 0 and st.lb(sub(se, cur)) > 0:
                hit = (so, sz, v); break
            if st.lb(sub(so, cur)) >= 0:
                if st.lb(sub(limit, so)) >= 0:
                    limit = so
                    continue
            return mk("b.unk", ("mix", base, st.fresh()), ln)
        if hit:
            so, sz, v = hit
            se = add(so, sz)
            if st.lb(sub(limit, se)) >= 0: e = se
            elif st.lb(sub(se, limit)) >= 0: e = limit
            else: return mk("b.unk", ("mix", base, st.fresh()), ln)
            b = val_bytes(v, cv(sz)) if not v.op.startswith("b.") else v
            out.append(bslice(st, b, sub(cur, so), sub(e, cur)))
            cur = e
        else:
            n = sub(limit, cur)
            if r.d[0] == "zero":
                out.append(mk("b.fill", ZERO, n))
            else:
                out.append(mk("b.mem", base, r.d, cur, n))
            cur = limit
    return mk("b.unk", ("mix", base, st.fresh()), ln)

def mem_write(st, base, off, size, val):
    r = mem_region(st, base)
    segs = []
    for s in r.segs:
        rel = seg_rel(st, off, size, s[0], s[1])
        if rel in ("same", "cover"):
            continue
        segs.append(s)
    segs.append((off, size, val))
    if len(segs) > 600:
        st.wmem()[base] = Region(("init", ("big", st.fresh())), (), r.freed, r.size)
        return
    st.wmem()[base] = Region(r.d, tuple(segs), r.freed, r.size)

def mem_read(st, base, off, size, isptr):
    """scalar read of constant size"""
    r = mem_region(st, base)
    sz = c(size)
    for s in reversed(r.segs):
        rel = seg_rel(st, off, sz, s[0], s[1])
        if rel == "disj":
            continue
        if rel == "same" and not s[2].op.startswith("b."):
            return s[2]
        if rel in ("same", "in"):
            b = s[2] if s[2].op.startswith("b.") else val_bytes(s[2], cv(s[1]))
            b = bslice(st, b, sub(off, s[0]), sz)
            return bytes_val(b, size, isptr)
        break
    else:
        if r.d[0] == "zero":
            return ZERO
        t = mk("ld", base, r.d, off, sz)
        if isptr: t.p = True
        return t
    b = content(st, base, off, sz)
    return bytes_val(b, size, isptr)

def bytes_val(b, size, isptr):
    v = le_int(b)
    if v is not None:
        return v
    if b.op == "b.mem":
        t = mk("ld", b.a[0], b.a[1], b.a[2], b.a[3])
    else:
        t = mk("le", b)
    if isptr: t.p = True
    return t

def havoc_region(st, base, why):
    r = mem_region(st, base)
    st.wmem()[base] = Region(("init", (why, st.fresh())), (), r.freed, r.size)

# =============================================================== engine
class Cfg:
    """what a particular analysis wants from the engine"""
    def __init__(self, **kw):
        self.opaque = set()       # normalized names of defined functions that are not entered
        self.models = {}          # normalized name -> model(eng, st, fr, args, ins) -> [(st, ret)]
        self.trace = set()        # names of inlined functions to record enter/leave events for
        self.loop_iters = 1       # extra passes after the first back edge
        self.max_steps = 3000000
        self.inits = False        # use global initializers as the current contents
        self.unroll = 70
        self.dyn = 6               # iterations of a loop that is not tested at its head, while its tests are decided
        self.unroll_mem = False   # loops controlled by concrete memory cells are unrolled, too
        self.peel = False         # analyse the first iteration of a loop separately
        self.on_load = None
        self.on_store = None
        self.on_arith = None      # (engine, state, operation, x, y, result, type) -> result
        self.unroll_all = 0         # enumerate this many iterations of every loop instead of generalising
        self.memevents = False
        self.merge = True
        self.nofollow = set()
        for k, v in kw.items():
            setattr(self, k, v)

def fconst(txt):
    """a floating-point constant in one spelling"""
    import struct
    try:
        v = struct.unpack(">d", bytes.fromhex(txt[2:].rjust(16, "0")))[0] if txt.startswith("0x") and txt[2] not in "KLMHR" else float(txt)
    except (ValueError, TypeError):
        return mk("f", txt)
    return mk("f", repr(v))

def fnum(t):
    if t.op == "c": return float(t.a[0])
    if t.op != "f": return None
    try: return float(t.a[0])
    except ValueError: return None

def fcmp(pred, a, b):
    x, y = fnum(a), fnum(b)
    if x is not None and y is not None:
        un = x != x or y != y
        base = {"oeq": x == y, "ogt": x > y, "oge": x >= y, "olt": x < y, "ole": x <= y, "one": x != y and not un, "ord": not un,
                "ueq": un or x == y, "ugt": un or x > y, "uge": un or x >= y, "ult": un or x < y, "ule": un or x <= y, "une": un or x != y, "uno": un}
        if pred in base: return c(1 if base[pred] else 0)
    return mk("fcmp", pred, a, b)

def norm(name):
    return name[len("libcperciva_"):] if name.startswith("libcperciva_") else name

class Frame:
    __slots__ = ("fn", "chain", "args", "depth", "id")
    def __init__(self, fn, chain, args):
        self.fn, self.chain, self.args = fn, chain, args

class LoopBack(Exception):
    pass

class Engine:
    def __init__(self, prog, cfg, models=None):
        self.prog, self.cfg = prog, cfg
        self.steps = 0
        self.npaths = 0
        self.ncalls = 0
        self.funcs = set()
        self.sites = set()
        from . import models as M
        self.base_models = models or M.MODELS
        self.M = M
        self.fallback_externs = set()
    # ---------------------------------------------------------- values
    def gterm(self, mod, name):
        """term for a symbol"""
        if name in mod.funcs or name in mod.decls:
            f = self.prog.lookup(name, mod)
            return fnt(f.key if f else name)
        if name in mod.globals:
            txt = mod.globals[name]
            if "internal" in txt.split("=")[0][:60] or txt.startswith(("internal", "private")):
                return glob(mod.src + ":" + name)
            return glob(name)
        return glob(name)
    def val(self, op, ty, env, fr):
        k = op[0]
        if k == "r":
            v = env.get(op[1])
            if v is None:
                raise Broken("use of undefined register %%%s in %s" % (op[1], fr.fn.name))
            return v
        if k == "i":
            n = op[1]
            return c(n)
        if k == "null" or k == "zero":
            return ZERO
        if k == "undef":
            return mk("undef")
        if k == "g":
            return self.gterm(fr.fn.mod, op[1])
        if k == "f":
            return fconst(op[1])
        if k == "gep":
            return self.gep(op[1], [(t, self.val(o, t, env, fr)) for t, o in op[2]], fr)
        if k == "cast":
            v = self.val(op[3], op[2], env, fr)
            return self.cast(None, op[1], v, fr.fn.mod.res(op[2]), fr.fn.mod.res(op[4]))
        if k == "cexpr":
            vs = [self.val(o, t, env, fr) for t, o in op[2]]
            if op[1] == "sub": return sub(vs[0], vs[1])
            if op[1] == "add": return add(vs[0], vs[1])
            return mk("cexpr", op[1], *vs)
        if k == "baddr":
            return atom("baddr", op[1], op[2], nn=True, p=True)
        if k == "agg":
            return mk("agg", *[self.val(o, t, env, fr) for t, o in op[1]])
        if k == "bytes":
            return mk("b.const", op[1])
        if k == "meta":
            return mk("meta")
        raise Broken("operand " + str(op))
    def gep(self, src, ops, fr):
        mod = fr.fn.mod
        p = ops[0][1]
        ty = src
        first = True
        for t, idx in ops[1:]:
            if first:
                p = add(p, scale(idx, mod.size(ty))); first = False
                continue
            ty = mod.res(ty)
            if ty.k == "struct":
                if idx.op != "c": raise Broken("gep struct index")
                p = addc(p, mod.layout(ty)[0][idx.a[0]]); ty = ty.e[idx.a[0]]
            else:
                p = add(p, scale(idx, mod.size(ty.e))); ty = ty.e
        return p
    def cast(self, st, op, v, t1, t2):
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            if op == "inttoptr" and v.op not in ("c", "lin"):
                v.p = True
            return v
        if op == "sext":
            if t1.k == "int" and t1.n == 1 and v.op != "c":
                return scale(v, -1)
            return v
        if op == "zext":
            if t1.k != "int": return mk("vcast", op, v)
            if v.op == "c":
                return c(v.a[0] & ((1 << t1.n) - 1))
            if t1.n == 1:
                return v
            lo, hi = st.bounds(v) if st else (-INF, INF)
            if lo >= 0:
                return v
            return mk("zx", t1.n, v)
        if op == "trunc":
            n = t2.n
            if t2.k != "int": return mk("vcast", op, v)
            if v.op == "c":
                x = v.a[0] & ((1 << n) - 1)
                if n > 1 and x >= 1 << (n - 1): x -= 1 << n
                return c(x)
            if n == 1:
                return v if isbool(v) else neg(mk("eq0", mk("umod", v, c(2))))
            if v.op == "zx" and v.a[0] <= n:
                if v.a[0] == n: return v.a[1]
                return v
            lo, hi = st.bounds(v) if st else (-INF, INF)
            if lo >= -(1 << (n - 1)) and hi < (1 << n):
                return v
            return mk("tr", n, v)
        if v.op == "f" and op in ("fpext", "fptrunc"):
            return v
        x = fnum(v)
        if x is not None and x == x and abs(x) < 2.0 ** 62:
            if op in ("fptosi", "fptoui"): return c(int(x))
            if op in ("sitofp", "uitofp") and v.op == "c": return mk("f", repr(x))
        return mk("fpc", op, v, t2.n)
    def cmp(self, st, pred, a, b, w):
        if pred in ("eq", "ne"):
            d = sub(a, b)
            if d.op == "c":
                r = c(1 if (d.a[0] == 0 or (w and d.a[0] % (1 << w) == 0)) else 0)
            else:
                # boolean compared with 0/1
                if isbool(d):
                    r = neg(d)
                elif d.op == "lin" and len(d.a[1]) == 1 and isbool(d.a[1][0][0]) and d.a[0] == -d.a[1][0][1]:
                    r = d.a[1][0][0]
                else:
                    if d.op == "lin" and d.a[1][0][1] < 0:
                        d = scale(d, -1)
                    if d.op == "zx":
                        d = d.a[1]
                    r = mk("eq0", d)
            return r if pred == "eq" else neg(r)
        if pred in ("slt", "sge", "sgt", "sle"):
            if pred in ("sgt", "sle"):
                a, b = b, a
            d = sub(a, b)
            r = c(1 if d.a[0] < 0 else 0) if d.op == "c" else mk("lt0", d)
            if pred in ("sge", "sle"):
                r = neg(r)
            return r
        if pred in ("ugt", "ule"):
            a, b = b, a
        if a.op == "c" and a.a[0] < 0: a2 = a.a[0] + (1 << w)
        else: a2 = a.a[0] if a.op == "c" else None
        if b.op == "c" and b.a[0] < 0: b2 = b.a[0] + (1 << w)
        else: b2 = b.a[0] if b.op == "c" else None
        pa = base_off(a)[0] if a2 is None and b2 is None else None
        if a2 is not None and b2 is not None:
            r = c(1 if a2 < b2 else 0)
        elif pa is not None and pa.p and pa is base_off(b)[0]:
            # two places in one object
            d = sub(a, b)
            r = c(1 if d.a[0] < 0 else 0) if d.op == "c" else mk("lt0", d)
        elif st.lb(a) >= 0 and (b2 is not None or st.lb(b) >= 0):
            bb = c(b2) if b2 is not None else b
            d = sub(a, bb)
            r = c(1 if d.a[0] < 0 else 0) if d.op == "c" else mk("lt0", d)
        elif a2 is not None and st.lb(b) >= 0:
            d = sub(c(a2), b)
            r = mk("lt0", d) if d.op != "c" else c(1 if d.a[0] < 0 else 0)
        else:
            # unsigned comparison with 0/1 is a zero test
            if b2 == 1:
                r = self.cmp(st, "eq", a, ZERO, w)
            elif a2 == 0:
                r = self.cmp(st, "ne", b, ZERO, w)
            elif b2 == 0:
                r = ZERO
            else:
                r = mk("ult", c(a2) if a2 is not None else a, c(b2) if b2 is not None else b, w)
        if pred in ("uge", "ule"):
            r = neg(r)
        return r
    def binop(self, st, op, a, b, ty):
        w = ty.n if ty.k == "int" else 0
        if ty.k != "int":
            x, y = fnum(a), fnum(b)
            if x is not None and y is not None:
                try:
                    return mk("f", repr({"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[op]()))
                except (KeyError, ZeroDivisionError, OverflowError):
                    pass
            return mk("fp", op, a, b)
        if op == "add": r = add(a, b)
        elif op == "sub": r = sub(a, b)
        elif op == "mul":
            if a.op == "c": r = scale(b, a.a[0])
            elif b.op == "c": r = scale(a, b.a[0])
            else: r = mk("mul", *sorted((a, b), key=lambda t: t.id))
        elif op == "shl" and b.op == "c" and 0 <= b.a[0] < 64:
            r = scale(a, 1 << b.a[0])
        elif op in ("lshr", "udiv") or (op in ("sdiv", "ashr") and st.lb(a) >= 0):
            if b.op != "c" or b.a[0] < 0:
                return mk(op, a, b)
            d = b.a[0] if op in ("udiv", "sdiv") else 1 << b.a[0]
            if d == 1: return a
            if a.op == "c":
                x = a.a[0] & ((1 << w) - 1)
                r = c(x // d)
            else:
                k, dd = parts(a)
                if st.lb(a) >= 0 and k % d == 0 and all(n % d == 0 for n in dd.values()):
                    r = mklin(k // d, {x: n // d for x, n in dd.items()})
                else:
                    r = mk("udiv", a, c(d))
        elif op == "urem" or (op == "srem" and st.lb(a) >= 0):
            if b.op == "c" and b.a[0] > 0:
                r = self.umod(st, a, b.a[0])
            else:
                r = mk("urem", a, b)
        elif op == "and":
            if a.op == "c" and b.op == "c":
                r = c(a.a[0] & b.a[0])
            else:
                if a.op == "c": a, b = b, a
                if isbool(a) and isbool(b) and w == 1:
                    r = mk("and", *sorted((a, b), key=lambda t: t.id))
                elif b.op == "c" and b.a[0] == 0: r = ZERO
                elif b.op == "c" and b.a[0] == -1: r = a
                elif b.op == "c" and b.a[0] > 0 and (b.a[0] & (b.a[0] + 1)) == 0:
                    r = self.umod(st, a, b.a[0] + 1)
                elif b.op == "c" and b.a[0] < 0 and ((-b.a[0]) & (-b.a[0] - 1)) == 0 and st.lb(a) >= 0:
                    m = -b.a[0]
                    r = sub(a, self.umod(st, a, m))
                else:
                    r = mk("and", *sorted((a, b), key=lambda t: t.id))
        elif op == "xor":
            if a.op == "c" and b.op == "c": r = c(a.a[0] ^ b.a[0])
            elif w == 1 and b.op == "c": r = neg(a) if b.a[0] else a
            elif w == 1 and a.op == "c": r = neg(b) if a.a[0] else b
            elif a is b: r = ZERO
            elif b is ZERO: r = a
            elif a is ZERO: r = b
            elif b.op == "c" and b.a[0] == -1: r = sub(c(-1), a)
            elif b is ONE and isbool(a): r = neg(a)
            else:
                # flattened commutative xor
                fl = {}
                for x in (a, b):
                    for y in (x.a if x.op == "xor" else (x,)):
                        fl[y] = fl.get(y, 0) ^ 1
                ys = sorted([y for y, n in fl.items() if n], key=lambda t: t.id)
                r = ZERO if not ys else ys[0] if len(ys) == 1 else mk("xor", *ys)
        elif op == "or":
            if a.op == "c" and b.op == "c": r = c(a.a[0] | b.a[0])
            elif b is ZERO or a is b: r = a
            elif a is ZERO: r = b
            else:
                fl = []
                for x in (a, b):
                    for y in (x.a if x.op == "or" else (x,)):
                        if y not in fl: fl.append(y)
                fl.sort(key=lambda t: t.id)
                r = mk("or", *fl)
        else:
            if a.op == "c" and b.op == "c" and op in ("sdiv", "srem") and b.a[0]:
                q = abs(a.a[0]) // abs(b.a[0])
                if (a.a[0] < 0) != (b.a[0] < 0): q = -q
                r = c(q) if op == "sdiv" else c(a.a[0] - q * b.a[0])
            else:
                r = mk(op, a, b)
        if r.op == "c" and w:
            x = r.a[0]
            if not (-(1 << (w - 1)) <= x < (1 << w)):
                x &= (1 << w) - 1
                if x >= 1 << (w - 1): x -= 1 << w
                r = c(x)
        return r
    def umod(self, st, a, m):
        if m == 1: return ZERO
        if a.op == "c": return c(a.a[0] % m)
        lo, hi = st.bounds(a)
        if lo >= 0 and hi < m:
            return a
        if a.op == "umod" and a.a[1].op == "c" and a.a[1].a[0] % m == 0:
            a = a.a[0]
        if a.op == "zx" and (1 << a.a[0]) % m == 0:
            a = a.a[1]
        k, d = parts(a)
        if m & (m - 1) == 0 or lo >= 0:
            a = mklin(k % m, {x: n % m if n % m <= m // 2 else n % m for x, n in d.items()})
            if a.op == "c": return c(a.a[0] % m)
        return mk("umod", a, c(m))
    # ---------------------------------------------------------- memory access
    def deref(self, st, p):
        if p.op == "fp" or p.op == "f":
            return None, ZERO
        return base_off(p)
    def region_init(self, st, base):
        """bring a global's initializer into the state when it is constant or the analysis starts from program start"""
        if base is None or base.op != "glob" or base in st.mem:
            return
        nm = base.a[0]
        got = self.global_init(nm)
        if got is None:
            return
        const, segs = got
        if const or self.cfg.inits:
            st.wmem()[base] = Region(("zero",), segs)
    def global_init(self, nm):
        cache = self.prog.__dict__.setdefault("_ginit", {})
        if nm in cache:
            return cache[nm]
        mod = None
        if ":" in nm:
            src, g = nm.rsplit(":", 1)
            mod = self.prog.mods.get(src)
        else:
            g = nm
            for m in self.prog.mods.values():
                t = m.globals.get(nm)
                if t and not t.startswith("external") and " external " not in t.split("global")[0].split("constant")[0]:
                    mod = m
                    break
        r = None
        if mod is not None and g in mod.globals:
            txt = mod.globals[g]
            import re
            m = re.search(r'\b(global|constant)\b', txt)
            if m and not txt.startswith("external"):
                const = m.group(1) == "constant"
                body = re.sub(r', ![a-zA-Z]+ ![0-9]+', '', txt[m.end():])
                p = TokP(toks(body), mod)
                ty = parse_type(p)
                v = parse_val(p, ty)
                segs = []
                class F: pass
                fr = F(); fr.fn = F(); fr.fn.mod = mod; fr.fn.name = nm
                self.init_segs(segs, 0, ty, v, mod, fr)
                r = (const, tuple(segs))
        cache[nm] = r
        return r
    def init_segs(self, segs, off, ty, v, mod, fr):
        ty = mod.res(ty)
        if v[0] == "zero" or (v[0] in ("null",)):
            segs.append((c(off), c(mod.size(ty)), ZERO if ty.k in ("int", "ptr") else mk("b.fill", ZERO, c(mod.size(ty)))))
        elif v[0] == "agg":
            if ty.k == "struct":
                offs = mod.layout(ty)[0]
                for o, (t, x) in zip(offs, v[1]):
                    self.init_segs(segs, off + o, t, x, mod, fr)
            else:
                es = mod.size(ty.e)
                if ty.e.k == "int" and len(v[1]) > 8:
                    bs = b"".join((x[1] & ((1 << (8 * es)) - 1)).to_bytes(es, "little") for t, x in v[1])
                    segs.append((c(off), c(len(bs)), mk("b.const", bs)))
                    return
                for i, (t, x) in enumerate(v[1]):
                    self.init_segs(segs, off + i * es, t, x, mod, fr)
        elif v[0] == "bytes":
            segs.append((c(off), c(len(v[1])), mk("b.const", v[1])))
        elif v[0] == "undef":
            return
        else:
            segs.append((c(off), c(mod.size(ty)), self.val(v, ty, {}, fr)))
    def load(self, st, p, ty, fr, ins):
        mod = fr.fn.mod
        ty = mod.res(ty)
        size = mod.size(ty)
        base, off = self.deref(st, p)
        if base is None or base.op in ("undef",):
            self.event(st, "mem", "nullderef", (p,), None, fr, ins)
            return mk("undef")
        r = st.mem.get(base)
        if r is None:
            self.region_init(st, base)
            r = st.mem.get(base)
        if r is not None and r.freed is not None:
            self.event(st, "mem", "use-after-free", (p,), None, fr, ins, r.freed)
        if self.cfg.memevents and self.cfg.on_load:
            self.cfg.on_load(self, st, base, off, size, fr, ins)
        if ty.k in ("int", "ptr", "fp"):
            v = mem_read(st, base, off, size, ty.k == "ptr")
            if v.op.startswith("b."):
                v = bytes_val(v, size, ty.k == "ptr")
            return v
        return mk("vec", content(st, base, off, c(size)))
    def store(self, st, p, v, ty, fr, ins):
        mod = fr.fn.mod
        ty = mod.res(ty)
        size = mod.size(ty)
        base, off = self.deref(st, p)
        if base is None:
            self.event(st, "mem", "nullderef", (p,), None, fr, ins)
            return
        r = st.mem.get(base)
        if r is None:
            self.region_init(st, base)
            r = st.mem.get(base)
        if r is not None and r.freed is not None:
            self.event(st, "mem", "use-after-free", (p,), None, fr, ins, r.freed)
        if v.op == "vec":
            v = v.a[0]
        elif ty.k == "vec":
            v = mk("b.unk", v, c(size))
        elif size < 8 and v.op == "zx" and v.a[0] == 8 * size:
            v = v.a[1]
        if self.cfg.on_store:
            self.cfg.on_store(self, st, base, off, size, v, fr, ins)
        mem_write(st, base, off, c(size), v)
    # ---------------------------------------------------------- events
    def loc(self, fr, ins):
        return fr.fn.mod.loc(ins.dbg) if ins is not None and ins.dbg is not None else (fr.fn.mod.src, 0)
    def event(self, st, kind, name, args, ret, fr, ins, x=None):
        st.cow = True
        e = Ev(kind, name, args, ret, self.loc(fr, ins) if fr else ("", 0), fr.chain if fr else (), st.mem, st.ev, x)
        e.st = st.fork()
        st.ev = e
        return e
    # ---------------------------------------------------------- calls
    def call(self, st, fr, ins, callee, args):
        """-> [(state, ret term or None)]"""
        self.ncalls += 1
        if callee[0] == "g":
            name = callee[1]
            f = self.prog.lookup(name, fr.fn.mod)
        else:
            t = st.simp(callee[1])
            f = None; name = None
            if t.op == "fn":
                key = t.a[0]
                if ":" in key:
                    src, n = key.rsplit(":", 1)
                    f = self.prog.mods[src].funcs.get(n); name = n
                else:
                    name = key; f = self.prog.lookup(key, fr.fn.mod)
            if name is None:
                m = self.cfg.models.get("*icall")
                if m:
                    return m(self, st, fr, [t] + args, ins)
                return self.M.icall(self, st, fr, t, args, ins)
        n = norm(name)
        self.sites.add((fr.fn.key, n, ins.dbg))
        m = self.cfg.models.get(n)
        if m is None and not (f is not None and n in self.cfg.nofollow):
            m = self.base_models.get(n)
        if m is not None:
            return m(self, st, fr, args, ins)
        if f is not None and n not in self.cfg.opaque and f.name not in fr.chain[-60:] and len(fr.chain) < 60:
            return self.inline(st, fr, ins, f, args)
        return self.M.default(self, st, fr, n, args, ins, f)
    def inline(self, st, fr, ins, f, args):
        n = norm(f.name)
        tr = n in self.cfg.trace
        if tr:
            self.event(st, "enter", n, tuple(args), None, fr, ins)
        ev0 = st.ev
        res = self.run(f, args, st, fr.chain if fr else ())
        if self.cfg.merge and len(res) > 1:
            res = merge_states(res, ev0)
        if tr:
            for s, r in res:
                self.event(s, "leave", n, tuple(args), r, fr, ins)
        return res
    # ---------------------------------------------------------- functions
    def run(self, f, args, st, chain=()):
        self.funcs.add(f.key)
        f._parse()
        fr = Frame(f, chain + (f.name,), args)
        env = {}
        for i, pn in enumerate(f.params):
            env[pn] = args[i] if i < len(args) else mk("undef")
        if f.vararg:
            env["..."] = tuple(args[len(f.params):])
        stk0 = st.n
        out = self.explore(fr, [(st, env, f.order[0], None, {})], None)
        # locals die
        res = []
        for s, r in out:
            res.append((s, r))
        return res
    def explore(self, fr, work, body):
        """DFS; body: restrict to a set of blocks and return the back-edge states of its header (body=(header,blocks))"""
        f = fr.fn
        loops = f.loops()
        rets = []; backs = []
        while work:
            st, env, b, prev, lc = work.pop()
            if body is not None:
                if b == body[0] and prev is not None and prev in body[1]:
                    backs.append((st, env, prev)); continue
                if b not in body[1]:
                    continue
            self.steps += 1
            if self.steps > self.cfg.max_steps:
                raise Broken("analysis budget exceeded in " + f.name)
            havoc = None
            if b in loops and not (body is not None and b == body[0] and prev is None):
                L = loops[b]
                mode = lc.get(b)
                if prev in L:
                    if mode[0] == "unroll" and self.cfg.unroll_all:
                        if mode[1] >= self.cfg.unroll_all:
                            rets.append((st, "loopback")); continue
                        lc = dict(lc); lc[b] = ("unroll", mode[1] + 1)
                    elif mode[0] == "unroll":
                        if mode[1] < self.cfg.unroll and self.header_decided(fr, st, env, b, prev, L):
                            lc = dict(lc); lc[b] = ("unroll", mode[1] + 1)
                        else:
                            mode = None
                    elif mode[0] == "dyn":
                        # tested elsewhere: as long as constants decide
                        if mode[2] and mode[1] < (self.cfg.unroll if self.header_decided(fr, st, env, b, prev, L) else self.cfg.dyn):
                            lc = dict(lc); lc[b] = ("dyn", mode[1] + 1, None)
                        else:
                            mode = None
                    elif mode[0] == "peel":
                        mode = None
                    elif mode[0] == "fix":
                        if mode[1] >= self.cfg.loop_iters:
                            self.event(st, "loopback", f.name, (), None, fr, f.blocks[prev][-1], (f.key, b))
                            rets.append((st, "loopback"))
                            continue
                        havoc = mode[2]
                        lc = dict(lc); lc[b] = ("fix", mode[1] + 1, mode[2])
                else:
                    mode = None
                    if self.cfg.unroll_all:
                        lc = dict(lc); lc[b] = ("unroll", 0)
                        mode = lc[b]
                    elif self.cfg.dyn and self.exits(f, b, L):
                        lc = dict(lc); lc[b] = ("dyn", 0, None)
                        mode = lc[b]
                    elif self.header_decided(fr, st, env, b, prev, L):
                        lc = dict(lc); lc[b] = ("unroll", 0)
                        mode = lc[b]
                    elif self.cfg.peel and body is None:
                        lc = dict(lc); lc[b] = ("peel",)
                        mode = lc[b]
                if mode is None:
                    havoc = self.fixpoint(fr, st, env, b, prev, L, lc)
                    lc = dict(lc); lc[b] = ("fix", 0, havoc)
                    self.event(st, "loop", f.name, (), None, fr, f.blocks[b][-1], (f.key, b))
            blk = f.blocks[b]
            # phis
            i = 0
            if blk[0].op == "phi" and not (body is not None and b == body[0] and prev is None):
                new = {}
                while blk[i].op == "phi":
                    I = blk[i]
                    for v, pb in I.a:
                        if pb == prev:
                            new[I.res] = self.val(v, I.ty, env, fr)
                            break
                    else:
                        raise Broken("phi without predecessor in " + f.name)
                    i += 1
                env = dict(env); env.update(new)
            elif blk[0].op == "phi":
                while blk[i].op == "phi": i += 1
                env = dict(env)
            else:
                env = dict(env)
            if havoc is not None:
                self.apply_havoc(fr, st, env, b, havoc)
            self.block(fr, st, env, b, i, lc, work, rets)
        self.last = (rets, backs)
        return backs if body is not None else rets
    def exits(self, f, b, L):
        """the branches which leave the loop, when its header's is none of them"""
        out = f.__dict__.setdefault("_exits", {})
        if b in out: return out[b]
        dead = lambda q: f.blocks[q][-1].op == "unreachable"
        leaves = lambda t: t.op == "cbr" and (t.a[1] in L) != (t.a[2] in L) and not dead(t.a[2] if t.a[1] in L else t.a[1])
        t = f.blocks[b][-1]
        r = () if leaves(t) or t.op == "switch" else tuple(f.blocks[q][-1] for q in f.order if q in L and q != b and leaves(f.blocks[q][-1]))
        out[b] = r
        return r
    def header_decided(self, fr, st, env, b, prev, L):
        """is the loop's exit test at its header decided by constants?"""
        if self.cfg.unroll <= 0:
            return False
        f = fr.fn
        blk = f.blocks[b]
        t = blk[-1]
        tests = [t]
        if t.op != "cbr" or (t.a[1] in L) == (t.a[2] in L):
            # tested elsewhere: at the end of the body, say
            tests = self.exits(f, b, L)
            if not tests: return False
        e = dict(env)
        for I in blk:
            if I.op == "phi":
                for v, pb in I.a:
                    if pb == prev:
                        e[I.res] = env[v[1]] if v[0] == "r" and v[1] in env else self.val(v, I.ty, env, fr)
        if tests[0] is t and t.a[0][0] != "r":
            return True
        # backwards slice inside the loop: pure instructions only
        defs = {I.res: I for I in blk if I.res}
        elsewhere = {}
        if tests[0] is not t:
            elsewhere = {I.res: I for q in L if q != b for I in f.blocks[q] if I.res}
            for k in elsewhere: e.pop(k, None)
            defs.update(elsewhere)
        def ev(op, ty, d=0):
            if op[0] != "r": return self.val(op, ty, e, fr)
            I = defs.get(op[1])
            if I is None or I.op == "phi":
                return e.get(op[1]) if op[1] not in elsewhere else None
            if d > 8: return None
            if I.op == "gep":
                vs = []
                for ty2, o in I.a:
                    x = ev(o, ty2, d + 1)
                    if x is None: return None
                    vs.append((ty2, x))
                return self.gep(I.ty, vs, fr)
            if I.op == "load":
                if op[1] in elsewhere: return None
                # a link of a concrete list
                k = f.mod.res(I.ty).k
                if k != "ptr" and not (self.cfg.unroll_mem and k == "int"): return None
                for J in blk:
                    if J is I: break
                    if J.op in ("call", "store") or J.op not in ("phi", "gep", "load", "icmp", "cast", "bin"): return None
                p = ev(I.a[0], None, d + 1)
                if p is None: return None
                b0, o0 = base_off(p)
                if b0 is None or b0 not in st.mem: return None
                if k == "int":
                    x = st.simp(mem_read(st, b0, o0, self.wid(I.ty) // 8, False))
                    return x if x.op == "c" else None
                x = st.simp(mem_read(st, b0, o0, 8, True))
                return x if x.op == "c" or base_off(x)[0] in st.mem else None
            if I.op == "icmp":
                x = ev(I.a[0], I.ty, d + 1); y = ev(I.a[1], I.ty, d + 1)
                if x is None or y is None: return None
                x = st.simp(x); y = st.simp(y)
                if x.p and y is ZERO and I.x in ("eq", "ne") and st.isnull(x) is False: return c(1 if I.x == "ne" else 0)
                if x.op != "c" or y.op != "c": return None
                return self.cmp(st, I.x, x, y, self.wid(I.ty))
            if I.op == "cast":
                x = ev(I.a[0], I.x[1], d + 1)
                if x is None or x.op != "c": return None
                return self.cast(st, I.x[0], x, I.x[1], I.ty)
            if I.op == "bin":
                x = ev(I.a[0], I.ty, d + 1); y = ev(I.a[1], I.ty, d + 1)
                if x is None or y is None or x.op != "c" or y.op != "c": return None
                return self.binop(st, I.x, x, y, I.ty)
            return None
        return any(r is not None and r.op == "c" for r in (ev(x.a[0], None) for x in tests if x.a[0][0] == "r"))
    def wid(self, ty):
        return ty.n if ty.k == "int" else 64
    # ---------------------------------------------------------- loops
    def fixpoint(self, fr, st, env, b, prev, L, lc):
        """set of things an iteration may change: {'phi': {name: (lo, hi)}, 'cells': {(base, off, size)}, 'regions': {base}}"""
        f = fr.fn
        blk = f.blocks[b]
        phis = [I for I in blk if I.op == "phi"]
        init = {}
        for I in phis:
            for v, pb in I.a:
                if pb == prev:
                    init[I.res] = self.val(v, I.ty, env, fr)
        mk0 = {"phi": {}, "cells": {}, "regions": set(), "freed": {}, "nonneg": {}}
        for rnd in range(12):
            s = st.fork()
            s.ev = None
            e = dict(env); e.update(init)
            self.apply_havoc(fr, s, e, b, mk0)
            start = {I.res: e[I.res] for I in phis}
            m0 = dict(s.mem)
            s0 = s.fork()
            lc2 = {k: v for k, v in lc.items() if k != b}
            lc2[b] = ("fix", 0, mk0)
            # explore only the body from the header (phis already set)
            rets_save = None
            backs = self.explore(fr, [(s, e, b, None, lc2)], (b, L))
            changed = self.loop_aux([x[0] for x in backs], mk0)
            for s2, e2, pb in backs:
                for I in phis:
                    for v, q in I.a:
                        if q == pb:
                            nv = self.val(v, I.ty, e2, fr)
                            break
                    old = start[I.res]
                    if nv is not old:
                        dif = sub(nv, old) if I.ty.k in ("int", "ptr") else None
                        cur = mk0["phi"].get(I.res)
                        up = down = False; bo = None
                        if dif is not None:
                            lo, hi = s2.bounds(dif)
                            up = lo >= 0; down = hi <= 0
                            if I.ty.k == "ptr":
                                b1, _ = base_off(nv); b2, _ = base_off(old)
                                i0, _ = base_off(init[I.res])
                                bo = i0 if (b1 is b2 or b1 is i0) else None
                        il = s2.bounds(init[I.res]) if I.ty.k == "int" else (-INF, INF)
                        nl = s2.bounds(nv) if I.ty.k == "int" else (-INF, INF)
                        new = (up or nl[0] >= il[0], down or nl[1] <= il[1], bo)
                        if I.ty.k == "int":
                            changed |= self.nonneg(mk0, ("phi", I.res), min(il[0], nl[0]))
                        if cur is None:
                            mk0["phi"][I.res] = new; changed = True
                        else:
                            m = (cur[0] and new[0], cur[1] and new[1], cur[2] if cur[2] is new[2] else None)
                            if m != cur:
                                mk0["phi"][I.res] = m; changed = True
                for base in set(s2.mem) | set(m0):
                    r1 = m0.get(base); r2 = s2.mem.get(base)
                    if r1 is r2 or base in mk0["regions"]:
                        continue
                    if r1 is None:
                        if base.op in ("heap", "stk") and base not in st.mem:
                            continue      # created during the iteration
                        r1 = mem_region(st, base)
                    if r2 is None:
                        continue
                    if r2.freed is not None and r1.freed is None:
                        if base not in mk0["freed"]:
                            mk0["freed"][base] = r2.freed
                    d1 = set(r1.segs); d2 = set(r2.segs)
                    dd = (d1 ^ d2)
                    if r1.d != r2.d:
                        mk0["regions"].add(base); changed = True
                        continue
                    for so, sz, v in dd:
                        if so.op == "c" and sz.op == "c":
                            k = (base, so, sz)
                            if sz.a[0] in (4, 8) and not mk0["cells"].get(k):
                                vi = mem_read(st, base, so, sz.a[0], False); vn = mem_read(s2, base, so, sz.a[0], False)
                                changed |= self.nonneg(mk0, ("cell",) + k, -1 if vi.op.startswith("b.") or vn.op.startswith("b.") else min(st.lb(vi), s2.lb(vn)))
                            if k not in mk0["cells"]:
                                mk0["cells"][k] = (v.p or mk0["cells"].get(k, False)) if isinstance(v, T) else False
                                changed = True
                            elif isinstance(v, T) and v.p and not mk0["cells"][k]:
                                mk0["cells"][k] = True
                        else:
                            mk0["regions"].add(base); changed = True
                            break
            if not changed:
                mk0["rel"], mk0["stride"] = self.relations(fr, mk0, phis, start, s0, backs)
                return mk0
        # give up precision: everything touched is forgotten
        mk0["nonneg"] = {}; mk0["gaveup"] = True
        for base, so, sz in list(mk0["cells"]):
            mk0["regions"].add(base)
        for I in phis:
            mk0["phi"][I.res] = (False, False, None)
        return mk0
    def loop_aux(self, backs, mk0):
        """for analyses that track more than memory: what an iteration's end adds; True when that grew"""
        return False
    def nonneg(self, mk0, k, lo):
        """keep 'positive' (2) or 'never negative' (1) as a candidate invariant of a changing scalar; True when that changed"""
        cur = mk0["nonneg"].get(k)
        lv = 2 if lo >= 1 else 1 if lo >= 0 else 0
        if cur is None or lv < cur:
            mk0["nonneg"][k] = lv
            return True
        return False
    def relations(self, fr, hv, phis, start, s0, backs):
        """changed scalars whose change per iteration is a fixed multiple of another's: {slot: (leader slot, factor)}"""
        if not backs:
            return {}, {}
        deltas = {}
        for I in phis:
            rt = fr.fn.mod.res(I.ty)
            if I.res not in hv["phi"] or rt.k not in ("int", "ptr") or (rt.k == "int" and rt.n < 32): continue
            ds = []
            for s2, e2, pb in backs:
                for v, q in I.a:
                    if q == pb:
                        ds.append(s2.simp(sub(self.val(v, I.ty, e2, fr), start[I.res])))
            deltas[("phi", I.res)] = ds
        for (base, so, sz), isp in hv["cells"].items():
            if base in hv["regions"] or sz.a[0] not in (4, 8): continue
            ds = []
            for s2, e2, pb in backs:
                ds.append(s2.simp(sub(mem_read(s2, base, so, sz.a[0], isp), mem_read(s0, base, so, sz.a[0], isp))))
            deltas[("cell", base, so, sz)] = ds
        order = sorted(deltas, key=lambda k: (not all(d.op == "c" for d in deltas[k]), max([abs(d.a[0]) if d.op == "c" else 0 for d in deltas[k]] or [0])))
        leaders = []; rel = {}
        for k in order:
            ds = deltas[k]
            for l in leaders:
                dl = deltas[l]
                f = None
                for x, y in zip(ds, dl):
                    if x.op == "c" and y.op == "c" and y.a[0] != 0 and x.a[0] % y.a[0] == 0:
                        f = x.a[0] // y.a[0]; break
                    if not (x.op == "c" and y.op == "c"):
                        f = 1 if x is y else -1 if add(x, y) is ZERO else None
                        break
                if f and all(sub(x, scale(y, f)) is ZERO for x, y in zip(ds, dl)):
                    rel[k] = (l, f)
                    break
            else:
                leaders.append(k)
        stride = {}
        for k in leaders:
            ds = [d.a[0] if d.op == "c" else None for d in deltas[k]]
            if None in ds or not any(ds): continue
            g = 0
            for d in ds: g = gcd(g, abs(d))
            if all(d >= 0 for d in ds): stride[k] = (g, 1)
            elif all(d <= 0 for d in ds): stride[k] = (g, -1)
        return rel, stride
    def apply_havoc(self, fr, st, env, b, hv):
        f = fr.fn
        if not (hv["phi"] or hv["cells"] or hv["regions"]):
            return
        n = st.fresh()
        rel = hv.get("rel")
        stride = hv.get("stride") or {}
        def stepped(k, old, what):
            """old plus any number of steps"""
            g, sg = stride[k]
            t = mk("hv", f.name, what, n)
            st.wfacts(); st.iv[t] = (0, INF)
            v = add(old, scale(t, g * sg))
            return v
        if rel:
            olds = {}
            def rd(k):
                if k[0] == "phi": return env[k[1]]
                return mem_read(st, k[1], k[2], k[3].a[0], hv["cells"].get(k[1:], False))
            for k, (l, fct) in rel.items():
                olds[k] = rd(k); olds[l] = rd(l)
        for name, (up, down, bo) in hv["phi"].items():
            old = env[name]
            ty = None
            for I in f.blocks[b]:
                if I.op == "phi" and I.res == name: ty = f.mod.res(I.ty)
            if bo is not None:
                b0, o0 = base_off(old)
                off = mk("hv", f.name, name, n)
                # element stepping keeps the base object
                if b0 is bo:
                    if ("phi", name) in stride:
                        env[name] = stepped(("phi", name), old, name)
                        continue
                    if up:
                        st.wfacts(); st.iv[off] = (max(st.lb(o0), -INF), INF)
                    env[name] = add(bo, off)
                    continue
            if ty.k == "int" and ty.n == 1:
                env[name] = neg(mk("eq0", mk("hv", f.name, name, n)))
                continue
            if ty.k == "int" and ("phi", name) in stride:
                env[name] = stepped(("phi", name), old, name)
                continue
            t = mk("hv", f.name, name, n)
            if ty.k == "ptr":
                t.p = True
            elif ty.k == "int":
                lo, hi = st.bounds(old)
                l = lo if up else -INF
                h = hi if down else INF
                if hv["nonneg"].get(("phi", name)): l = max(l, hv["nonneg"][("phi", name)] - 1)
                if (l, h) != (-INF, INF):
                    st.wfacts(); st.iv[t] = (l, h)
            env[name] = t
        for base in hv["regions"]:
            havoc_region(st, base, "loop")
        for (base, so, sz), isp in hv["cells"].items():
            if base in hv["regions"]:
                continue
            if ("cell", base, so, sz) in stride:
                mem_write(st, base, so, sz, stepped(("cell", base, so, sz), mem_read(st, base, so, sz.a[0], isp), ("c", base, so)))
            elif sz.a[0] in (1, 2, 4, 8):
                t = mk("hv", f.name, base, so, n)
                if isp: t.p = True
                elif hv["nonneg"].get(("cell", base, so, sz)):
                    st.wfacts(); st.iv[t] = (hv["nonneg"][("cell", base, so, sz)] - 1, INF)
                mem_write(st, base, so, sz, t)
            else:
                mem_write(st, base, so, sz, mk("b.unk", ("hv", f.name, base, so, n), sz))
        if rel:
            for k, (l, fct) in rel.items():
                v = add(olds[k], scale(sub(rd(l), olds[l]), fct))
                if k[0] == "phi":
                    up, down, bo = hv["phi"][k[1]]
                    t = env[k[1]]
                    lo, hi = st.bounds(t)
                    env[k[1]] = v
                    if v.op != "c" and (lo, hi) != (-INF, INF): st.setiv(v, lo, hi)
                else:
                    mem_write(st, k[1], k[2], k[3], v)
                    if hv["nonneg"].get(k): st.setiv(v, hv["nonneg"][k] - 1, INF)
    # ---------------------------------------------------------- blocks
    def block(self, fr, st, env, b, i, lc, work, rets):
        f = fr.fn
        blk = f.blocks[b]
        nb = len(blk)
        while i < nb:
            I = blk[i]
            op = I.op
            if op == "load":
                env[I.res] = self.load(st, self.val(I.a[0], None, env, fr), I.ty, fr, I)
            elif op == "store":
                self.store(st, self.val(I.a[1], None, env, fr), self.val(I.a[0], I.ty, env, fr), I.ty, fr, I)
            elif op == "gep":
                env[I.res] = self.gep(I.ty, [(t, self.val(o, t, env, fr)) for t, o in I.a], fr)
            elif op == "bin":
                x, y = self.val(I.a[0], I.ty, env, fr), self.val(I.a[1], I.ty, env, fr)
                ty = f.mod.res(I.ty)
                if I.x in ("and", "or", "xor") and isbool(x) and isbool(y):
                    # two conditions in one: decided one after the other
                    for q in (x, y):
                        if st.truth(q) is None:
                            s2 = st.fork(); e2 = dict(env)
                            if s2.assume(q, False): self.block(fr, s2, e2, b, i, lc, work, rets)
                            if not st.assume(q, True): return
                    x, y = c(1 if st.truth(x) else 0), c(1 if st.truth(y) else 0)
                env[I.res] = self.binop(st, I.x, x, y, ty)
                if self.cfg.on_arith: env[I.res] = self.cfg.on_arith(self, st, I.x, x, y, env[I.res], ty)
            elif op == "icmp":
                env[I.res] = self.cmp(st, I.x, self.val(I.a[0], I.ty, env, fr), self.val(I.a[1], I.ty, env, fr), self.wid(I.ty))
            elif op == "fcmp":
                env[I.res] = fcmp(I.x, self.val(I.a[0], I.ty, env, fr), self.val(I.a[1], I.ty, env, fr))
            elif op == "cast":
                env[I.res] = self.cast(st, I.x[0], self.val(I.a[0], I.x[1], env, fr), f.mod.res(I.x[1]), f.mod.res(I.ty))
            elif op == "copy":
                env[I.res] = self.val(I.a[0], I.ty, env, fr)
            elif op == "alloca":
                t = atom("stk", fr.chain[-1], I.res, st.fresh(), p=True, nn=True)
                env[I.res] = t
                n = self.val(I.a[0], None, env, fr)
                st.wmem()[t] = Region(("undef",), (), None, scale(n, f.mod.size(I.ty)))
            elif op == "select":
                cnd = self.val(I.a[0], None, env, fr)
                r = st.truth(cnd)
                if r is None:
                    s2 = st.fork(); e2 = dict(env)
                    if s2.assume(cnd, False):
                        e2[I.res] = self.val(I.a[2], I.ty, env, fr)
                        self.block(fr, s2, e2, b, i + 1, lc, work, rets)
                    if not st.assume(cnd, True):
                        return
                    r = True
                env[I.res] = self.val(I.a[1 if r else 2], I.ty, env, fr)
            elif op == "call":
                args = [self.val(o, t, env, fr) for t, o in I.a]
                callee = I.x if I.x[0] == "g" else ("t", self.val(I.x, None, env, fr))
                if callee[0] == "g" and callee[1].startswith("llvm."):
                    k = ".".join(callee[1].split(".")[:2])
                    if k in self.cfg.models: r = self.cfg.models[k](self, st, fr, args, I)[0][1]
                    else: r = self.M.intrinsic(self, st, fr, callee[1], args, I)
                    if I.res: env[I.res] = r
                    i += 1
                    continue
                res = self.call(st, fr, I, callee, args)
                conts = []
                for s, r in res:
                    if isinstance(r, str):           # ended inside: exit, loopback ...
                        rets.append((s, r))
                    else:
                        conts.append((s, r))
                if not conts:
                    return
                for s, r in conts[1:]:
                    e2 = dict(env)
                    if I.res: e2[I.res] = r if r is not None else mk("undef")
                    self.block(fr, s, e2, b, i + 1, lc, work, rets)
                st, r = conts[0]
                if I.res: env[I.res] = r if r is not None else mk("undef")
            elif op == "ret":
                v = self.val(I.a[0], I.ty, env, fr) if I.a else None
                rets.append((st, v))
                self.npaths += 1
                return
            elif op == "br":
                work.append((st, env, I.a[0], b, lc))
                return
            elif op == "cbr":
                cnd = self.val(I.a[0], None, env, fr)
                r = st.truth(cnd)
                if I.a[1] == I.a[2]:
                    work.append((st, env, I.a[1], b, lc)); return
                if r is not None:
                    for h, m in lc.items():
                        if m[0] == "dyn" and m[2] is None and I in self.exits(fr.fn, h, fr.fn.loops()[h]):
                            lc = dict(lc); lc[h] = ("dyn", m[1], True)
                            break
                    work.append((st, env, I.a[1] if r else I.a[2], b, lc))
                    return
                for h, m in lc.items():
                    if m[0] == "dyn" and m[2] is not False and I in self.exits(fr.fn, h, fr.fn.loops()[h]):
                        lc = dict(lc); lc[h] = ("dyn", m[1], False)
                        break
                s2 = st.fork()
                if s2.assume(cnd, False):
                    s2.path = (fr.fn.name, I.dbg, fr.fn.mod, False, s2.path)
                    work.append((s2, dict(env), I.a[2], b, lc))
                if st.assume(cnd, True):
                    st.path = (fr.fn.name, I.dbg, fr.fn.mod, True, st.path)
                    work.append((st, env, I.a[1], b, lc))
                return
            elif op == "switch":
                v = self.val(I.a[0], I.ty, env, fr)
                w = self.wid(I.ty)
                if v.op == "c":
                    tgt = I.a[1]
                    for cc, lab in I.a[2]:
                        if (cc[1] - v.a[0]) % (1 << w) == 0:
                            tgt = lab; break
                    work.append((st, env, tgt, b, lc))
                    return
                for cc, lab in I.a[2]:
                    s2 = st.fork()
                    if s2.assume(self.cmp(s2, "eq", v, c(cc[1]), w), True):
                        s2.path = (fr.fn.name, I.dbg, fr.fn.mod, cc[1], s2.path)
                        work.append((s2, dict(env), lab, b, lc))
                    if not st.assume(self.cmp(st, "eq", v, c(cc[1]), w), False):
                        return
                st.path = (fr.fn.name, I.dbg, fr.fn.mod, "default", st.path)
                work.append((st, env, I.a[1], b, lc))
                return
            elif op == "ibr":
                v = self.val(I.a[0], None, env, fr)
                if v.op == "baddr":
                    work.append((st, env, v.a[1], b, lc))
                else:
                    for lab in I.a[1]:
                        work.append((st.fork(), dict(env), lab, b, lc))
                return
            elif op == "unreachable":
                rets.append((st, "unreachable"))
                return
            elif op in ("asm", "other"):
                ops = [self.val(o, None, env, fr) for o in I.a]
                if op == "asm" and getattr(self.cfg, "on_asm", None):
                    env[I.res or "_"] = self.cfg.on_asm(self, st, fr, I, ops)
                    i += 1; continue
                if op == "other" and I.x.startswith("extractvalue") and len(ops) == 1 and isinstance(ops[0], tuple):
                    env[I.res] = ops[0][int(I.x.split()[-1])]
                    i += 1; continue
                if I.res:
                    env[I.res] = mk("x", op, I.x.split()[0] if I.x else "", f.key, I.dbg or 0, st.fresh(), *ops)
                if op == "asm":
                    self.event(st, "asm", "asm", tuple(ops), env.get(I.res), fr, I, I.x)
            else:
                raise Broken("instruction " + op)
            i += 1

def merge_states(res, ev0):
    """join states that a call left with the same result, memory and events"""
    groups = {}
    out = []
    for s, r in res:
        if isinstance(r, str):
            out.append((s, r)); continue
        sig = (id(r) if r is not None else 0, id(s.ev), tuple(sorted((b.id, id(rg)) for b, rg in s.mem.items() if b.op != "stk")),
               tuple(sorted((k, id(v)) for k, v in s.aux.items())))
        groups.setdefault(sig, []).append((s, r))
    for g in groups.values():
        s, r = g[0]
        for s2, _ in g[1:]:
            s.wfacts()
            s.iv = {k: (min(v[0], s2.iv[k][0]), max(v[1], s2.iv[k][1])) for k, v in s.iv.items() if k in s2.iv}
            s.uv = {k: (min(v[0], s2.uv[k][0]), max(v[1], s2.uv[k][1])) for k, v in s.uv.items() if k in s2.uv}
            s.ne = {k: v & s2.ne[k] for k, v in s.ne.items() if k in s2.ne}
            s.bf = {k: v for k, v in s.bf.items() if k in s2.bf and s2.bf[k] == v}
            s.n = max(s.n, s2.n)
        out.append((s, r))
    return out

def record_store(pred):
    """an on_store hook that records stores to the regions pred selects"""
    def f(e, st, base, off, size, v, fr, ins):
        if pred(base):
            e.event(st, "store", "store", (add(base, off), size if isinstance(size, T) else c(size), v), None, fr, ins)
    return f

def path_desc(st, limit=40):
    out = []
    p = st.path
    while p is not None and len(out) < limit:
        fn, dbg, mod, v, p = p
        f, l = mod.loc(dbg)
        out.append("%s:%s %s branch %s" % (f, l, fn, v))
    out.reverse()
    return out
