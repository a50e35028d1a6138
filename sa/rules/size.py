"""Sizes: C33.  64-bit arithmetic is exact in the analysis only where it cannot wrap; everything else becomes an opaque wrapped value,
and no allocation or copy may depend on one.  Growing containers are checked over histories of operations of any size."""
from .common import *
from .. import models as M
from ..machine import *
from ..absint import Region, content, norm as fnorm
from ..terms import parts
from ..absint import INF

OBJ = 2 ** 63 - 1           # no object is larger
U64 = 2 ** 64 - 1

def prod(x, y):
    if x.op == "c": return scale(y, x.a[0])
    if y.op == "c": return scale(x, y.a[0])
    return mk("mul", *sorted((x, y), key=lambda t: t.id))

def false(st, b): return st.bf.get(b) is False
def true(st, b): return st.bf.get(b) is True

def lower(st, D, depth=3):
    """the greatest lower bound of a linear term that a few additions of known facts give"""
    D = D if D.op == "lin" or D.op == "c" else D
    r = st.lb(D)
    if r >= 0 or depth == 0 or D.op == "c": return r
    k, d = parts(D)
    for K, (lo, hi) in list(st.iv.items()):
        kk, kd = parts(K)
        if not any(a in d for a in kd): continue
        for sg, b in ((1, lo), (-1, -hi)):
            if abs(b) == INF: continue
            # D = sg*K + rest, K's part being at least b
            ms = {d[a] // (sg * kd[a]) for a in kd if a in d and (d[a] > 0) == (sg * kd[a] > 0) and d[a] % kd[a] == 0}
            for m in ms:
                rest = sub(D, scale(K, sg * m))
                if len(parts(rest)[1]) > len(d): continue
                r = max(r, b * m + lower(st, rest, depth - 1))
            if r >= 0: return r
    return r

def upper(st, x):
    """the largest unsigned value, using what is known about differences"""
    return min(st.ubounds(x, 64)[1], -lower(st, scale(x, -1), 2))

def zero(st, t):
    if st.iszero(t) is True: return True
    if t.op == "mul": 
        if any(zero(st, x) for x in t.a): return True
    return st.lb(t) >= 0 and lower(st, scale(t, -1)) >= 0 or lower(st, t) >= 0 and lower(st, scale(t, -1)) >= 0

def le(st, x, y, depth=3):
    """x <= y as unsigned 64-bit numbers, provably"""
    if x is y or st.lb(x) >= 0 and st.lb(y) >= 0 and lower(st, sub(y, x)) >= 0 or zero(st, x): return True
    x, y = st.simp(x), st.simp(y)
    if x is y or x is ZERO: return True
    if st.lb(x) >= 0 and st.lb(y) >= 0 and lower(st, sub(y, x)) >= 0: return True
    if st.ubounds(x, 64)[1] <= st.ubounds(y, 64)[0]: return True
    if false(st, mk("ult", y, x, 64)) or true(st, mk("ult", x, y, 64)): return True
    if depth:
        for b, v in list(st.bf.items()):
            if b.op != "ult": continue
            if v is False and b.a[0] is y and le(st, x, b.a[1], 0): return True
            if v is True and b.a[1] is y and le(st, x, b.a[0], 0): return True
        # what a value was found equal to
        for b, v in list(st.bf.items()):
            if v is False and b.op == "ult" and le(st, x, b.a[1], 0) and le(st, b.a[0], y, 0): return True
    return False

def contains(t, pred, seen=None):
    if isinstance(t, tuple): return any(contains(x, pred) for x in t)
    if not isinstance(t, T): return False
    return bool(pred(t)) or any(contains(x, pred) for x in t.a)

def safe(st, op, x, y, w):
    """the operation cannot wrap"""
    MAX = 2 ** w - 1
    xl, xh = st.ubounds(x, w); yl, yh = st.ubounds(y, w)
    if xh > OBJ: xh = min(xh, upper(st, x))
    if yh > OBJ: yh = min(yh, upper(st, y))
    if op == "add":
        # one negative constant is a subtraction
        if y.op == "c" and y.a[0] < 0: return -y.a[0] <= xl
        if x.op == "c" and x.a[0] < 0: return -x.a[0] <= yl
        return xh + yh <= MAX or le(st, x, sub(c(-1), y)) or le(st, y, sub(c(-1), x))
    if op == "sub":
        if x.op == "c" and x.a[0] == -1: return True
        return le(st, y, x)
    if op == "mul":
        if xh * yh <= MAX: return True
        for p, q in ((x, y), (y, x)):
            if p.op == "c" and st.lb(q) >= 0 and -lower(st, scale(q, -p.a[0]), 2) <= MAX: return True
        return any(le(st, p, mk("udiv", c(-1), q)) for p, q in ((x, y), (y, x)))
    if op == "shl":
        return y.op == "c" and xh << y.a[0] <= MAX
    return True

def exact(st, t):
    """a wrapped value that was checked afterwards is exact"""
    if not isinstance(t, T): return t
    r = exact1(st, t)
    if t.op == "wrap" and r is not t:
        if st.lb(r) < 0: st.setiv(r, 0, U64)
        st.assume(mk("eq0", sub(t, r)), True)
    return r

def exact1(st, t):
    if t.op == "wrap":
        r, op, x, y = t.a
        if op == "add" and (le(st, x, t) or le(st, y, t)): return r
        if op == "mul":
            for p, q in ((x, y), (y, x)):
                if q.op == "c" and q.a[0] and st.iszero(sub(mk("udiv", t, q), p)) is True: return r
                if st.iszero(sub(mk("udiv", t, q), p)) is True: return r
        if op == "sub" and le(st, y, x): return r
        if safe(st, op, x, y, 64): return r
        return t
    if t.op == "lin":
        k, d = parts(t); r = c(k)
        for a, n in d.items(): r = add(r, scale(exact(st, a), n))
        return st.simp(r)
    return t

class Arith:
    def __init__(self): self.n = 0
    def __call__(self, e, st, op, x, y, r, ty):
        if ty.k != "int" or ty.n != 64 or op not in ("add", "sub", "mul", "shl"): return r
        if r.op == "c" or x.p or y.p: return r
        self.n += 1
        if safe(st, op, x, y, ty.n):
            if r.op in ("mul",) and r not in st.iv:
                st.wfacts(); st.iv[r] = (max(0, st.ubounds(x, 64)[0] * st.ubounds(y, 64)[0]), U64)
            return r
        if op in ("add", "mul"): x, y = sorted((x, y), key=lambda t: t.id)
        w = mk("wrap", r, op, x, y)
        if w not in st.iv:
            st.wfacts(); st.iv[w] = (0, U64)
        return exact(st, w)

def feasible(st):
    """products of positive numbers are positive"""
    for t in list(st.iv):
        if t.op != "mul": continue
        p = 1
        for x in t.a: p *= max(st.lb(x), 0)
        if p > 0 and (st.ub(t) < p or not st.setiv(t, p, INF)): return False
    for K, (lo, hi) in list(st.iv.items()):
        if K.op == "lin" and hi != INF and lower(st, K, 2) > hi: return False
        if K.op == "mul" and st.ub(K) != INF and lower(st, K, 2) > st.ub(K): return False
        if K.op == "lin" and lo != -INF and lower(st, scale(K, -1), 2) > -lo: return False
    return True

def wrapped(t): return contains(t, lambda x: x.op == "wrap")
def lossy1(x):
    if x.op not in ("tr", "zx") or x.a[0] < 8: return False
    y = x.a[-1]     # widening a field which has no more bits than that loses nothing
    return not (x.op == "zx" and isinstance(y, T) and y.op == "ld" and cv(y.a[3]) and cv(y.a[3]) * 8 <= x.a[0])
def lossy(t): return contains(t, lossy1)

class Sizes:
    """leaf models and the rules at allocations and stores"""
    def __init__(self, R, what):
        self.R, self.what = R, what
        self.ar = Arith()
        self.n = {"allocs": 0, "stores": 0}
    def at(self, e, fr, ins):
        f, l = e.loc(fr, ins); i = f.find("/repo/")
        return "%s: %s:%s" % (self.what, f[i + 6:] if i >= 0 else f, l)
    def alloc(self, e, st, fr, ins, z):
        z = exact(st, st.simp(z))
        self.n["allocs"] += 1
        self.R.ok(not wrapped(z), "size-computation-checked", self.at(e, fr, ins), "allocates %s bytes, a computation which can wrap around" % show(z), st)
        self.R.ok(not lossy(z), "size-not-truncated", self.at(e, fr, ins), "allocates %s bytes, a truncated size" % show(z), st)
        return z
    def lim(self, st, z): return st.setiv(z, 0, OBJ) is not False
    def malloc(self, e, st, fr, a, ins):
        z = self.alloc(e, st, fr, ins, a[0])
        s2 = st.fork(); e.event(s2, "call", "malloc", (z,), ZERO, fr, ins); M.set_errno(s2, "malloc")
        if not self.lim(st, z): return [(s2, ZERO)]
        t = M.new_heap(e, st, fr, ins, "malloc", z, False); st.assume(mk("eq0", t), False)
        e.event(st, "call", "malloc", (z,), t, fr, ins)
        return [(st, t), (s2, ZERO)]
    def calloc(self, e, st, fr, a, ins):
        z = self.alloc(e, st, fr, ins, prod(st.simp(a[0]), st.simp(a[1])))
        s2 = st.fork(); e.event(s2, "call", "malloc", (z,), ZERO, fr, ins); M.set_errno(s2, "calloc")
        if not self.lim(st, z): return [(s2, ZERO)]
        t = M.new_heap(e, st, fr, ins, "calloc", z, True); st.assume(mk("eq0", t), False)
        e.event(st, "call", "malloc", (z,), t, fr, ins)
        return [(st, t), (s2, ZERO)]
    def realloc(self, e, st, fr, a, ins):
        z = self.alloc(e, st, fr, ins, a[1])
        p = st.simp(a[0])
        s2 = st.fork(); e.event(s2, "call", "realloc", (p, z), ZERO, fr, ins); M.set_errno(s2, "realloc")
        if not self.lim(st, z): return [(s2, ZERO)]
        nul = st.isnull(p)
        out = [(s2, ZERO)]
        b = base_off(p)[0]
        if nul is not False:
            s3 = st.fork()
            if nul is True or s3.assume(mk("eq0", p), True) is not False:
                t = M.new_heap(e, s3, fr, ins, "realloc", z, False); s3.assume(mk("eq0", t), False)
                e.event(s3, "call", "realloc", (p, z), t, fr, ins); out.append((s3, t))
        if nul is not True and st.assume(mk("eq0", p), False) is not False:
            t = M.new_heap(e, st, fr, ins, "realloc", z, False); st.assume(mk("eq0", t), False)
            ev = e.event(st, "call", "realloc", (p, z), t, fr, ins)
            if b is not None:
                r = mem_region(st, b)
                if r.freed is not None: e.event(st, "mem", "double-free", (p,), None, fr, ins, r.freed)
                st.wmem()[t] = Region(("init", ("realloc", b.id)), r.segs, None, z)
                st.wmem()[b] = Region(r.d, r.segs, ev, r.size)
            out.append((st, t))
        return out
    def on_store(self, e, st, b, off, size, v, fr, ins):
        if b is None or b.op not in ("heap", "obj"): return
        r = st.mem.get(b)
        if r is None or r.size is None: return
        self.n["stores"] += 1
        z = size if isinstance(size, T) else c(size)
        off = exact(st, st.simp(off)); z = exact(st, st.simp(z))
        end = add(off, z)
        good = not wrapped(end) and (le(st, end, exact(st, r.size)))
        self.R.ok(good, "write-within-allocation", self.at(e, fr, ins), "writes %s bytes at %s into %s of %s bytes" % (show(z), show(off), show(b), show(r.size)), st)
    def on_load(self, e, st, b, off, size, fr, ins):
        # what is read exists, so its place within its object is bounded
        if off.op != "c" and isinstance(off, T): st.setiv(off, 0, OBJ)
    def kw(self):
        return dict(models={"malloc": self.malloc, "calloc": self.calloc, "realloc": self.realloc, "imalloc": None}, on_arith=self.ar, on_store=self.on_store, on_load=self.on_load,
                    memevents=True, merge=False)
    def run(self, f, args, st, check=True, **kw):
        k = self.kw(); k.update(kw)
        k.pop("models")
        m = {"malloc": self.malloc, "calloc": self.calloc, "realloc": self.realloc}
        m.update(kw.get("models") or {})
        cfg = Cfg(models=m, **k)
        for n in ("imalloc", fnorm(f.name)): cfg.models.pop(n, None)
        for n in [n for n in cfg.models if n.startswith(("elasticarray_", "ptrheap_", "mpool_"))]:
            if n in self.follow: cfg.models.pop(n)
        e = Engine(self.R.prog, cfg)
        res = e.run(f, list(args), st)
        self.R.used(e)
        for s, r in res if self.asserts else ():
            ev = s.evlist()
            if r == "unreachable" and ev and ev[-1].name == "__assert_fail" and feasible(s):
                self.R.ok(False, "no-assertion-failure", self.what + " " + locs(ev[-1]), "an assertion fails", s)
        return [(s, r) for s, r in res if r != "unreachable" and (not check or feasible(s))]
    follow = ()
    asserts = True

class EA(Sizes):
    follow = ("elasticarray_init", "elasticarray_resize", "elasticarray_append", "elasticarray_shrink", "elasticarray_truncate", "elasticarray_getsize", "elasticarray_get",
              "elasticarray_free", "elasticarray_export", "elasticarray_exportdup")

def names(R, *ns):
    return {n: R.prog.need(n) for n in ns}

def size_t(st, name, lo=0):
    t = atom("param", name + str(st.fresh())); st.wfacts(); st.iv[t] = (0, U64) if not lo else (lo, U64)
    return t

def C33_array(R):
    X = EA(R, "element array")
    F = names(R, *EA.follow)
    l = atom("param", "reclen"); st = State(); st.iv[l] = (1, U64)
    def one(name, s, *a):
        res = X.run(F[name], a, s.fork(), check=False)
        if len(res) != 1 or isinstance(res[0][1], str): raise Broken("%s has %d outcomes" % (name, len(res)))
        return res[0]
    def view(s, h):
        s1, n = one("elasticarray_getsize", s, h, ONE)
        s2, p = one("elasticarray_get", s, h, ZERO, ONE)
        return exact(s, s.simp(n)), s.simp(p)
    n = {"states": 0, "failed": 0}
    def inv(s, h, at, want):
        n["states"] += 1
        S, p = view(s, h)
        w = [x for x in want if s.iszero(sub(S, x)) is True or zero(s, S) and zero(s, x)]
        R.ok(bool(w), "size-recorded", at, "holds %s bytes instead of %s" % (show(S), " or ".join(show(x) for x in want)), s)
        R.ok(not wrapped(S), "size-recorded", at, "its size %s is a computation which can wrap around" % show(S), s)
        if zero(s, S): return S, p
        if not R.ok(s.isnull(p) is False or s.isnull(p) is None and base_off(p)[0] is not None, "array-has-memory", at, "has no memory for %s bytes" % show(S), s): return S, p
        b, o = base_off(p)
        r = mem_region(s, b)
        R.ok(r.freed is None, "contents-stay-valid", at, "its memory has been freed", s)
        R.ok(o is ZERO and r.size is not None and le(s, S, exact(s, r.size)), "array-fits-memory", at, "holds %s bytes in memory of %s" % (show(S), show(r.size)), s)
        return S, p
    live = []
    n0 = size_t(st, "nrec")
    for s, h in X.run(F["elasticarray_init"], [n0, l], st.fork()):
        h = s.simp(h)
        if isinstance(h, str): continue
        if s.isnull(h) is True: n["failed"] += 1; continue
        inv(s, h, "elasticarray_init", (prod(n0, l),))
        live.append((s, h, ("init",)))
    R.need(len(live), "arrays-created", 1)
    depth = 3 if R.tier == "thorough" else 2
    for d in range(depth):
        nxt = []
        for s0, h, tr in live:
            S0, p0 = view(s0, h)
            for name in ("elasticarray_resize", "elasticarray_append", "elasticarray_shrink", "elasticarray_truncate"):
                s = s0.fork()
                at = "element array: " + " > ".join(tr + (name,))
                k = size_t(s, "n")
                args = {"elasticarray_append": [h, atom("param", "buf", p=True, nn=True), k, l], "elasticarray_truncate": [h]}.get(name, [h, k, l])
                m = prod(k, l)
                for t, r in X.run(F[name], args, s):
                    if isinstance(r, str): 
                        R.ok(False, "operations-return", at, "ends in %s" % r, t); continue
                    for x in memfaults(t.evlist()): R.ok(False, "array-no-memory-fault", at, "%s" % x.name, t)
                    r = t.simp(r) if isinstance(r, T) else None
                    if name == "elasticarray_shrink":
                        S = inv(t, h, at, (sub(S0, m), ZERO))[0]
                        if not zero(t, S): R.ok(le(t, m, S0), "shrink-amount", at, "removes %s of %s bytes" % (show(m), show(S0)), t)
                        ok = True
                    else:
                        z = t.iszero(r)
                        if z is None: R.ok(False, "operations-return", at, "result undetermined", t); continue
                        ok = z is True
                        if ok: inv(t, h, at, ({"elasticarray_resize": m, "elasticarray_append": add(S0, m)}.get(name, S0),))
                        else:
                            n["failed"] += 1
                            S, p = inv(t, h, at, (S0,))
                            R.ok(t.iszero(sub(p, p0)) is True, "failure-changes-nothing", at, "a failed operation moves the contents", t)
                    if ok and d + 1 < depth: nxt.append((t, h, tr + (name + ("" if ok else "[failed]"),)))
            for name in ("elasticarray_export", "elasticarray_exportdup"):
                s = s0.fork(); at = "element array: " + " > ".join(tr + (name,))
                o1, o2 = (atom("stk", "out", k, s.fresh(), p=True, nn=True) for k in "bn")
                for x in (o1, o2): s.wmem()[x] = Region(("undef",), (), None, c(8))
                for t, r in X.run(F[name], [h, o1, o2, l], s):
                    if isinstance(r, str) or t.iszero(t.simp(r)) is not True: continue
                    p = t.simp(mem_read(t, o1, ZERO, 8, True)); q = t.simp(mem_read(t, o2, ZERO, 8, False))
                    b = base_off(p)[0]
                    if t.iszero(S0) is True or b is None: continue
                    rg = mem_region(t, b)
                    R.ok(rg.freed is None and rg.size is not None and le(t, S0, exact(t, rg.size)), "export-holds-all", at, "exports %s bytes in memory of %s" % (show(S0), show(rg.size)), t)
        # the same kind of state is not continued twice
        seen = {}
        for x in nxt: seen.setdefault((x[2], x[0].iszero(view(x[0], x[1])[0])), x)
        live = list(seen.values()) if R.tier != "thorough" else (list(seen.values()) + [x for x in nxt if not any(x is y for y in seen.values())])[:40]
    R.need(n["states"], "array-states", 20); R.need(n["failed"], "array-failures", 5); R.need(X.n["allocs"], "array-allocations", 3); R.need(X.n["stores"], "array-stores", 5)

class Poll(Sizes):
    follow = tuple(EA.follow) + ("events_network_register", "events_network_cancel", "mpool_malloc", "mpool_free")

def gcells(st, ptr=False):
    """what the program's own variables hold: {(variable, offset): value}"""
    out = {}
    for b, r in st.mem.items():
        if b.op != "glob": continue
        for o, z, v in r.segs:
            if isinstance(v, T) and z is c(8) and not v.op.startswith("b."): out[(b, o)] = st.simp(v)
    return out

def nothing(e, st, fr, a, ins): return [(st, None)]

def C33_poll(R):
    """the table of descriptors handed to poll: growing it step by step, and once from any size"""
    X = Poll(R, "poll table")
    F = R.prog.need("events_network_register")
    from . import netio, evloop, start
    mods = dict(netio.MPOOL); mods.update({n: nothing for n in evloop.STATS}); mods["atexit"] = start.outcome("atexit", (0, 0))
    mods.update({"malloc": X.malloc, "realloc": X.realloc, "calloc": X.calloc})
    def heaped(e, st, fr, a, ins):
        t = M.new_heap(e, st, fr, ins, "mpool_malloc", None, False); st.assume(mk("eq0", t), False)
        e.event(st, "call", "mpool_malloc", tuple(a), t, fr, ins)
        return [(st, t)]
    mods["mpool_malloc"] = heaped
    fn, ck = atom("param", "handler", p=True, nn=True), atom("param", "cookie", p=True)
    def register(s, fd):
        return X.run(F, [fn, ck, c(fd), ZERO], s, models=mods, inits=True, unroll_all=0, unroll=400, unroll_mem=True)
    st = State(); ok = []
    grown = 0; first = None; last = None
    top = 140 if R.tier == "thorough" else 40
    for fd in range(top):
        before = gcells(st); ok = []
        for t, r in register(st.fork(), fd):
            at = "poll table: %d descriptors" % (fd + 1)
            if isinstance(r, str): R.ok(False, "operations-return", at, "ends in %s" % r, t); continue
            for x in memfaults(t.evlist()): R.ok(False, "table-no-memory-fault", at, "%s" % x.name, t)
            if t.iszero(t.simp(r)) is True: ok.append(t); continue
            grown += 1
            for k, v in gcells(t).items():
                b = base_off(v)[0]
                if b is not None and b.op == "heap" and b in t.mem:
                    R.ok(t.mem[b].freed is None, "contents-stay-valid", at, "after a failed growth %s points to freed memory" % k[0], t)
                    if before.get(k) is not v and b.a[0] == "realloc" and k in before and before[k] is not ZERO: R.ok(False, "failure-changes-nothing", at, "a failed growth changes %s" % k[0], t)
        if len(ok) != 1: raise Broken("registering a descriptor succeeds in %d ways" % len(ok))
        st = ok[0]; st.ev = None
        if fd == 0: first = st.fork()
        if fd == 1: second = st.fork()
    R.need(grown, "growth-failures", 3)
    # from any size: which variables describe the table
    a, b = gcells(first), gcells(second)
    cnt = [k for k in a if a[k] is ONE and b.get(k) is c(2)]
    if len(cnt) > 1:
        for t, r in X.run(R.prog.need("events_network_cancel"), [ZERO, ZERO], first.fork(), models=mods, inits=True, unroll=400, unroll_mem=True):
            g = gcells(t)
            if t.iszero(t.simp(r)) is True: cnt = [k for k in cnt if g.get(k) is ZERO]
    tab = [k for k in a if base_off(a[k])[0] is not None and base_off(a[k])[0].op == "heap" and mem_region(first, base_off(a[k])[0]).size is not None and base_off(a[k])[0].a[0] == "realloc"]
    tab = [k for k in tab if cv(mem_region(first, base_off(a[k])[0]).size)]
    cap = [(k, q) for k in a for q in tab if a[k].op == "c" and a[k].a[0] > 1 and cv(mem_region(first, base_off(a[q])[0]).size) == 8 * a[k].a[0]]
    if len(cnt) == 1 and len(cap) == 1:
        (ka, kt), kn = cap[0], cnt[0]
        for full in (True, False):
            s = first.fork()
            A, N = atom("param", "room"), atom("param", "used")
            s.wfacts(); s.iv[A] = (1, OBJ // 8); s.iv[N] = (1, OBJ // 8)
            if full: N = A
            else: s.assume(mk("lt0", sub(N, A)), True)
            mem_write(s, kn[0], kn[1], c(8), N); mem_write(s, ka[0], ka[1], c(8), A)
            tb = base_off(a[kt])[0]; r = s.mem[tb]
            s.wmem()[tb] = Region(("init", 0), (), None, scale(A, 8))
            n = 0
            for t, r in register(s, 5):
                at = "poll table of any size, " + ("full" if full else "not full")
                if isinstance(r, str): R.ok(False, "operations-return", at, "ends in %s" % r, t); continue
                g = gcells(t); z = t.iszero(t.simp(r)); p = base_off(g[kt])[0]
                rg = mem_region(t, p)
                R.ok(rg.freed is None, "contents-stay-valid", at, "the table is freed memory", t)
                R.ok(rg.size is not None and le(t, scale(exact(t, g[ka]), 8), exact(t, rg.size)), "table-fits-memory", at, "room for %s entries in %s bytes" % (show(g[ka]), show(rg.size)), t)
                if z is True:
                    n += 1
                    R.ok(t.iszero(sub(g[kn], addc(N, 1))) is True and le(t, g[kn], exact(t, g[ka])), "table-fits-memory", at, "%s entries of %s" % (show(g[kn]), show(g[ka])), t)
                else:
                    R.ok(g[kt] is a[kt] and t.iszero(sub(g[kn], N)) is True and t.iszero(sub(g[ka], A)) is True, "failure-changes-nothing", at, "a failed growth changes the table", t)
            if not R.viol: R.need(n, "table-growths", 1)
    else:
        R.notes.append("the table's variables were not told apart; growth from any size not analysed (counts %s, capacities %s)" % (cnt, cap))
    R.need(X.n["stores"], "table-stores", 10)

class Pool(Sizes):
    follow = ("mpool_malloc", "mpool_free")

def C33_pool(R):
    """caches of free objects: from any size"""
    done = 0
    for f in R.prog.defining("mpool_free"):
        X = Pool(R, "object pool in %s" % f.mod.src)
        e0 = Engine(R.prog, Cfg(inits=True))
        rec = None
        for g in f.mod.globals:
            nm = f.mod.src + ":" + g
            got = e0.global_init(nm)
            if not got: continue
            cells = {}
            for o, z, v in got[1]:
                if isinstance(v, T): cells[cv(o)] = (cv(z), v)
            ptr = [o for o, (z, v) in cells.items() if z == 8 and base_off(v)[0] is not None and base_off(v)[0].op == "glob" and not R.prog.lookup(base_off(v)[0].a[0])]
            same = [(a, b) for a in ptr for b in ptr if a < b and cells[a][1] is cells[b][1]]
            if len(same) == 1: rec = (nm, cells, same[0]); break
        if rec is None: continue
        nm, cells, two = rec
        P = glob(nm); p = atom("param", "object", p=True, nn=True)
        big = [o for o, (z, v) in cells.items() if z == 8 and v.op == "c" and v.a[0] > 1]
        if len(big) != 1: continue
        size0 = cells[big[0]][1]
        # which variable counts what is kept
        s = State(); out = X.run(f, [P, p], s.fork(), inits=True)
        cnt = {cv(o) for t, r in out for o, z, v in mem_region(t, P).segs if z is c(8) and v is ONE} if len(out) == 1 else ()
        if len(cnt) != 1: continue
        kl, ka = list(cnt)[0], big[0]
        def state(A, L, arr, kp, other):
            s = State()
            e0.region_init(s, P)
            for o, (z, v) in cells.items():
                if z == 8 and v is ZERO and o != kl:
                    x = atom("param", "stat%d" % o); s.wfacts(); s.iv[x] = (0, U64); mem_write(s, P, c(o), c(8), x)
            s.wfacts()
            if A.op != "c": s.iv[A] = (1, OBJ // 8)
            if L.op != "c" and L is not A: s.iv[L] = (0, OBJ // 8); s.assume(mk("lt0", sub(L, A)), True)
            mem_write(s, P, c(ka), c(8), A); mem_write(s, P, c(kl), c(8), L); mem_write(s, P, c(kp), c(8), arr)
            return s
        def fresh(A):
            return atom("heap", "pool", 0, 0, p=True, nn=True)
        # which pointer the kept objects are reached through
        kp = None
        for k in two:
            H = fresh(ONE)
            s = state(c(4), ONE, H, k, None); s.wmem()[H] = Region(("init", 0), (), None, c(32))
            R0 = X.R; X.R = Only(R, lambda r: False)
            try: res = X.run(f, [P, p], s, inits=True)
            finally: X.R = R0
            if any(H in t.mem and t.mem[H].segs for t, r in res): kp = k
        if kp is None: continue
        done += 1
        for full in (True, False):
            for static in (False, True):
                A = size0 if static else atom("param", "room"); L = A if full else atom("param", "used")
                H = cells[kp][1] if static else fresh(A)
                s = state(A, L, H, kp, None)
                if not static: s.wmem()[H] = Region(("init", 0), (), None, scale(A, 8))
                for t, r in X.run(f, [P, p], s, inits=True):
                    at = X.what + (", full" if full else ", not full") + (", as at start" if static else "")
                    if isinstance(r, str): R.ok(False, "operations-return", at, "ends in %s" % r, t); continue
                    for x in memfaults(t.evlist()): R.ok(False, "pool-no-memory-fault", at, x.name, t)
                    g = lambda k: t.simp(mem_read(t, P, c(k), 8, k == kp))
                    A1, L1, H1 = exact(t, g(ka)), exact(t, g(kl)), g(kp)
                    b = base_off(H1)[0]; rg = mem_region(t, b)
                    z = rg.size if b.op == "heap" else scale(size0, 8)
                    R.ok(rg.freed is None and z is not None and le(t, scale(A1, 8), exact(t, z)) and le(t, L1, A1), "pool-fits-memory", at, "keeps %s of %s objects in %s bytes" % (show(L1), show(A1), show(z)), t)
                    fr = [x for x in t.evlist() if x.kind == "call" and x.name == "free" and t.simp(x.args[0]) is p]
                    kept = t.iszero(sub(L1, addc(L, 1))) is True and t.simp(mem_read(t, b, add(base_off(H1)[1], scale(L, 8)), 8, True)) is p
                    R.ok(len(fr) + (1 if kept else 0) == 1 and (kept or t.iszero(sub(L1, L)) is True), "pool-keeps-or-frees", at, "the object is %s and freed %d times" % ("kept" if kept else "not kept", len(fr)), t)
                    if H1 is H: R.ok(t.iszero(sub(A1, A)) is True or not kept, "pool-fits-memory", at, "grows without memory", t)
        R.need(X.n["allocs"], "pool-allocations", 1)
    if not done: R.notes.append("no object pool of the known shape; its growth was not analysed")

class Plain(Sizes):
    asserts = False             # from arbitrary states
    def on_store(self, *a):
        # (how far duplicating a list writes is looked at for each length, below)
        if self.what != "sock_addr_duplist": Sizes.on_store(self, *a)

def C33_misc(R):
    """every other size that is computed: only the computation itself"""
    from . import leak
    X = Plain(R, "")
    n = 0
    RES = {k: v for k, v in leak.RES.items() if k not in ("malloc", "calloc", "realloc")}
    for name, pop, inputs in (("sock_addr_serialize", (), {}), ("sock_addr_deserialize", (), {}), ("sock_addr_dup", (), {}), ("sock_addr_duplist", (), {}), ("asprintf", (), {}),
                              ("setuidgid", (), {}), ("netbuf_read_init", (), {}), ("imalloc", (), {})):
        f = R.prog.func(name) if name != "imalloc" else (R.prog.defining("imalloc") or [None])[0]
        if f is None: continue
        X.what = name
        st = State(); ps = params(f)
        for q in ps:
            if q.p: st.assume(mk("eq0", q), False)
            else: st.wfacts(); st.iv[q] = (0, U64) if name != "asprintf" else (0, OBJ)
        for q, ty in zip(ps, f.ptys):
            if ty.k == "int" and ty.n < 64: st.iv[q] = (0, 2 ** (ty.n - 1) - 1)
        if name == "imalloc" and len(ps) == 2: st.setiv(ps[1], 1, U64)
        k = X.n["allocs"]
        X.ar.n = 0
        try: res = X.run(f, ps, st, models=dict(RES), nofollow={name})
        except Broken as x:
            R.notes.append("%s: %s" % (name, x)); continue
        n += X.n["allocs"] - k
        if name == "imalloc":
            m = prod(*ps)
            for t, r in res:
                if isinstance(r, str) or t.isnull(t.simp(r)) is not False: continue
                z = mem_region(t, base_off(t.simp(r))[0]).size
                R.ok(z is not None and le(t, m, exact(t, z)) and not wrapped(exact(t, z)), "array-fits-memory", "imalloc", "room for %s elements of %s in %s bytes" % (ps[0], ps[1], show(z)), t)
    R.need(n, "other-allocations", 6)
    # copies of lists, by length
    f = R.prog.need("sock_addr_duplist"); P, = params(f); m = 0
    for k in range(4 if R.tier == "quick" else 9):
        X = Plain(R, "sock_addr_duplist of %d" % k)
        st = State(); st.assume(mk("eq0", P), False)
        for i in range(k):
            a, nm, ln = atom("param", "addr%d" % i, p=True, nn=True), atom("param", "name%d" % i, p=True, nn=True), atom("param", "len%d" % i, nn=True)
            st.wfacts(); st.iv[ln] = (1, 128)
            st.wmem()[nm] = Region(("init", 0), (), None, ln); st.wmem()[a] = Region(("init", 0), (), None, c(24))
            mem_write(st, a, c(8), c(8), nm); mem_write(st, a, c(16), c(4), ln); mem_write(st, P, c(8 * i), c(8), a)
        mem_write(st, P, c(8 * k), c(8), ZERO)
        X.run(f, [P], st, models=dict(RES), nofollow={"sock_addr_duplist", "sock_addr_dup"}, unroll_mem=True, unroll_all=k + 2)
        m += X.n["stores"]
    R.need(m, "list-copy-stores", 6)
    # a formatted string
    f = R.prog.func("asprintf")
    if f:
        X = Plain(R, "asprintf"); ps = params(f); lens = []
        def vsn(e, st, fr, a, ins):
            z = exact(st, st.simp(a[1])); b, o = base_off(st.simp(a[0]))
            if b is not None and b.op == "heap":
                r = mem_region(st, b)
                X.R.ok(r.freed is None and r.size is not None and le(st, add(o, z), exact(st, r.size)), "write-within-allocation", X.at(e, fr, ins), "formats up to %s bytes into %s of %s" % (show(z), show(b), show(r.size)), st)
                L = st.aux.get("fmtlen")
                if L is not None: X.R.ok(le(st, addc(L, 1), z), "formatted-string-fits", X.at(e, fr, ins), "a string of %s bytes and its end is formatted into %s" % (show(L), show(z)), st); lens.append(L)
            s2 = st.fork()
            L = st.aux.get("fmtlen")
            if L is None:
                L = atom("fmt", st.fresh(), nn=True); st.wfacts(); st.iv[L] = (0, 2 ** 31 - 1); st.aux["fmtlen"] = L
            return [(st, L), (s2, c(-1))]
        st = State()
        for q in ps:
            if q.p: st.assume(mk("eq0", q), False)
        X.run(f, ps, st, models=dict(RES, vsnprintf=vsn), nofollow={"asprintf"})
        R.need(len(lens), "formatted-strings", 1)

def C33(R):
    """Every size computation is exact or checked before an allocation depends on it; containers keep what they hold within what they allocated, over histories of operations with arbitrary counts."""
    C33_array(R)
    C33_poll(R)
    C33_pool(R)
    C33_misc(R)
