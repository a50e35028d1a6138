from ..absint import *
from ..terms import *
from .. import crypto
from ..ir import Broken

def params(f):
    f._parse()
    return [atom("param", p, p=(ty.k == "ptr")) for p, ty in zip(f.params, f.ptys)]

def locs(e):
    f, l = e.loc
    i = f.find("/repo/")
    return "%s:%s" % (f[i + 6:] if i >= 0 else f, l)

def where(f):
    return "%s (%s)" % (f.name.replace("libcperciva_", ""), f.mod.src)

def analyse(R, f, args=None, st=None, models=None, opaque=(), **kw):
    """run one function from a symbolic state; -> (engine, args, [(state, ret)])"""
    m = dict(models or {})
    cfg = Cfg(models=m, opaque=set(opaque), **kw)
    e = Engine(R.prog, cfg)
    st = st or State()
    args = args if args is not None else params(f)
    res = e.inline(st, None, None, f, list(args)) if False else e.run(f, list(args), st)
    R.used(e)
    return e, args, res

def alive(res):
    return [(s, r) for s, r in res if not isinstance(r, str)]

def b_eq(st, a, b):
    """byte strings equal (modulo the state's known constants)"""
    return a is b or simp_b(st, a) is simp_b(st, b)

_memo = {}
def simp_b(st, t):
    """rewrite known-constant atoms inside a byte string"""
    if not isinstance(t, T):
        return tuple(simp_b(st, x) for x in t) if isinstance(t, tuple) else t
    if t.op in ("c", "glob", "fn", "heap", "stk", "f") or t.op == "param" and t.p:
        return t
    if t.op == "lin":
        return st.simp(t)
    if t.op.startswith("b."):
        a = tuple(simp_b(st, x) for x in t.a)
        if t.op == "b.cat":
            return bcat([x for x in a if bsize(x) is not ZERO])
        if t.op == "b.sl" and isinstance(a[0], T):
            return bslice(st, a[0], a[1], a[2])
        return norm_b(mk(t.op, *a))
    return st.simp(t)

def call_sites(R, names, skip=("tests/",)):
    """[(function, callee name, instruction)] of every direct call in the program to one of the names"""
    from ..absint import norm
    out = []
    for m in R.prog.mods.values():
        for f in m.funcs.values():
            for b in f.order:
                for I in f.blocks[b]:
                    if I.op == "call" and I.x and I.x[0] == "g" and norm(I.x[1]) in names:
                        out.append((f, norm(I.x[1]), I))
    return out

class Only:
    """the obligations of one property among those a shared pass produces"""
    def __init__(self, R, pred):
        self.__dict__["R"] = R; self.__dict__["pred"] = pred
    def ok(self, cond, rule, *a, **k):
        return self.R.ok(cond, rule, *a, **k) if self.pred(rule) else bool(cond)
    def __getattr__(self, n):
        return getattr(self.R, n)
    def __setattr__(self, n, v):
        setattr(self.R, n, v)
