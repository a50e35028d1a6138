"""Hash-consed value terms (value numbering): constants, linear forms, opaque atoms, byte strings."""

class T:
    __slots__ = ("op", "a", "id", "p", "nn", "__weakref__")
    def __repr__(self):
        return show(self)

_tab = {}
_n = [0]

def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op; t.a = a; t.p = False; t.nn = False
        _n[0] += 1
        t.id = _n[0]
        _tab[key] = t
    return t

def c(n):
    return mk("c", n)

ZERO = c(0)
ONE = c(1)

def isc(t):
    return t.op == "c"

def cv(t):
    return t.a[0] if t.op == "c" else None

def parts(t):
    """(constant, {atom: coefficient})"""
    if t.op == "c":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}

def mklin(k, d):
    items = [(x, n) for x, n in d.items() if n != 0]
    if not items:
        return c(k)
    if len(items) == 1 and items[0][1] == 1 and k == 0:
        return items[0][0]
    items.sort(key=lambda xn: xn[0].id)
    return mk("lin", k, tuple(items))

def add(x, y):
    if x.op == "c" and y.op == "c":
        return c(x.a[0] + y.a[0])
    if x.op == "c" and x.a[0] == 0: return y
    if y.op == "c" and y.a[0] == 0: return x
    k, d = parts(x)
    k2, d2 = parts(y)
    for a, n in d2.items():
        d[a] = d.get(a, 0) + n
    return mklin(k + k2, d)

def scale(x, m):
    if m == 1:
        return x
    k, d = parts(x)
    return mklin(k * m, {a: n * m for a, n in d.items()})

def sub(x, y):
    if x is y:
        return ZERO
    return add(x, scale(y, -1))

def addc(x, n):
    return add(x, c(n))

BOOLOPS = ("eq0", "lt0", "ult", "fcmp", "not", "nz")

def isbool(t):
    return t.op in BOOLOPS

def neg(b):
    if b.op == "c":
        return c(0 if b.a[0] else 1)
    if b.op == "not":
        return b.a[0]
    return mk("not", b)

OBJ = ("glob", "fn", "stk", "heap")

def atom(op, *a, p=False, nn=False):
    t = mk(op, *a)
    if p: t.p = True
    if nn: t.nn = True
    return t

def glob(name):
    return atom("glob", name, p=True, nn=True)

def fnt(key):
    return atom("fn", key, p=True, nn=True)

def base_off(t):
    """pointer term -> (base atom, offset term); base None when it is a constant address"""
    if t.op == "c":
        return None, t
    if t.op != "lin":
        return t, ZERO
    k, items = t.a
    best = None
    for a, n in items:
        if n == 1 and a.p:
            if best is None or (best.op not in OBJ and a.op in OBJ):
                best = a
    if best is None:
        for a, n in items:
            if n == 1:
                best = a
                break
    if best is None:
        return None, t
    d = dict(items)
    del d[best]
    return best, mklin(k, d)

# ------------------------------------------------------------------ byte strings
def bsize(b):
    o = b.op
    if o == "b.int" or o == "b.be":
        return c(b.a[0])
    if o == "b.const":
        return c(len(b.a[0]))
    if o == "b.cat":
        s = ZERO
        for x in b.a:
            s = add(s, bsize(x))
        return s
    return b.a[-1]          # fill, mem, sl, fn, unk: length is the last argument

def bcat(ps):
    out = []
    for p in ps:
        if p.op == "b.cat":
            qs = p.a
        else:
            qs = (p,)
        for q in qs:
            z = bsize(q)
            if z.op == "c" and z.a[0] == 0:
                continue
            if out:
                l = out[-1]
                if l.op == "b.fill" and q.op == "b.fill" and l.a[0] is q.a[0]:
                    out[-1] = mk("b.fill", l.a[0], add(l.a[1], q.a[1])); continue
                if l.op == "b.const" and q.op == "b.const":
                    out[-1] = mk("b.const", l.a[0] + q.a[0]); continue
                if l.op == "b.mem" and q.op == "b.mem" and l.a[0] is q.a[0] and l.a[1] == q.a[1] and add(l.a[2], l.a[3]) is q.a[2]:
                    out[-1] = mk("b.mem", l.a[0], l.a[1], l.a[2], add(l.a[3], q.a[3])); continue
                if l.op == "b.sl" and q.op == "b.sl" and l.a[0] is q.a[0] and add(l.a[1], l.a[2]) is q.a[1]:
                    nl = add(l.a[2], q.a[2])
                    if l.a[1] is ZERO and nl is bsize(l.a[0]):
                        out[-1] = l.a[0]
                    else:
                        out[-1] = mk("b.sl", l.a[0], l.a[1], nl)
                    continue
            out.append(q)
    if len(out) == 1:
        return out[0]
    if not out:
        return mk("b.const", b"")
    return mk("b.cat", *out)

def norm_b(b):
    """constant zero strings and fills are one form"""
    if b.op == "b.const" and b.a[0] and b.a[0] == b.a[0][:1] * len(b.a[0]):
        return mk("b.fill", c(b.a[0][0]), c(len(b.a[0])))
    return b

def subterms(t, seen=None):
    """all subterms of t (each once)"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t[:12]) + ")"
        return str(t)
    if t.op == "c":
        return str(t.a[0])
    if d > 6:
        return "..."
    if t.op == "lin":
        s = []
        for a, n in t.a[1]:
            s.append(("%s" if n == 1 else str(n) + "*%s") % show(a, d + 1))
        if t.a[0]:
            s.append(str(t.a[0]))
        return "(" + "+".join(s) + ")"
    if t.op in ("glob", "fn"):
        return ("&" if t.op == "glob" else "") + str(t.a[0])
    if t.op == "param":
        return str(t.a[0])
    if len(t.a) > 12:
        return t.op + "(" + ",".join(show(x, d + 1) for x in t.a[:8]) + ",... %d more)" % (len(t.a) - 8)
    return t.op + "(" + ",".join(show(x, d + 1) for x in t.a) + ")"
