"""Byte-precise abstract evaluation of straight data-movement code: memory is a map from offset to byte value, where a byte is a
constant or a symbol (input byte i, nonce byte i, byte i of a linear form over one unknown, cipher output byte i of a block, exclusive-or
of these).  Branches have to be decided by the constant part; a branch on a symbol raises Undecided."""
import re
from .ir import Broken, P, toks, parse_type, parse_val
from .absint import norm

class Undecided(Exception): pass
class Bad(Exception):
    """the code does something no execution may do (out of bounds, assertion)"""
    def __init__(self, loc, what): self.loc, self.what = loc, what

UNDEF = ("undef",)
class Ptr:
    __slots__ = ("o", "off")
    def __init__(self, o, off): self.o, self.off = o, off
    def __eq__(self, x): return isinstance(x, Ptr) and x.o is self.o and x.off == self.off
    def __hash__(self): return hash((id(self.o), self.off))
def undef(v): return isinstance(v, tuple) and (v == UNDEF or (v[0] == "B" and UNDEF in v[1]))
class Obj:
    __slots__ = ("name", "size", "b", "dead")
    def __init__(self, name, size, b=None): self.name, self.size, self.b, self.dead = name, size, b if b is not None else [UNDEF] * size, False
class Fn:
    __slots__ = ("f",)
    def __init__(self, f): self.f = f
class Lin:
    """k + m*h for one unknown h (0 <= h < 2^40); no wrap-around"""
    __slots__ = ("k", "m")
    def __init__(self, k, m): self.k, self.m = k, m
    def __eq__(self, x): return isinstance(x, Lin) and (x.k, x.m) == (self.k, self.m)
    def __hash__(self): return hash((self.k, self.m))

def linbytes(k, m, n):
    """little-endian bytes of k + m*h"""
    out = []
    for i in range(n):
        if m % 256 == 0:
            out.append(k & 255); k >>= 8; m >>= 8
        else:
            out += [("lb", k, m, j) for j in range(n - i)]
            break
    return out

def xorb(a, b):
    if isinstance(a, int) and isinstance(b, int): return a ^ b
    if a == UNDEF or b == UNDEF: return UNDEF
    s, k = set(), 0
    for x in (a, b):
        if isinstance(x, int): k ^= x
        elif x[0] == "xor": s ^= x[1]; k ^= x[2]
        else: s ^= {x}
    if not s: return k
    if len(s) == 1 and k == 0: return next(iter(s))
    return ("xor", frozenset(s), k)

def tobytes(v, n):
    if isinstance(v, int): return [(v >> (8 * i)) & 255 for i in range(n)]
    if isinstance(v, Lin): return linbytes(v.k, v.m, n)
    if isinstance(v, tuple) and v and v[0] == "B":
        b = list(v[1])
        return (b + [0] * n)[:n]
    if isinstance(v, (Ptr, Fn)): return [("ptr", v, i) for i in range(n)]
    if v == UNDEF: return [UNDEF] * n
    raise Broken("bytewise: %r" % (v,))

def frombytes(b):
    if all(isinstance(x, int) for x in b):
        return sum(x << (8 * i) for i, x in enumerate(b))
    x = b[0]
    if isinstance(x, tuple) and x[0] == "ptr" and len(b) == 8 and all(y == ("ptr", x[1], i) for i, y in enumerate(b)):
        return x[1]
    # low constants followed by the bytes of one linear form
    j = 0; k = 0
    while j < len(b) and isinstance(b[j], int):
        k |= b[j] << (8 * j); j += 1
    y = b[j]
    if isinstance(y, tuple) and y[0] == "lb" and all(z == ("lb", y[1], y[2], i) for i, z in enumerate(b[j:])) and len(b) == 8:
        return Lin(k + (y[1] << (8 * j)), y[2] << (8 * j))
    return ("B", tuple(b))

class Ev:
    def __init__(self, prog, hooks, maxsteps=60000000):
        self.prog, self.hooks, self.steps, self.max = prog, hooks, 0, maxsteps
        self.globals = {}; self.funcs = set(); self.ncalls = 0
        self._c = {}
    def load(self, p, n, loc):
        if not isinstance(p, Ptr): raise Bad(loc, "access through something that is no valid pointer (%s)" % (p,))
        if p.o.dead: raise Bad(loc, "access to %s after it was freed" % p.o.name)
        if p.off < 0 or p.off + n > p.o.size: raise Bad(loc, "reads bytes %d..%d of %s, which has %d" % (p.off, p.off + n - 1, p.o.name, p.o.size))
        return p.o.b[p.off:p.off + n]
    def store(self, p, bs, loc):
        if not isinstance(p, Ptr): raise Bad(loc, "write through something that is no valid pointer")
        if p.o.dead: raise Bad(loc, "write to %s after it was freed" % p.o.name)
        if p.off < 0 or p.off + len(bs) > p.o.size: raise Bad(loc, "writes bytes %d..%d of %s, which has %d" % (p.off, p.off + len(bs) - 1, p.o.name, p.o.size))
        p.o.b[p.off:p.off + len(bs)] = bs
    def glob(self, name, mod):
        f = self.prog.lookup(name, mod)
        if f is not None: return Fn(f)
        txt = mod.globals.get(name)
        m2 = mod
        if txt is None or re.match(r'(\w+ )*external ', txt):
            for m in self.prog.mods.values():
                if name in m.globals and not re.match(r'(\w+ )*external ', m.globals[name]): m2 = m; txt = m.globals[name]; break
        key = (m2.src, name)
        o = self.globals.get(key)
        if o is None:
            if txt is None:
                if name in mod.decls: return Fn(name)
                raise Broken("bytewise: unknown global " + name)
            t = re.sub(r'^(.*?)\b(global|constant) ', '', txt)
            p = P(toks(t), m2); ty = parse_type(p); n = m2.size(ty)
            o = self.globals[key] = Obj("the variable " + name, n)
            try: o.b = self.init(parse_val(p, ty), ty, m2)
            except Broken: pass
        return Ptr(o, 0)
    def init(self, v, ty, mod):
        ty = mod.res(ty); n = mod.size(ty)
        if v[0] in ("zero", "null"): return [0] * n
        if v[0] == "i": return tobytes(v[1] & ((1 << (8 * n)) - 1), n)
        if v[0] == "bytes": return list(v[1]) + [0] * (n - len(v[1]))
        if v[0] == "g": return tobytes(self.glob(v[1], mod), 8)
        if v[0] == "agg":
            out = []
            if ty.k in ("arr", "vec"):
                for t, x in v[1]: out += self.init(x, t, mod)
                return out
            offs, tot = mod.layout(ty)
            out = [0] * tot
            for o, (t, x) in zip(offs, v[1]):
                b = self.init(x, t, mod); out[o:o + len(b)] = b
            return out
        raise Broken("bytewise init")
    def val(self, x, ty, regs, fn):
        k = x[0]
        if k == "r": return regs[x[1]]
        if k == "i":
            return x[1] & ((1 << x[2]) - 1) if x[2] else x[1]
        if k == "null": return 0
        if k == "undef":
            n = fn.mod.size(ty) if ty is not None else 8
            return ("B", (UNDEF,) * n)
        if k == "zero": return 0
        if k == "g": return self.glob(x[1], fn.mod)
        if k == "agg":
            return ("B", tuple(self.init(x, ty, fn.mod)))
        if k == "gep":
            return self.gep(x[1], [(t, self.val(v, t, regs, fn)) for t, v in x[2]], fn)
        if k == "cast": return self.val(x[3], x[2], regs, fn)
        if k == "meta": return 0
        raise Broken("bytewise operand %s" % (x,))
    def gep(self, ty, ops, fn):
        m = fn.mod
        p = ops[0][1]
        if not isinstance(p, Ptr):
            if isinstance(p, int): return p
            raise Broken("bytewise: pointer arithmetic on %r" % (p,))
        off = p.off
        for i, (t, v) in enumerate(ops[1:]):
            if not isinstance(v, int): raise Undecided("index")
            if t.k == "int" and v >= 1 << (t.n - 1): v -= 1 << t.n
            if i == 0: off += v * m.size(ty); continue
            ty = m.res(ty)
            if ty.k == "struct":
                off += m.layout(ty)[0][v]; ty = ty.e[v]
            else:
                ty = ty.e; off += v * m.size(ty)
        return Ptr(p.o, off)
    def call(self, f, args):
        """run a Func on values"""
        if self.steps > self.max: raise Broken("bytewise: too many steps")
        self.funcs.add("%s:%s" % (f.mod.src, f.name.replace("libcperciva_", "")))
        f._parse()
        regs = dict(zip(f.params, args))
        b = f.order[0]; prev = None
        mod = f.mod
        while True:
            ins = f.blocks[b]
            i = 0
            if ins[0].op == "phi":
                new = {}
                while ins[i].op == "phi":
                    I = ins[i]
                    for v, pb in I.a:
                        if pb == prev: new[I.res] = self.val(v, I.ty, regs, f); break
                    else: raise Broken("phi")
                    i += 1
                regs.update(new)
            nxt = None
            for I in ins[i:]:
                self.steps += 1
                op = I.op
                if op == "br": nxt = I.a[0]
                elif op == "cbr":
                    v = self.val(I.a[0], None, regs, f)
                    if undef(v): raise Bad(mod.loc(I.dbg), "a decision is taken on memory nobody wrote")
                    if not isinstance(v, int): raise Undecided(mod.loc(I.dbg))
                    nxt = I.a[1] if v & 1 else I.a[2]
                elif op == "switch":
                    v = self.val(I.a[0], I.ty, regs, f)
                    if undef(v): raise Bad(mod.loc(I.dbg), "a decision is taken on memory nobody wrote")
                    if not isinstance(v, int): raise Undecided(mod.loc(I.dbg))
                    nxt = I.a[1]
                    for cst, tgt in I.a[2]:
                        if (cst[1] & ((1 << I.ty.n) - 1)) == v: nxt = tgt; break
                elif op == "ret":
                    return self.val(I.a[0], I.ty, regs, f) if I.a else None
                elif op == "unreachable":
                    raise Bad(mod.loc(I.dbg), "reaches a point declared unreachable")
                else:
                    regs[I.res] = self.ins(I, regs, f)
            if self.steps > self.max: raise Broken("bytewise: too many steps")
            if nxt is None: raise Broken("bytewise: block without successor")
            prev, b = b, nxt
    def ins(self, I, regs, f):
        mod = f.mod; op = I.op
        if op == "load":
            n = mod.size(I.ty)
            bs = self.load(self.val(I.a[0], None, regs, f), n, mod.loc(I.dbg))
            v = frombytes(bs)
            return v if mod.res(I.ty).k != "vec" else ("B", tuple(bs))
        if op == "store":
            v = self.val(I.a[0], I.ty, regs, f); n = mod.size(I.ty)
            self.store(self.val(I.a[1], None, regs, f), tobytes(v, n), mod.loc(I.dbg)); return None
        if op == "gep":
            return self.gep(I.ty, [(t, self.val(v, t, regs, f)) for t, v in I.a], f)
        if op == "alloca":
            n = self.val(I.a[0], None, regs, f)
            return Ptr(Obj("the local variable " + (I.res or "?"), mod.size(I.ty) * n), 0)
        if op == "bin": return self.bin(I, self.val(I.a[0], I.ty, regs, f), self.val(I.a[1], I.ty, regs, f), mod)
        if op == "cast":
            k, ty1 = I.x; v = self.val(I.a[0], ty1, regs, f)
            if k in ("ptrtoint", "inttoptr", "bitcast"):
                return v
            n1, n2 = ty1.n, I.ty.n
            if isinstance(v, int):
                if k == "sext" and v >> (n1 - 1): v -= 1 << n1
                return v & ((1 << n2) - 1)
            if k == "trunc":
                if undef(v): return ("B", (UNDEF,) * max(1, n2 // 8))
                if n2 < 8:
                    b0 = tobytes(v, 8)[0]
                    if isinstance(b0, int): return b0 & ((1 << n2) - 1)
                    raise Undecided(mod.loc(I.dbg))
                return frombytes(tobytes(v, n2 // 8))
            if k == "zext": return frombytes((tobytes(v, n1 // 8) + [0] * 8)[:n2 // 8]) if n2 <= 64 else ("B", tuple(tobytes(v, n1 // 8) + [0] * (n2 // 8 - n1 // 8)))
            if k == "sext" and undef(v): return ("B", (UNDEF,) * (n2 // 8))
            if k == "sext": raise Undecided(mod.loc(I.dbg))
            raise Broken("bytewise cast " + k)
        if op == "icmp":
            a, b = self.val(I.a[0], I.ty, regs, f), self.val(I.a[1], I.ty, regs, f)
            return self.cmp(I.x, a, b, I.ty, mod.loc(I.dbg))
        if op == "select":
            cnd = self.val(I.a[0], None, regs, f)
            if not isinstance(cnd, int): raise Undecided(mod.loc(I.dbg))
            return self.val(I.a[1 if cnd & 1 else 2], I.ty, regs, f)
        if op == "copy": return self.val(I.a[0], I.ty, regs, f)
        if op == "call": return self.docall(I, regs, f)
        if op == "other": return self.other(I, regs, f)
        if op == "asm":
            raise Broken("bytewise: inline assembly")
        raise Broken("bytewise instruction " + op)
    def cmp(self, pr, a, b, ty, loc):
        if isinstance(a, int) and isinstance(b, int):
            n = ty.n or 64
            if pr[0] == "s":
                a = a - (1 << n) if a >> (n - 1) else a; b = b - (1 << n) if b >> (n - 1) else b
            return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[pr if pr in ("eq", "ne") else pr[1:]])
        if undef(a) or undef(b): return ("B", (UNDEF,))
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, (Ptr, Fn)) and isinstance(b, (Ptr, Fn)) and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
                return self.cmp(pr, a.off & (2 ** 64 - 1), b.off & (2 ** 64 - 1), ty, loc)
            if pr in ("eq", "ne"): return int((a == b) == (pr == "eq"))
            raise Undecided(loc)
        if isinstance(a, Lin) and isinstance(b, Lin) and a.m == b.m:
            if pr in ("eq", "ne"): return int((a.k == b.k) == (pr == "eq"))
            return self.cmp(pr, a.k - min(a.k, b.k), b.k - min(a.k, b.k), ty, loc)
        if pr in ("eq", "ne"):
            x, y = tobytes(a, 16), tobytes(b, 16)
            if any(isinstance(p, int) and isinstance(q, int) and p != q for p, q in zip(x, y)): return int(pr == "ne")
            if x == y and UNDEF not in x: return int(pr == "eq")
        raise Undecided(loc)
    def bin(self, I, a, b, mod):
        op = I.x; ty = mod.res(I.ty); loc = mod.loc(I.dbg)
        n = ty.n if ty.k == "int" else mod.size(ty) * 8
        M = (1 << n) - 1
        if isinstance(a, int) and isinstance(b, int) and ty.k == "int":
            sa = a - (1 << n) if a >> (n - 1) else a; sb = b - (1 << n) if b >> (n - 1) else b
            if op == "add": return (a + b) & M
            if op == "sub": return (a - b) & M
            if op == "mul": return (a * b) & M
            if op in ("udiv", "urem", "sdiv", "srem") and b == 0: raise Bad(loc, "division by zero")
            if op == "udiv": return a // b
            if op == "urem": return a % b
            if op == "sdiv": return int(abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)) & M
            if op == "srem": return int(abs(sa) % abs(sb) * (-1 if sa < 0 else 1)) & M
            if op == "shl": return (a << b) & M
            if op == "lshr": return a >> b
            if op == "ashr": return (sa >> b) & M
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            raise Broken("bytewise " + op)
        if op not in ("and", "or", "xor", "shl", "lshr") and (undef(a) or undef(b)): return ("B", (UNDEF,) * (n // 8))
        if op == "xor":
            return self.mkb([xorb(x, y) for x, y in zip(tobytes(a, n // 8), tobytes(b, n // 8))], ty)
        if op in ("and", "or"):
            if isinstance(a, Lin) and isinstance(b, int) and op == "and" and b & (b + 1) == 0 and a.m % (b + 1) == 0: return a.k & b
            out = []
            for x, y in zip(tobytes(a, n // 8), tobytes(b, n // 8)):
                if isinstance(x, int): x, y = y, x
                if isinstance(x, int) and isinstance(y, int): out.append(x & y if op == "and" else x | y)
                elif y == 0: out.append(0 if op == "and" else x)
                elif y == 255: out.append(x if op == "and" else 255)
                elif x == y: out.append(x)
                elif x == UNDEF or y == UNDEF: out.append(UNDEF)
                else: raise Undecided(loc)
            return self.mkb(out, ty)
        if ty.k != "int": raise Broken("bytewise vector " + op)
        if op in ("add", "sub"):
            if isinstance(b, int) and b >> (n - 1): b -= 1 << n
            la, lb_ = self.lin(a), self.lin(b)
            if la and lb_:
                s = 1 if op == "add" else -1
                k, m = la[0] + s * lb_[0], la[1] + s * lb_[1]
                if m == 0: return k & M
                if n == 64: return Lin(k, m)
            if b == 0: return a
            if n < 64 and la and lb_:
                pass
            raise Undecided(loc)
        if op == "mul":
            if isinstance(a, int): a, b = b, a
            la = self.lin(a)
            if la and isinstance(b, int) and n == 64: return Lin(la[0] * b, la[1] * b)
            raise Undecided(loc)
        if op in ("udiv", "urem") and isinstance(b, int) and b:
            la = self.lin(a)
            if la and la[1] % b == 0:
                return (la[0] % b) if op == "urem" else Lin(la[0] // b, la[1] // b)
            raise Undecided(loc)
        if op in ("shl", "lshr") and isinstance(b, int):
            if b >= n: raise Bad(loc, "shift by %d of a %d-bit value" % (b, n))
            la = self.lin(a) if n == 64 else None
            if la and op == "shl" and la[1] << b < 1 << 58: return Lin(la[0] << b, la[1] << b)
            if la and op == "lshr" and la[1] % (1 << b) == 0: return Lin(la[0] >> b, la[1] >> b)
            if b % 8 == 0:
                bs = tobytes(a, n // 8); k = b // 8
                return self.mkb(([0] * k + bs)[:n // 8] if op == "shl" else bs[k:] + [0] * k, ty)
        raise Undecided(loc)
    def lin(self, v):
        if isinstance(v, int): return (v, 0)
        if isinstance(v, Lin): return (v.k, v.m)
        return None
    def mkb(self, bs, ty):
        return ("B", tuple(bs)) if ty.k == "vec" else frombytes(bs)
    def docall(self, I, regs, f):
        self.ncalls += 1
        mod = f.mod; loc = mod.loc(I.dbg)
        args = [self.val(v, t, regs, f) for t, v in I.a]
        if I.x[0] == "g":
            g = self.prog.lookup(I.x[1], mod) or I.x[1]
        else:
            v = self.val(I.x, None, regs, f)
            if not isinstance(v, Fn): raise Bad(loc, "call through something that is no function")
            g = v.f
        name = norm(g if isinstance(g, str) else g.name)
        name = name[len("libcperciva_"):] if name.startswith("libcperciva_") else name
        h = self.hooks.get(name)
        if h: return h(self, args, loc)
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove") or name in ("memcpy", "memmove"):
            if not isinstance(args[2], int): raise Undecided(loc)
            if args[2]: self.store(args[0], list(self.load(args[1], args[2], loc)), loc)
            return args[0]
        if name.startswith("llvm.memset") or name in ("memset",):
            if not isinstance(args[2], int): raise Undecided(loc)
            if args[2]: self.store(args[0], [tobytes(args[1], 1)[0]] * args[2], loc)
            return args[0]
        if name == "insecure_memzero":
            self.store(args[0], [0] * args[1], loc); return None
        if name.startswith("llvm.bswap"):
            n = I.ty.n // 8
            return frombytes(tobytes(args[0], n)[::-1])
        if name in ("malloc", "calloc"):
            n = args[0] if name == "malloc" else args[0] * args[1]
            return Ptr(Obj("the memory allocated at %s:%s" % (loc[0].split("/repo/")[-1], loc[1]), n, [0] * n if name == "calloc" else None), 0)
        if name == "free":
            if isinstance(args[0], Ptr):
                if args[0].o.dead: raise Bad(loc, "frees %s twice" % args[0].o.name)
                args[0].o.dead = True
            return None
        if name in ("__assert_fail", "abort"): raise Bad(loc, "an assertion fails")
        if not isinstance(g, str): return self.call(g, args)
        raise Broken("bytewise: call to %s" % name)
    def other(self, I, regs, f):
        s = I.x
        p = P(toks(s), f.mod); op = p.next()
        mod = f.mod
        def tv():
            ty = parse_type(p); v = parse_val(p, ty)
            return ty, self.val(v, ty, regs, f)
        if op == "insertelement":
            ty, v = tv(); p.need(","); et, e = tv(); p.need(","); it, i = tv()
            es = mod.size(ty.e); b = tobytes(v, mod.size(ty)); b[i * es:(i + 1) * es] = tobytes(e, es)
            return ("B", tuple(b))
        if op == "extractelement":
            ty, v = tv(); p.need(","); it, i = tv()
            es = mod.size(ty.e); return frombytes(tobytes(v, mod.size(ty))[i * es:(i + 1) * es])
        if op == "shufflevector":
            ty, v = tv(); p.need(","); t2, w = tv(); p.need(",")
            mt = parse_type(p); mv = parse_val(p, mt)
            es = mod.size(ty.e); b = tobytes(v, mod.size(ty)) + tobytes(w, mod.size(ty))
            idx = [x[1][1] if x[1][0] == "i" else None for x in mv[1]] if mv[0] == "agg" else [0] * mt.n
            out = []
            for i in idx: out += b[i * es:(i + 1) * es] if i is not None else [UNDEF] * es
            return ("B", tuple(out))
        raise Broken("bytewise instruction " + op)
