"""Parser for the textual LLVM IR that clang produces from /repo (resolved program)."""
import re

class Broken(Exception):
    """The analysis cannot give an answer (anchor gone, construct not understood)."""

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "e", "name")
    def __init__(self, k, n=0, e=None, name=None):
        self.k, self.n, self.e, self.name = k, n, e, name
    def __repr__(self):
        return "Ty(%s,%s,%s,%s)" % (self.k, self.n, self.e, self.name)

VOID = Ty("void"); PTR = Ty("ptr"); LABEL = Ty("label"); META = Ty("metadata")
_ints = {}
def intty(n):
    if n not in _ints:
        _ints[n] = Ty("int", n)
    return _ints[n]

_TOK = re.compile(r'''\s*(
    c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"  |
    [%@]"[^"]*"                           |
    [%@$][-a-zA-Z$._0-9]+                 |
    ![0-9]+                               |
    !DI[A-Za-z]+\([^()]*\)                |
    ![-a-zA-Z$._0-9]*                     |
    \#[0-9]+                              |
    0x[KLMHR]?[0-9A-Fa-f]+                |
    -?[0-9]+\.[0-9]+(?:e[-+]?[0-9]+)?     |
    -?[0-9]+                              |
    "(?:[^"\\]|\\.)*"                     |
    [-a-zA-Z$._][-a-zA-Z$._0-9]*          |
    \.\.\.                                |
    [\[\]{}()<>,=*|:]
)''', re.X)

def toks(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = _TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == "" or s[pos:].lstrip().startswith(";"):
                break
            raise Broken("IR tokenizer: " + s[pos:pos + 60])
        out.append(m.group(1))
        pos = m.end()
    return out

class P:
    """token cursor"""
    __slots__ = ("t", "i", "m")
    def __init__(self, t, m):
        self.t, self.i, self.m = t, 0, m
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1
        return x
    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def need(self, x):
        if self.peek() != x:
            raise Broken("IR parse: expected %s in %s" % (x, " ".join(self.t[max(0, self.i - 12):self.i + 12])))
        self.i += 1

_PATTR = {"noundef", "nonnull", "zeroext", "signext", "readonly", "writeonly", "nocapture", "noalias",
          "returned", "immarg", "inreg", "nest", "readnone", "allocptr", "allocalign", "swiftself", "noext"}
_PATTRP = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "elementtype",
           "nofpclass", "memory", "initializes", "captures", "range", "inalloca", "preallocated"}

def parse_type(p):
    t = p.next()
    if t == "void": r = VOID
    elif t == "ptr":
        r = PTR
        if p.peek() == "addrspace":
            p.next(); p.need("("); p.next(); p.need(")")
    elif t == "label": r = LABEL
    elif t == "metadata": r = META
    elif t == "opaque": r = Ty("opaque")
    elif t in ("double", "float", "half", "x86_fp80", "fp128"):
        r = Ty("fp", {"double": 64, "float": 32, "half": 16, "x86_fp80": 80, "fp128": 128}[t])
    elif t[0] == "i" and t[1:].isdigit(): r = intty(int(t[1:]))
    elif t == "[":
        n = int(p.next()); p.need("x"); e = parse_type(p); p.need("]")
        r = Ty("arr", n, e)
    elif t == "<":
        if p.peek() == "{":
            p.next(); es = []
            while not p.eat("}"):
                es.append(parse_type(p)); p.eat(",")
            p.need(">")
            r = Ty("struct", 1, es)
        else:
            n = int(p.next()); p.need("x"); e = parse_type(p); p.need(">")
            r = Ty("vec", n, e)
    elif t == "{":
        es = []
        while not p.eat("}"):
            es.append(parse_type(p)); p.eat(",")
        r = Ty("struct", 0, es)
    elif t[0] == "%":
        r = Ty("named", 0, None, t[1:].strip('"'))
    else:
        raise Broken("IR type: %s in %s" % (t, " ".join(p.t[:30])))
    if p.peek() == "(":      # function type
        p.next(); va = False; ps = []
        while not p.eat(")"):
            if p.eat("..."): va = True
            else: ps.append(parse_type(p))
            p.eat(",")
        r = Ty("func", 1 if va else 0, ps)
    return r

def skip_attrs(p):
    while True:
        t = p.peek()
        if t in _PATTR:
            p.next()
        elif t in _PATTRP:
            p.next()
            if p.peek() == "(":
                d = 0
                while True:
                    x = p.next()
                    if x == "(": d += 1
                    elif x == ")":
                        d -= 1
                        if d == 0: break
            elif t == "align":
                p.next()
        elif t is not None and t[0] == '"':
            p.next()
            if p.eat("="): p.next()
        else:
            return

# ---------------------------------------------------------------- operands
# ("r", name) register, ("i", n, width) integer, ("null",), ("undef",), ("zero",), ("g", name),
# ("f", text), ("gep", srcty, [ops]), ("cast", op, operand, ty), ("bytes", b), ("agg", [(ty,op)...]), ("meta",)
def parse_val(p, ty):
    t = p.peek()
    if t is None:
        raise Broken("IR value")
    if ty.k == "metadata":
        # metadata operand: skip a balanced item
        d = 0
        while p.peek() is not None:
            x = p.peek()
            if d == 0 and x in (",", ")"):
                break
            if x in "([{" : d += 1
            if x in ")]}": d -= 1
            p.next()
        return ("meta",)
    p.next()
    c = t[0]
    if c == "%": return ("r", t[1:].strip('"'))
    if c == "@": return ("g", t[1:].strip('"'))
    if t == "null": return ("null",)
    if t in ("undef", "poison"): return ("undef",)
    if t == "zeroinitializer": return ("zero",)
    if t == "none": return ("undef",)
    if t == "true": return ("i", 1, 1)
    if t == "false": return ("i", 0, 1)
    if c == "c" and t[1:2] == '"':
        raw = t[2:-1]
        b = re.sub(rb'\\(\\|[0-9A-Fa-f]{2})', lambda m: b"\\" if m.group(1) == b"\\" else bytes([int(m.group(1), 16)]), raw.encode("latin1"))
        return ("bytes", b)
    if t.startswith("0x") or (ty.k == "fp"):
        return ("f", t)
    if c.isdigit() or c == "-":
        return ("i", int(t), ty.n)
    if t == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw", "inrange"):
            p.next()
        p.need("(")
        src = parse_type(p); p.need(",")
        ops = parse_tyvals(p, ")")
        return ("gep", src, ops)
    if t == "blockaddress":
        p.need("("); f = p.next()[1:].strip('"'); p.need(","); b = p.next()[1:].strip('"'); p.need(")")
        return ("baddr", f, b)
    if t in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
        p.need("(")
        ty1 = parse_type(p); v = parse_val(p, ty1); p.need("to"); ty2 = parse_type(p); p.need(")")
        return ("cast", t, ty1, v, ty2)
    if t in ("sub", "add", "mul", "xor", "shl", "and", "or", "icmp", "select"):
        while p.peek() != "(": p.next()
        p.need("("); ops = parse_tyvals(p, ")")
        return ("cexpr", t, ops)
    if t in ("[", "{", "<"):
        close = {"[": "]", "{": "}", "<": ">"}[t]
        if t == "<" and p.peek() == "{":
            p.next()
            ops = parse_tyvals(p, "}"); p.need(">")
        else:
            ops = parse_tyvals(p, close)
        return ("agg", ops)
    raise Broken("IR operand: %s" % t)

def parse_tyvals(p, close):
    ops = []
    while not p.eat(close):
        p.eat("inrange")
        ty = parse_type(p); skip_attrs(p)
        ops.append((ty, parse_val(p, ty)))
        p.eat(",")
    return ops

class Ins:
    __slots__ = ("op", "res", "ty", "a", "dbg", "x", "fn")
    def __init__(self, op, res, ty, a, dbg, x=None):
        self.op, self.res, self.ty, self.a, self.dbg, self.x = op, res, ty, a, dbg, x
    def __repr__(self):
        return "<%s %s %s>" % (self.res, self.op, self.a)

_BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
        "fadd", "fsub", "fmul", "fdiv", "frem"}
_CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint",
         "inttoptr", "bitcast", "addrspacecast"}
_FLAGS = {"nuw", "nsw", "exact", "inbounds", "volatile", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn",
          "reassoc", "tail", "musttail", "notail", "disjoint", "nneg", "nusw", "samesign"}

class Func:
    def __init__(self, mod, name, header, lines, internal):
        self.mod, self.name, self.header, self.lines, self.internal = mod, name, header, lines, internal
        self._blocks = None
        m = re.search(r'!dbg !(\d+)', header)
        self.dbg = int(m.group(1)) if m else None
        self._loops = None
    @property
    def key(self):
        return (self.mod.src + ":" + self.name) if self.internal else self.name
    def __repr__(self):
        return "<Func %s>" % self.key
    def _parse(self):
        if self._blocks is not None:
            return
        # parameters
        h = self.header
        i = h.index("@"); j = h.index("(", i)
        p = P(toks(h[j:]), self.mod)
        p.need("(")
        self.params = []; self.ptys = []; self.vararg = False
        while not p.eat(")"):
            if p.eat("..."):
                self.vararg = True
            else:
                ty = parse_type(p); skip_attrs(p)
                self.ptys.append(ty)
                nm = p.next() if p.peek() and p.peek()[0] == "%" else "%%%d" % len(self.params)
                self.params.append(nm[1:].strip('"'))
            p.eat(",")
        rt = h[:i].replace("define", "").split()
        pre = P(toks(h[:i]), self.mod); pre.next()
        while pre.peek() in ("dso_local", "internal", "linkonce_odr", "weak", "hidden", "private", "external", "available_externally", "local_unnamed_addr", "dso_preemptable"):
            pre.next()
        skip_attrs(pre)
        self.retty = parse_type(pre)
        blocks = {}; order = []
        cur = None; buf = None
        for ln in self.lines:
            if not ln:
                continue
            if ln[0] not in " \t":
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
                if m:
                    cur = m.group(1).strip('"'); blocks[cur] = []; order.append(cur)
                    continue
            if cur is None:
                cur = "entry0"; blocks[cur] = []; order.append(cur)
            if buf is not None:
                buf += " " + ln.strip()
                if ln.strip().startswith("]") or ln.strip() == "]":
                    ins = parse_ins(buf, self); buf = None
                    if ins: blocks[cur].append(ins)
                continue
            s = ln.strip()
            if s.startswith("switch ") and s.endswith("["):
                buf = s
                continue
            ins = parse_ins(s, self)
            if ins:
                blocks[cur].append(ins)
        self._blocks = blocks; self._order = order
    @property
    def blocks(self):
        self._parse(); return self._blocks
    @property
    def order(self):
        self._parse(); return self._order
    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == "br": return [t.a[0]]
        if t.op == "cbr": return [t.a[1], t.a[2]]
        if t.op == "switch": return [t.a[1]] + [x[1] for x in t.a[2]]
        if t.op == "ibr": return list(t.a[1])
        return []
    def loops(self):
        """header -> set of blocks (natural loops, merged per header)"""
        if self._loops is not None:
            return self._loops
        order = self.order
        reach = {order[0]}; w = [order[0]]
        while w:
            for s in self.succs(w.pop()):
                if s not in reach: reach.add(s); w.append(s)
        order = [b for b in order if b in reach]
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(b):
                preds[s].append(b)
        # dominators (iterative)
        entry = order[0]
        allb = set(order)
        dom = {b: allb for b in order}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == entry: continue
                ps = [dom[x] for x in preds[b]]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd; ch = True
        L = {}
        for b in order:
            for s in self.succs(b):
                if s in dom[b]:
                    body = L.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x); st.extend(preds[x])
        self._loops = L
        self.preds = preds
        return L
    def file(self):
        return self.mod.subfile(self.dbg)

def parse_ins(s, fn):
    dbg = None
    m = re.search(r', !dbg !(\d+)', s)
    if m:
        dbg = int(m.group(1)); s = s[:m.start()]
    # drop other trailing metadata
    s = re.sub(r', ![a-zA-Z_.]+ ![0-9]+', '', s)
    if "call void @llvm.dbg." in s or "llvm.lifetime" in s:
        return None
    if s.startswith("#dbg"):
        return None
    p = P(toks(s), fn.mod)
    res = None
    if p.peek() and p.peek()[0] == "%" and p.peek(1) == "=":
        res = p.next()[1:].strip('"'); p.next()
    op = p.next()
    while op in _FLAGS:
        op = p.next()
    vol = False
    while p.peek() in _FLAGS:
        if p.peek() == "volatile": vol = True
        p.next()
    I = None
    if op == "ret":
        ty = parse_type(p)
        I = Ins("ret", None, ty, [parse_val(p, ty)] if ty.k != "void" else [], dbg)
    elif op == "br":
        if p.eat("label"):
            I = Ins("br", None, None, [p.next()[1:].strip('"')], dbg)
        else:
            ty = parse_type(p); v = parse_val(p, ty); p.need(","); p.need("label")
            a = p.next()[1:].strip('"'); p.need(","); p.need("label"); b = p.next()[1:].strip('"')
            I = Ins("cbr", None, None, [v, a, b], dbg)
    elif op == "switch":
        ty = parse_type(p); v = parse_val(p, ty); p.need(","); p.need("label"); d = p.next()[1:].strip('"')
        p.need("["); cases = []
        while not p.eat("]"):
            t2 = parse_type(p); c = parse_val(p, t2); p.need(","); p.need("label")
            cases.append((c, p.next()[1:].strip('"')))
        I = Ins("switch", None, ty, [v, d, cases], dbg)
    elif op == "indirectbr":
        ty = parse_type(p); v = parse_val(p, ty); p.need(","); p.need("[")
        dst = []
        while not p.eat("]"):
            p.need("label"); dst.append(p.next()[1:].strip('"')); p.eat(",")
        I = Ins("ibr", None, None, [v, dst], dbg)
    elif op == "unreachable":
        I = Ins("unreachable", None, None, [], dbg)
    elif op == "alloca":
        ty = parse_type(p); n = ("i", 1, 64)
        if p.eat(","):
            if p.peek() != "align":
                t2 = parse_type(p); n = parse_val(p, t2)
        I = Ins("alloca", res, ty, [n], dbg)
    elif op == "load":
        ty = parse_type(p); p.need(","); t2 = parse_type(p); v = parse_val(p, t2)
        I = Ins("load", res, ty, [v], dbg, vol)
    elif op == "store":
        ty = parse_type(p); v = parse_val(p, ty); p.need(","); t2 = parse_type(p); q = parse_val(p, t2)
        I = Ins("store", None, ty, [v, q], dbg, vol)
    elif op == "getelementptr":
        src = parse_type(p); p.need(",")
        ops = []
        while p.peek() is not None:
            ty = parse_type(p); ops.append((ty, parse_val(p, ty)))
            if not p.eat(","): break
        I = Ins("gep", res, src, ops, dbg)
    elif op in ("icmp", "fcmp"):
        pred = p.next()
        while pred in _FLAGS: pred = p.next()
        ty = parse_type(p); a = parse_val(p, ty); p.need(","); b = parse_val(p, ty)
        I = Ins(op, res, ty, [a, b], dbg, pred)
    elif op in _BIN:
        ty = parse_type(p); a = parse_val(p, ty); p.need(","); b = parse_val(p, ty)
        I = Ins("bin", res, ty, [a, b], dbg, op)
    elif op == "fneg":
        ty = parse_type(p); a = parse_val(p, ty)
        I = Ins("bin", res, ty, [a, a], dbg, "fneg")
    elif op in _CAST:
        ty = parse_type(p); a = parse_val(p, ty); p.need("to"); t2 = parse_type(p)
        I = Ins("cast", res, t2, [a], dbg, (op, ty))
    elif op == "phi":
        ty = parse_type(p); inc = []
        while p.eat("["):
            v = parse_val(p, ty); p.need(","); b = p.next()[1:].strip('"'); p.need("]")
            inc.append((v, b)); p.eat(",")
        I = Ins("phi", res, ty, inc, dbg)
    elif op == "select":
        ty = parse_type(p); c = parse_val(p, ty); p.need(",")
        t1 = parse_type(p); a = parse_val(p, t1); p.need(","); t2 = parse_type(p); b = parse_val(p, t2)
        I = Ins("select", res, t1, [c, a, b], dbg)
    elif op == "freeze":
        ty = parse_type(p); a = parse_val(p, ty)
        I = Ins("copy", res, ty, [a], dbg)
    elif op == "call":
        while p.peek() in ("fastcc", "ccc", "coldcc") or p.peek() in _FLAGS: p.next()
        skip_attrs(p)
        ty = parse_type(p)
        if p.peek() == "asm":
            I = Ins("asm", res, ty, [], dbg, " ".join(p.t[p.i:]))
        else:
            callee = parse_val(p, PTR); p.need("(")
            args = []
            while not p.eat(")"):
                t2 = parse_type(p); skip_attrs(p)
                args.append((t2, parse_val(p, t2))); p.eat(",")
            I = Ins("call", res, ty, args, dbg, callee)
    elif op in ("extractvalue", "insertvalue", "extractelement", "insertelement", "shufflevector", "va_arg", "fence", "cmpxchg", "atomicrmw"):
        # generic: gather register operands only
        regs = [("r", t[1:].strip('"')) for t in p.t[p.i:] if t[0] == "%"]
        rest = " ".join(p.t[p.i:])
        I = Ins("other", res, None, regs, dbg, op + " " + rest)
    else:
        raise Broken("IR instruction: " + s[:120])
    I.fn = fn
    return I

class Module:
    def __init__(self, src, text):
        self.src = src
        self.types = {}
        self.globals = {}     # name -> (ty, init text or None, internal, const)
        self.funcs = {}
        self.decls = set()
        self.meta = {}
        self._metap = {}
        lines = text.split("\n")
        i = 0; n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("define "):
                body = []
                j = i + 1
                while lines[j] != "}":
                    body.append(lines[j]); j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                name = m.group(1).strip('"')
                internal = bool(re.search(r'\b(internal|private)\b', ln.split("@")[0]))
                self.funcs[name] = Func(self, name, ln, body, internal)
                i = j
            elif ln.startswith("%"):
                m = re.match(r'%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$', ln)
                if m:
                    self.types[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith("@"):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                self.globals[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith("declare "):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls.add(m.group(1).strip('"'))
            elif ln.startswith("!"):
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
            i += 1
        self._lay = {}
        self._glob = {}
    # ---- types
    def named(self, name):
        r = self._lay.get(name)
        if r is None:
            txt = self.types.get(name)
            if txt is None:
                raise Broken("unknown type %" + name)
            r = parse_type(P(toks(txt), self))
            self._lay[name] = r
        return r
    def res(self, ty):
        while ty.k == "named":
            ty = self.named(ty.name)
        return ty
    def align(self, ty):
        ty = self.res(ty)
        if ty.k == "int": return max(1, min(16, (ty.n + 7) // 8))
        if ty.k == "ptr": return 8
        if ty.k == "fp": return 16 if ty.n > 64 else ty.n // 8
        if ty.k == "arr": return self.align(ty.e)
        if ty.k == "vec": return max(1, ty.n * self.size(ty.e))
        if ty.k == "struct":
            return 1 if ty.n else max([self.align(e) for e in ty.e] or [1])
        raise Broken("align " + repr(ty))
    def size(self, ty):
        ty = self.res(ty)
        if ty.k == "int": return max(1, (ty.n + 7) // 8)
        if ty.k == "ptr": return 8
        if ty.k == "fp": return 16 if ty.n > 64 else ty.n // 8
        if ty.k in ("arr", "vec"): return ty.n * self.size(ty.e)
        if ty.k == "struct":
            offs, total = self.layout(ty)
            return total
        raise Broken("size " + repr(ty))
    def layout(self, ty):
        off = 0; offs = []
        al = 1
        for e in ty.e:
            a = 1 if ty.n else self.align(e)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(e)
        return offs, (off + al - 1) // al * al
    # ---- metadata
    def md(self, i):
        return self.meta.get(i, "")
    def attr(self, i, name):
        m = re.search(r'\b%s: (!\d+|"[^"]*"|[A-Za-z0-9_|]+)' % name, self.md(i))
        return m.group(1) if m else None
    def subfile(self, i):
        f = self.attr(i, "file") if i is not None else None
        if f and f[0] == "!":
            fn = self.attr(int(f[1:]), "filename")
            return fn.strip('"') if fn else None
        return None
    def loc(self, dbg):
        """(file, line) of a !dbg id"""
        if dbg is None:
            return (self.src, 0)
        line = self.attr(dbg, "line")
        sc = self.attr(dbg, "scope")
        seen = 0
        fn = None
        while sc and sc[0] == "!" and seen < 20:
            k = int(sc[1:])
            fn = self.subfile(k)
            if fn: break
            sc = self.attr(k, "scope"); seen += 1
        return (fn or self.src, int(line) if line else 0)
    def struct_fields(self, sname):
        """[(offset_bytes, name)] from debug info for struct tag sname"""
        for k, v in self.meta.items():
            if "DW_TAG_structure_type" in v and ('name: "%s"' % sname) in v and "elements:" in v:
                el = self.attr(k, "elements")
                out = []
                for mm in re.findall(r'!(\d+)', self.md(int(el[1:]))):
                    nm = self.attr(int(mm), "name"); off = self.attr(int(mm), "offset")
                    if nm:
                        out.append((int(off) // 8 if off else 0, nm.strip('"')))
                return out
        return None
