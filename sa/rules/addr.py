"""Addresses: C30.  Strings are objects with a symbolic length; what a library function reports about a string (the place of a
character, the extent of a number) becomes a relation between symbolic offsets, and every access is compared with the object's size."""
from .common import *
from .. import models as M
from ..machine import Machine, memfaults, internal_failure

UNIX, INET, INET6 = 1, 2, 10
SUN = 110            # sizeof(struct sockaddr_un)

def ends(st, b): return dict(st.aux.get("ends", ())).get(b, ())
def setends(st, b, v):
    d = dict(st.aux.get("ends", ())); d[b] = tuple(v); st.aux["ends"] = tuple(d.items())

class Str:
    """models of the string functions; self.at(e, fr, ins) names a place"""
    def __init__(self, R, fam="string"):
        self.R = R; self.n = {"access": 0, "strings": 0}
    def models(self):
        return {"strlen": self.strlen, "strdup": self.strdup, "strrchr": self.strrchr, "strchr": self.strchr, "strcpy": self.strcpy, "strtoimax": self.strto("strtoimax"), "strtol": self.strto("strtol"),
                "strtoumax": self.strto("strtoumax"), "strtoul": self.strto("strtoul"), "strncmp": self.opaque("strncmp"), "strcmp": self.opaque("strcmp"), "memcpy": self.memcpy, "memmove": self.memcpy, "llvm.memcpy": self.memcpy, "llvm.memmove": self.memcpy}
    def at(self, e, fr, ins): return "%s:%s in %s" % (e.loc(fr, ins)[0].split("/repo/")[-1], e.loc(fr, ins)[1], fr.fn.name.replace("libcperciva_", ""))
    def new(self, st, base, first=None):
        """alternatives for the length of an unknown string"""
        out = []
        for k in (0, 1, 2):
            s = st.fork()
            if k == 2:
                L = atom("len", base, nn=True); s.wfacts(); s.iv[L] = (2, 2 ** 62)
            else: L = c(k)
            r = mem_region(s, base)
            s.wmem()[base] = Region(r.d, r.segs, r.freed, addc(L, 1))
            mem_write(s, base, L, c(1), ZERO)
            if k:
                s.assume(mk("eq0", mem_read(s, base, ZERO, 1, False)), False)
            setends(s, base, (L,))
            out.append((s, L))
        return out
    def end(self, st, p):
        """offset of the terminator of the string at p, or None"""
        b, o = base_off(st.simp(p))
        if b is None: return None
        best = None
        for E in ends(st, b):
            if st.lb(sub(E, o)) < 0: continue
            if best is None or st.lb(sub(best, E)) >= 0: best = E
        return best
    def need(self, e, st, fr, ins, p, what):
        E = self.end(st, p)
        self.n["strings"] += 1
        if E is None:
            b, o = base_off(st.simp(p))
            if not self.R.ok(False, "terminated-string", self.at(e, fr, ins), "%s is applied to something not known to be a terminated string (%s)" % (what, show(p)), st): return None
        return E
    def strlen(self, e, st, fr, a, ins):
        E = self.need(e, st, fr, ins, a[0], "strlen")
        if E is None: return [(st, "unreachable")]
        return [(st, st.simp(sub(E, base_off(st.simp(a[0]))[1])))]
    def strdup(self, e, st, fr, a, ins):
        E = self.need(e, st, fr, ins, a[0], "strdup")
        if E is None: return [(st, "unreachable")]
        b, o = base_off(st.simp(a[0])); n = st.simp(addc(sub(E, o), 1))
        s2 = st.fork(); e.event(s2, "call", "strdup", tuple(a), ZERO, fr, ins); M.set_errno(s2, "strdup")
        t = M.new_heap(e, st, fr, ins, "strdup", n, False)
        st.assume(mk("eq0", t), False)
        mem_write(st, t, ZERO, n, content(st, b, o, n))
        setends(st, t, (sub(E, o),))
        e.event(st, "call", "strdup", tuple(a), t, fr, ins)
        return [(st, t), (s2, ZERO)]
    def strrchr(self, e, st, fr, a, ins, last=True):
        nm = "strrchr" if last else "strchr"
        E = self.need(e, st, fr, ins, a[0], nm)
        if E is None: return [(st, "unreachable")]
        p = st.simp(a[0]); b, o = base_off(p); n = st.simp(sub(E, o)); ch = st.simp(a[1])
        out = []
        s = st.fork(); e.event(s, "call", nm, (p, ch), ZERO, fr, ins); s.aux["nochr"] = s.aux.get("nochr", ()) + ((p, ch),)
        # not in it at all: in particular it is not the first character
        if n is ZERO or s.assume(mk("eq0", sub(mem_read(s, b, o, 1, False), ch)), False) is not False: out.append((s, ZERO))
        if n is not ZERO:
            s = st.fork()
            if s.assume(mk("eq0", sub(mem_read(s, b, o, 1, False), ch)), True) is not False:
                e.event(s, "call", nm, (p, ch), p, fr, ins); out.append((s, p))
            kinds = []
            if st.ub(sub(n, c(1))) > 0: kinds = [1, 2]
            for k in kinds:
                s = st.fork()
                if k == 1: K = ONE
                else:
                    K = atom("pos", st.fresh(), nn=True); s.wfacts(); s.iv[K] = (2, 2 ** 62)
                if s.assume(mk("lt0", sub(K, n)), True) is False: continue
                if s.assume(mk("eq0", sub(mem_read(s, b, add(o, K), 1, False), ch)), True) is False: continue
                r = add(p, K)
                e.event(s, "call", nm, (p, ch), r, fr, ins); out.append((s, r))
        return out
    def strchr(self, e, st, fr, a, ins): return self.strrchr(e, st, fr, a, ins, False)
    def strcpy(self, e, st, fr, a, ins):
        R = self.R
        E = self.need(e, st, fr, ins, a[1], "strcpy")
        if E is None: return [(st, "unreachable")]
        b, o = base_off(st.simp(a[1])); n = st.simp(addc(sub(E, o), 1))
        db, do = base_off(st.simp(a[0]))
        v = content(st, b, o, n)
        e.event(st, "call", "strcpy", tuple(a), a[0], fr, ins, (n, v))
        self.store(e, st, db, do, n, v, fr, ins)
        mem_write(st, db, do, n, v)
        setends(st, db, ends(st, db) + (st.simp(add(do, addc(n, -1))),))
        return [(st, a[0])]
    def strto(self, nm):
        def f(e, st, fr, a, ins):
            E = self.need(e, st, fr, ins, a[0], nm)
            if E is None: return [(st, "unreachable")]
            p = st.simp(a[0]); b, o = base_off(p); n = st.simp(sub(E, o)); eb = base_off(st.simp(a[1]))
            out = []
            def put(s, endp, r, k):
                if st.isnull(a[1]) is not True: mem_write(s, eb[0], eb[1], c(8), endp)
                e.event(s, "call", nm, (p, a[1], a[2]), r, fr, ins, k); out.append((s, r))
            put(st.fork(), p, ZERO, "none")
            if st.ub(n) > 0:
                s = st.fork()
                if s.assume(mk("lt0", sub(ZERO, n)), True) is not False:
                    r = atom("num", st.fresh()); put(s, add(p, n), r, "all")
            if st.ub(n) > 1:
                s = st.fork(); K = atom("stop", st.fresh(), nn=True); s.wfacts(); s.iv[K] = (1, 2 ** 62)
                if s.assume(mk("lt0", sub(K, n)), True) is not False:
                    s.assume(mk("eq0", mem_read(s, b, add(o, K), 1, False)), False)
                    r = atom("num", st.fresh()); put(s, add(p, K), r, "part")
            # out of the type's range
            if st.ub(n) > 0:
                s = st.fork()
                if s.assume(mk("lt0", sub(ZERO, n)), True) is not False:
                    mem_write(s, glob("errno"), ZERO, c(4), c(34)); put(s, add(p, n), c(2 ** 63 - 1), "range")
            return out
        return f
    def memcpy(self, e, st, fr, a, ins):
        """copying a terminated string copies its terminator"""
        sb, so = base_off(st.simp(a[1])); db, do = base_off(st.simp(a[0])); n = st.simp(a[2])
        E = [x for x in ends(st, sb) if st.lb(sub(x, so)) >= 0 and st.ub(st.simp(sub(x, addc(add(so, n), -1)))) <= 0] if sb is not None else []
        out = M.m_memcpy(e, st, fr, a, ins)
        if E and db is not None: setends(st, db, ends(st, db) + tuple(st.simp(add(do, sub(x, so))) for x in E))
        return out
    def opaque(self, nm):
        def f(e, st, fr, a, ins):
            r = mk("ret", nm, st.fresh())
            e.event(st, "call", nm, tuple(a), r, fr, ins)
            return [(st, r)]
        return f
    # every access
    def fits(self, e, st, base, off, size, fr, ins, what):
        r = st.mem.get(base)
        if r is None or r.size is None or base.op not in ("heap", "param", "f"): return
        self.n["access"] += 1
        z = r.size if isinstance(r.size, T) else c(r.size)
        n = size if isinstance(size, T) else c(size)
        o = st.simp(off)
        self.R.ok(st.lb(o) >= 0 and st.ub(st.simp(sub(add(o, n), z))) <= 0, "within-object", self.at(e, fr, ins),
                  "%s %s bytes at offset %s of an object of %s bytes (%s)" % (what, show(n), show(o), show(z), show(base)), st)
        if base.op == "heap":
            self.R.ok(st.isnull(base) is False, "allocation-checked", self.at(e, fr, ins), "memory from %s is used without a check that it was obtained" % base.a[0], st)
    def load(self, e, st, base, off, size, fr, ins): self.fits(e, st, base, off, size, fr, ins, "reads")
    def store(self, e, st, base, off, size, v, fr, ins):
        self.fits(e, st, base, off, size, fr, ins, "writes")
        E = ends(st, base)
        if (E or base.op == "heap") and size in (1, ONE):
            if v is ZERO: setends(st, base, E + (st.simp(off),))
            else: setends(st, base, [x for x in E if st.simp(sub(x, off)) is not ZERO])

def m_swap16(e, st, fr, a, ins): return [(st, bswap16(st.simp(a[0])))]
def bswap16(t):
    if t.op == "c": x = t.a[0] & 0xffff; return c(((x & 255) << 8) | (x >> 8))
    return mk("bswap16", t)

class Resolve(Str):
    def __init__(self, R, nlist=2):
        super().__init__(R)
        self.nlist = nlist
        ms = self.models()
        ms.update({"getaddrinfo": self.getaddrinfo, "freeaddrinfo": self.freeaddrinfo, "inet_pton": self.inet_pton, "gai_strerror": self.opaque("gai_strerror"), "htons": m_swap16,
                   "__bswap_16": m_swap16, "asprintf": self.asprintf, "abort": self.abort})
        self.m = Machine(R, models=ms, merge=False, unroll_mem=True, peel=False, unroll_all=nlist + 4, on_load=self.load, on_store=self.store, memevents=True)
        for k in ("sock_resolve", "sock_addr_ensure_port", "sock_resolve_one", "sock_addr_freelist", "sock_addr_free", "sock_addr_validate", "sock_addr_dup", "sock_addr_duplist"): self.m.e.cfg.nofollow.add(k); self.m.e.cfg.models.pop(k, None)
    def abort(self, e, st, fr, a, ins):
        e.event(st, "call", "abort", (), None, fr, ins); return [(st, "unreachable")]
    def getaddrinfo(self, e, st, fr, a, ins):
        out = []
        self.need(e, st, fr, ins, a[0], "getaddrinfo")
        if st.isnull(a[1]) is not True: self.need(e, st, fr, ins, a[1], "getaddrinfo")
        hb, ho = base_off(st.simp(a[2]))
        x = (tuple(mem_read(st, hb, addc(ho, i), 4, False) for i in (0, 4, 8, 12)) if hb is not None else None, self.text(st, a[0]), self.text(st, a[1]))
        s = st.fork(); r = mk("ret", "getaddrinfo", st.fresh()); s.assume(mk("eq0", r), False)
        e.event(s, "call", "getaddrinfo", tuple(a), r, fr, ins, x); M.set_errno(s, "getaddrinfo"); out.append((s, r))
        for n in range(0, self.nlist + 1):
            s = st.fork(); k = st.fresh()
            nodes = [atom("gai", k, i, p=True, nn=True) for i in range(n)]
            for i, g in enumerate(nodes):
                ln = atom("gailen", k, i, nn=True); s.wfacts(); s.iv[ln] = (1, 128)
                nm = atom("gainame", k, i, p=True, nn=True)
                s.wmem()[nm] = Region(("init", ("gai", k)), (), None, ln)
                s.wmem()[g] = Region(("init", ("gai", k)), (), None, 48)
                mem_write(s, g, c(16), c(4), ln); mem_write(s, g, c(24), c(8), nm)
                mem_write(s, g, c(40), c(8), nodes[i + 1] if i + 1 < n else ZERO)
            rb, ro = base_off(s.simp(a[3]))
            mem_write(s, rb, ro, c(8), nodes[0] if nodes else ZERO)
            e.event(s, "call", "getaddrinfo", tuple(a), ZERO, fr, ins, x)
            s.aux["gai"] = (tuple(nodes), 0)
            out.append((s, ZERO))
        return out
    def freeaddrinfo(self, e, st, fr, a, ins):
        nodes, n = st.aux.get("gai", ((), 0))
        st.aux["gai"] = (nodes, n + 1)
        p = st.simp(a[0])
        ev = e.event(st, "call", "freeaddrinfo", tuple(a), None, fr, ins)
        self.R.ok(p is (nodes[0] if nodes else ZERO), "result-list-freed", self.at(e, fr, ins), "freeaddrinfo of %s, which is not the list returned" % show(p), st)
        if n: e.event(st, "mem", "double-free", (p,), None, fr, ins)
        for g in nodes:
            for b in (g, mem_read(st, g, c(24), 8, True)):
                r = mem_region(st, b); st.wmem()[b] = Region(r.d, r.segs, ev, r.size)
        return [(st, None)]
    def inet_pton(self, e, st, fr, a, ins):
        E = self.need(e, st, fr, ins, a[1], "inet_pton")
        n = {INET: 4, INET6: 16}.get(cv(st.simp(a[0])))
        t = self.text(st, a[1])
        s = st.fork(); r = mk("ret", "inet_pton", st.fresh()); s.wfacts(); s.iv[r] = (-1, 0)
        e.event(s, "call", "inet_pton", tuple(a), r, fr, ins, t); M.set_errno(s, "inet_pton")
        if n is None: return [(s, c(-1))]
        b, o = base_off(st.simp(a[2]))
        v = mk("b.fn", "ADDR", t if t is not None else ZERO, c(n))
        self.store(e, st, b, o, c(n), v, fr, ins); mem_write(st, b, o, c(n), v)
        e.event(st, "call", "inet_pton", tuple(a), ONE, fr, ins, t)
        return [(st, ONE), (s, r)]
    def text(self, st, p):
        """the characters of the string at p"""
        if st.isnull(p) is True: return None
        E = self.end(st, p)
        if E is None: return None
        b, o = base_off(st.simp(p))
        return content(st, b, o, st.simp(sub(E, o)))
    def asprintf(self, e, st, fr, a, ins):
        b, o = base_off(st.simp(a[0]))
        s = st.fork(); e.event(s, "call", "asprintf", tuple(a), c(-1), fr, ins); M.set_errno(s, "asprintf")
        fmt = cstring(e, st, a[1])
        for x in a[2:]:
            if fmt and "%s" in fmt: self.need(e, st, fr, ins, x, "%s"); break
        L = atom("fmtlen", st.fresh(), nn=True); st.wfacts(); st.iv[L] = (0, 2 ** 62)
        t = M.new_heap(e, st, fr, ins, "asprintf", addc(L, 1), False); st.assume(mk("eq0", t), False)
        mem_write(st, t, L, c(1), ZERO); setends(st, t, (L,))
        mem_write(st, b, o, c(8), t)
        e.event(st, "call", "asprintf", tuple(a), L, fr, ins, (fmt, tuple(self.text(st, x) if self.end(st, x) is not None else x for x in a[2:])))
        return [(st, L), (s, c(-1))]

def cstring(e, st, p):
    from .opts import cstr
    try: return cstr(e, st, p)
    except Exception: return None

def leaks(R, st, roots, at, rule):
    """memory obtained on the path, still allocated, and not reachable from what the caller gets"""
    seen = set(); todo = [base_off(st.simp(x))[0] for x in roots]
    while todo:
        b = todo.pop()
        if b is None or b in seen or b not in st.mem: continue
        seen.add(b)
        for o, z, v in st.mem[b].segs:
            if isinstance(v, T) and not v.op.startswith("b."):
                q = base_off(st.simp(v))[0]
                if q is not None and q.p: todo.append(q)
    for b, r in st.mem.items():
        if b.op == "heap" and r.freed is None and st.isnull(b) is not True and b not in seen:
            R.ok(False, rule, at, "the memory from %s (line %s) is lost" % (b.a[0], b.a[2] if len(b.a) > 2 else "?"), st)
    R.ok(True, rule, at, "")
    return seen

ADDR_LEAK = ("nothing-lost", "result-list-freed", "memory-safe")
def C30(R):
    """sock_resolve and what it calls are analysed for every string: its length is a symbol (cases 0, 1, longer), library functions
    report the last colon, the extent of a number and the validity of a numeric address in every way they can.  Every access must lie
    inside its object; each way an address can be accepted must satisfy the conditions of its form, and the returned address must hold
    exactly the path, or the parsed numeric address and port."""
    run30(Only(R, lambda r: r not in ADDR_LEAK[:2]))

def run30(R):
    A = Resolve(R, 2 if R.tier == "quick" else 4)
    f = R.prog.need("sock_resolve")
    P = params(f)[0]
    n = {"unix": 0, "bracket": 0, "host": 0, "refused": 0}
    for st0, L in A.new(State(), P):
        st0.assume(mk("eq0", P), False)
        ts = A.m.call(f, [P], st0, "sock_resolve")
        for t in ts: resolve_path(R, A, t, P, L, n)
    for t in A.m.aborts: R.ok(False, "no-assertion", "%s" % locs(t.evs[-1]), "an address makes an assertion fail", t.st)
    for k, lo in (("unix", 1), ("bracket", 2), ("host", 2), ("refused", 4)):
        if not R.viol: R.need(n[k], k + "-addresses", lo)
    R.used(A.m.e)
    R.notes.append("accepted as a path: %(unix)d, in brackets: %(bracket)d, by name: %(host)d; refused: %(refused)d" % n)
    R.notes.append("accesses compared with an object's size: %d; string arguments: %d" % (A.n["access"], A.n["strings"]))
    R.need(A.n["access"], "accesses", 20)
    ensure_port(R, A)
    resolve_one(R)
    duplist(R)

def duplist(R):
    """a copy of a list holds a copy of every address, in order, and ends there"""
    f = R.prog.need("sock_addr_duplist"); P = params(f)[0]; n = 0
    for k in range(3 if R.tier == "quick" else 6):
        m = Machine(R, merge=False, unroll_mem=True, unroll_all=k + 2)
        for x in ("sock_addr_duplist", "sock_addr_dup", "sock_addr_freelist", "sock_addr_free"): m.e.cfg.nofollow.add(x); m.e.cfg.models.pop(x, None)
        st = State(); st.assume(mk("eq0", P), False)
        g = [(atom("gai", 0, i, p=True, nn=True), atom("gainame", 0, i, p=True, nn=True), atom("gailen", 0, i, nn=True)) for i in range(k)]
        for i, (a, nm, ln) in enumerate(g):
            st.wfacts(); st.iv[ln] = (1, 128)
            st.wmem()[nm] = Region(("init", ("gai", 0)), (), None, ln); st.wmem()[a] = Region(("init", ("gai", 0)), (), None, 24)
            mem_write(st, a, c(8), c(8), nm); mem_write(st, a, c(16), c(4), ln)
            mem_write(st, P, c(8 * i), c(8), a)
        mem_write(st, P, c(8 * k), c(8), ZERO)
        for t in m.call(f, [P], st, "sock_addr_duplist"):
            if isinstance(t.ret, str): continue
            s = t.st; at = "sock_addr_duplist of %d, %s" % (k, locs(t.evs[-1]) if t.evs else "")
            r = s.simp(t.ret)
            if s.isnull(r) is True:
                R.ok(internal_failure(t.evs, s), "list-copied", at, "no copy is made", s); continue
            n += 1; b, o = base_off(r)
            for i, (a, nm, ln) in enumerate(g):
                q = s.simp(mem_read(s, b, addc(o, 8 * i), 8, True)); qb, qo = base_off(q)
                if not R.ok(qb is not None and qb.op == "heap" and s.mem[qb].freed is None, "list-copied", at, "address %d of the copy is %s" % (i + 1, show(q)), s): break
                R.ok(all(s.simp(mem_read(s, qb, addc(qo, x), 4, False)) is s.simp(mem_read(s, a, c(x), 4, False)) for x in (0, 4, 16)), "list-copied", at, "family, type or length of address %d differ in the copy" % (i + 1), s)
                nb, no = base_off(s.simp(mem_read(s, qb, addc(qo, 8), 8, True)))
                R.ok(nb is not None and nb is not nm and same(s, content(s, nb, no, ln), mk("b.mem", nm, ("init", ("gai", 0)), ZERO, ln)), "list-copied", at, "the bytes of address %d differ in the copy" % (i + 1), s)
            R.ok(s.simp(mem_read(s, b, addc(o, 8 * k), 8, True)) is ZERO, "list-ended", at, "the copy of a list of %d is not ended after as many" % k, s)
        R.used(m.e)
    if not R.viol: R.need(n, "lists-copied", 3)

def ensure_port(R, A):
    """the address used for an address that may lack a port"""
    f = R.prog.need("sock_addr_ensure_port"); P = params(f)[0]; n = {"same": 0, "added": 0}
    for st0, L in A.new(State(), P):
        if L is ZERO: continue                  # never used with an empty address
        st0.assume(mk("eq0", P), False)
        for t in A.m.call(f, [P], st0, "sock_addr_ensure_port"):
            st = t.st; at = "sock_addr_ensure_port, %s" % (locs(t.evs[-1]) if t.evs else "")
            for e in memfaults(t.evs): R.ok(False, "memory-safe", locs(e), "%s of %s" % (e.name, show(e.args[0]) if e.args else ""), e.st)
            if isinstance(t.ret, str): continue
            r = st.simp(t.ret)
            if st.isnull(r) is True:
                R.ok(internal_failure(t.evs, st), "port-added", at, "no address comes back", st); leaks(R, st, [], at, "nothing-lost"); continue
            q = A_content(st, P, t.pre); b, o = base_off(r)
            pr = [e for e in evs(t, "asprintf") if base_off(st.simp(mem_read(e.st, *base_off(st.simp(e.args[0])), 8, True)))[0] is b]
            added = bool(pr)
            if added: good = pr[0].x[0] == "%s:0" and len(pr[0].x[1]) == 1 and isinstance(pr[0].x[1][0], T) and same(st, pr[0].x[1][0], q)
            else: good = b is not P and same(st, A.text(st, r), q) if A.text(st, r) is not None else False
            R.ok(good, "port-added", at, "the address that comes back is neither the given one nor the given one followed by :0", st)
            n["added" if added else "same"] += 1
            slash, brack, colon0 = (is_ch(st, first(st, P), x) for x in "/[:")
            cr = [e for e in evs(t, "strrchr") if e.args[1] is c(58)]
            if slash is True: R.ok(not added, "port-only-added", at, "a port is added to a path", st)
            elif cr and st.isnull(cr[0].ret) is True: R.ok(added, "port-missing-added", at, "an address without any colon gets no port", st)
            elif cr and brack is False: R.ok(not added, "port-only-added", at, "a second port is added to a host name that has one", st)
            elif cr and brack is True:
                v = mem_read(st, P, st.simp(addc(sub(cr[0].ret, P), -1)), 1, False) if st.lb(sub(cr[0].ret, addc(P, 1))) >= 0 else None
                if v is not None and is_ch(st, v, "]") is not None: R.ok(added == (is_ch(st, v, "]") is False), "port-missing-added", at, "a numeric address %s a port %s one" % (("with", "gets another") if added else ("without", "does not get")), st)
            leaks(R, st, [r], at, "nothing-lost")
    R.used(A.m.e)
    if not R.viol: R.need(min(n.values()), "ports-added-or-not", 2)

def m_list(nmax):
    """a function that makes a list of 0..nmax addresses"""
    def f(e, st, fr, a, ins):
        out = []
        s = st.fork(); e.event(s, "call", "sock_resolve", tuple(a), ZERO, fr, ins); M.set_errno(s, "sock_resolve"); out.append((s, ZERO))
        for n in range(nmax + 1):
            s = st.fork()
            l = M.new_heap(e, s, fr, ins, "sock_resolve", c(8 * (n + 1)), False); s.assume(mk("eq0", l), False)
            sas = []
            for i in range(n):
                x = M.new_heap(e, s, fr, ins, "sock_resolve", c(24), False); y = M.new_heap(e, s, fr, ins, "sock_resolve", atom("namelen", s.fresh(), nn=True), False)
                for z in (x, y): s.assume(mk("eq0", z), False)
                mem_write(s, x, c(8), c(8), y); mem_write(s, l, c(8 * i), c(8), x); sas.append(x)
            mem_write(s, l, c(8 * n), c(8), ZERO)
            e.event(s, "call", "sock_resolve", tuple(a), l, fr, ins, tuple(sas)); out.append((s, l))
        return out
    return f

def resolve_one(R):
    """only the first of the addresses found, and nothing else, comes back"""
    f = R.prog.need("sock_resolve_one"); n = {0: 0, 1: 0}
    ens = lambda e, st, fr, a, ins: M.MODELS["strdup"](e, st, fr, a, ins)
    def ensure(e, st, fr, a, ins):
        s = st.fork(); e.event(s, "call", "sock_addr_ensure_port", tuple(a), ZERO, fr, ins); M.set_errno(s, "malloc")
        t = M.new_heap(e, st, fr, ins, "sock_addr_ensure_port", None, False); st.assume(mk("eq0", t), False)
        e.event(st, "call", "sock_addr_ensure_port", tuple(a), t, fr, ins)
        return [(st, t), (s, ZERO)]
    m = Machine(R, models={"sock_resolve": m_list(3 if R.tier == "quick" else 5), "sock_addr_ensure_port": ensure}, merge=False, unroll_mem=True, unroll_all=9)
    for k in ("sock_resolve_one", "sock_addr_freelist", "sock_addr_free"): m.e.cfg.nofollow.add(k); m.e.cfg.models.pop(k, None)
    for addport in (0, 1):
        st = State(); P = params(f)[0]
        st.assume(mk("eq0", P), False)
        for t in m.call(f, [P, c(addport)], st, "sock_resolve_one"):
            s = t.st; at = "sock_resolve_one(%d), %s" % (addport, locs(t.evs[-1]) if t.evs else "")
            for e in memfaults(t.evs): R.ok(False, "memory-safe", locs(e), "%s of %s" % (e.name, show(e.args[0]) if e.args else ""), e.st)
            if isinstance(t.ret, str): continue
            r = s.simp(t.ret)
            found = [e for e in evs(t, "sock_resolve") if e.ret is not ZERO]
            ens = evs(t, "sock_addr_ensure_port")
            R.ok(len(ens) == addport, "port-added-when-asked", at, "a missing port is%s added" % ("" if ens else " not"), s)
            for e in evs(t, "sock_resolve"): R.ok(s.simp(e.args[0]) is (s.simp(ens[0].ret) if ens else P), "address-resolved", at, "resolves %s" % show(e.args[0]), s)
            if s.isnull(r) is True:
                R.ok(not found or not found[0].x, "first-address", at, "an address was found and is refused", s)
            else:
                n[addport] += 1
                R.ok(found and found[0].x and r is found[0].x[0], "first-address", at, "%s comes back, not the first address found" % show(r), s)
            leaks(R, s, [] if s.isnull(r) is True else [r], at, "nothing-lost")
            for b, g in s.mem.items():
                if s.isnull(r) is not True and b in (r, mem_read(s, r, c(8), 8, True)): R.ok(g.freed is None, "first-address", at, "the address that comes back was freed", s)
    R.used(m.e)
    if not R.viol: R.need(min(n.values()), "single-addresses", 3)

def first(st, P):
    return mem_read(st, P, ZERO, 1, False)

def evs(t, *names): return [e for e in t.evs if e.kind == "call" and e.name in names]

def is_ch(st, v, ch):
    """True / False / None"""
    return st.iszero(sub(st.simp(v), c(ord(ch))))

def resolve_path(R, A, t, P, L, n):
    st = t.st
    for e in memfaults(t.evs): R.ok(False, "memory-safe", locs(e), "%s of %s" % (e.name, show(e.args[0]) if e.args else ""), e.st)
    if isinstance(t.ret, str): return
    at = "sock_resolve, %s" % (locs(t.evs[-1]) if t.evs else "")
    r = st.simp(t.ret)
    ok = st.isnull(r) is not True
    c0 = first(t.pre, P)
    b0 = st.simp(c0)
    slash, brack, colon = (is_ch(st, b0, x) for x in "/[:")
    empty = L is ZERO
    if not ok:
        n["refused"] += 1
        # a refusal has a reason
        why = internal_failure(t.evs, st) or [e for e in evs(t, "getaddrinfo", "inet_pton") if not (e.ret is (ONE if e.name == "inet_pton" else ZERO))]
        if not why and slash is True:
            R.ok(L.op != "c" and st.lb(sub(L, c(108))) >= 0, "fitting-path-accepted", at, "a path of at most 107 characters is refused", st)
        if not why and not empty and colon is not True and slash is not True and brack is not True:
            R.ok(any(e.ret is ZERO for e in evs(t, "strrchr")), "name-looked-up", at, "a host and port are refused without being looked up", st)
        leaks(R, st, [], at, "nothing-lost")
        if evs(t, "getaddrinfo") and evs(t, "getaddrinfo")[-1].ret is ZERO: R.ok(st.aux["gai"][1] == 1, "result-list-freed", at, "the list from the lookup is freed %d times" % st.aux["gai"][1], st)
        return
    R.ok(not empty and colon is not True, "malformed-refused", at, "%s is accepted" % ("an empty address" if empty else "an address without a host"), st)
    lookups = evs(t, "getaddrinfo"); ptons = evs(t, "inet_pton")
    if lookups:
        n["host"] += 1
        R.ok(slash is False and brack is False, "form-decides", at, "an address starting with / or [ is looked up as a host name", st)
        last = lastcolon(st, t, P)
        if R.ok(last is not None, "port-required", at, "a host without a port is looked up", st):
            e = lookups[-1]; x = e.x
            q = A_content(st, P, t.pre)
            R.ok(len(lookups) == 1 and same(st, x[1], bslice(st, q, ZERO, last)) and same(st, x[2], bslice(st, q, addc(last, 1), sub(L, addc(last, 1)))), "host-and-port", at,
                 "the host and port looked up (%s, %s) are not what stands before and after the last colon" % (show(x[1]) if x[1] is not None else "?", show(x[2]) if x[2] is not None else "?"), st)
            R.ok(x[0] is not None and [cv(st.simp(v)) for v in x[0][1:3]] == [0, 1], "lookup-hints", at, "the lookup is not for stream sockets of any family: %s" % (x[0],), st)
        copies(R, A, t, r, at)
    elif ptons:
        n["bracket"] += 1
        e = ptons[-1]
        R.ok(brack is True, "form-decides", at, "an address that does not start with [ is taken as numeric", st)
        last = lastcolon(st, t, P)
        if not R.ok(last is not None, "port-required", at, "a numeric address without a port is accepted", st): return
        q = A_content(st, P, t.pre)
        # the closing bracket
        cl = bytes_val(bslice(st, q, addc(last, -1), ONE), 1, False)
        R.ok(is_ch(st, cl, "]") is True or closing(st, t, last), "closing-bracket", at, "a numeric address is accepted though the character before the last colon is not known to be the closing bracket", st)
        R.ok(same(st, e.x, bslice(st, q, ONE, addc(last, -2))), "numeric-text", at, "the numeric address parsed (%s) is not the text between the brackets" % (show(e.x) if e.x is not None else "?"), st)
        nums = evs(t, "strtoimax", "strtoumax", "strtol", "strtoul")
        ports = [v for v in nums if same_ptr_text(A, st, v, q, last, L)]
        if R.ok(ports, "port-parsed", at, "a numeric address is accepted without its port having been parsed", st):
            v = ports[-1]
            lo, hi = st.bounds(st.simp(v.ret))
            R.ok(cv(st.simp(v.args[2])) == 10, "port-decimal", at, "the port is parsed in base %s" % show(v.args[2]), st)
            R.ok(v.x == "all", "port-complete", at, "a port that %s is accepted" % {"none": "is no number", "part": "has something after the number", "range": "is out of range"}[v.x] if v.x != "all" else "", st)
            R.ok(lo >= 1 and hi <= 65535, "port-range", at, "ports from %s to %s are accepted" % (lo, hi), st)
            numeric(R, A, t, r, e, v.ret, at)
        fam = cv(st.simp(e.args[0]))
        col = [x for x in evs(t, "strchr", "strrchr")[1:] if x.args[1] is c(58)]
        if fam in (INET, INET6) and col: R.ok((fam == INET6) == (st.isnull(col[-1].ret) is not True), "family-by-colon", at, "an address %s a colon is parsed as family %s" % ("without" if fam == INET6 else "with", fam), st)
    else:
        n["unix"] += 1
        R.ok(slash is True, "form-decides", at, "an address that is no path is accepted without a lookup or numeric parsing", st)
        sa, name, nl, fam = one_result(R, A, st, r, at)
        if sa is None: return
        q = A_content(st, P, t.pre)
        R.ok(fam is c(UNIX) and nl is c(SUN), "path-address", at, "a path gives an address of family %s and length %s" % (show(fam), show(nl)), st)
        R.ok(mem_read(st, name, ZERO, 2, False) is c(UNIX), "path-address", at, "the address structure has family %s" % show(mem_read(st, name, ZERO, 2, False)), st)
        R.ok(st.ub(sub(L, c(107))) <= 0, "path-fits", at, "a path of up to %s characters is accepted; 107 and a terminator fit" % (st.ub(L),), st)
        got = content(st, name, c(2), addc(L, 1)) if st.ub(sub(L, c(107))) <= 0 else None
        if got is not None:
            R.ok(same(st, got, bcat([q, mk("b.const", b"\0")])), "path-kept", at, "the path in the address is %s" % show(got), st)
    leaks(R, st, [r], at, "nothing-lost")

def A_content(st, P, pre):
    E = dict(pre.aux["ends"])[P][0]
    return content(pre, P, ZERO, E)
def same(st, x, y): return x is not None and (b_eq(st, x, y) or st_eq(st, x, y))
def st_eq(st, x, y):
    """equal up to offsets equal in this state"""
    if x is y: return True
    if x.op == "b.mem" and y.op == "b.mem":
        return x.a[0] is y.a[0] and x.a[1] == y.a[1] and st.simp(sub(x.a[2], y.a[2])) is ZERO and st.simp(sub(x.a[3], y.a[3])) is ZERO
    if st.simp(bsize(x)) is ZERO and st.simp(bsize(y)) is ZERO: return True
    if x.op == "b.cat" and y.op == "b.cat" and len(x.a) == len(y.a): return all(st_eq(st, p, q) for p, q in zip(x.a, y.a))
    return False

def lastcolon(st, t, P):
    """offset of the last colon the code found, relative to the whole string"""
    for e in evs(t, "strrchr"):
        if e.args[1] is c(58) and st.isnull(e.ret) is not True:
            b, o = base_off(st.simp(e.args[0]))
            if o is ZERO: return st.simp(sub(e.ret, e.args[0]))
    return None

def closing(st, t, last):
    """the copy that was examined has the bracket before the colon"""
    e = [x for x in evs(t, "strrchr") if x.args[1] is c(58)][0]
    b = base_off(st.simp(e.args[0]))[0]
    v = mem_read(e.st, b, addc(last, -1), 1, False)
    return is_ch(st, v, "]") is True

def same_ptr_text(A, st, v, q, last, L):
    x = A.text(v.st, v.args[0])
    if x is None: return False
    return same(st, x, bslice(st, q, addc(last, 1), sub(L, addc(last, 1))))

def one_result(R, A, st, r, at):
    """the single address of a returned list"""
    lb, lo = base_off(r)
    sa = mem_read(st, lb, lo, 8, True); nx = mem_read(st, lb, addc(lo, 8), 8, True)
    if not R.ok(st.isnull(sa) is not True and st.isnull(nx) is True, "one-address", at, "the result is not a list of exactly one address", st): return None, None, None, None
    b, o = base_off(st.simp(sa))
    fam = st.simp(mem_read(st, b, o, 4, False)); typ = st.simp(mem_read(st, b, addc(o, 4), 4, False))
    name = st.simp(mem_read(st, b, addc(o, 8), 8, True)); nl = st.simp(mem_read(st, b, addc(o, 16), 4, False))
    R.ok(typ is ONE, "stream-socket", at, "the socket type is %s" % show(typ), st)
    nb, no = base_off(name)
    if not R.ok(nb is not None and nb in st.mem and st.mem[nb].freed is None, "address-structure", at, "the address has no structure", st): return None, None, None, None
    z = st.mem[nb].size
    R.ok(z is not None and st.ub(st.simp(sub(nl, z if isinstance(z, T) else c(z)))) <= 0, "length-fits", at, "the recorded length %s is more than the structure has" % show(nl), st)
    return sa, nb, nl, fam

def numeric(R, A, t, r, pton, port, at):
    st = t.st
    sa, name, nl, fam = one_result(R, A, st, r, at)
    if sa is None: return
    f = cv(st.simp(pton.args[0]))
    want = {INET: (16, 4), INET6: (28, 8)}.get(f)
    if not R.ok(want is not None, "numeric-family", at, "inet_pton is asked for family %s" % f, st): return
    R.ok(fam is c(f) and nl is c(want[0]), "numeric-address", at, "the address has family %s and length %s where %s and %s are right" % (show(fam), show(nl), f, want[0]), st)
    R.ok(mem_read(st, name, ZERO, 2, False) is c(f), "numeric-address", at, "the structure has family %s" % show(mem_read(st, name, ZERO, 2, False)), st)
    b, o = base_off(st.simp(pton.args[2]))
    dst = content(st, name, c(want[1]), c(4 if f == INET else 16))
    R.ok(dst.op == "b.fn" and dst.a[0] == "ADDR", "numeric-address", at, "the parsed address is not in its field of the structure: %s" % show(dst), st)
    v = st.simp(mem_read(st, name, c(2), 2, False))
    R.ok(swapped(st, v, st.simp(port)), "port-used", at, "the port in the address is %s, not the parsed %s in network order" % (show(v), show(port)), st)

def strip(t):
    while t.op in ("tr", "zx") : t = t.a[1]
    return t
def swapped(st, v, port):
    v = strip(v)
    if v.op == "c" and port.op == "c": return (v.a[0] & 0xffff) == bswap16(port).a[0]
    return v.op == "bswap16" and strip(v.a[0]) is strip(port)

def copies(R, A, t, r, at):
    """every address of the lookup, in order, copied"""
    st = t.st; nodes, freed = st.aux.get("gai", ((), 0))
    R.ok(freed == 1, "result-list-freed", at, "the list from the lookup is freed %d times" % freed, st)
    lb, lo = base_off(r)
    for i in range(len(nodes) + 1):
        sa = st.simp(mem_read(st, lb, addc(lo, 8 * i), 8, True))
        if i == len(nodes):
            R.ok(st.isnull(sa) is True, "all-addresses", at, "the list is not ended after its %d addresses" % i, st); break
        if not R.ok(st.isnull(sa) is not True, "all-addresses", at, "address %d of %d is missing" % (i + 1, len(nodes)), st): break
        b, o = base_off(sa); g = nodes[i]
        ln = mem_read(st, g, c(16), 4, False)
        R.ok(st.simp(mem_read(st, b, o, 4, False)) is mem_read(st, g, c(4), 4, False) and st.simp(mem_read(st, b, addc(o, 4), 4, False)) is mem_read(st, g, c(8), 4, False), "address-copied", at, "family or socket type of address %d is not the one looked up" % (i + 1), st)
        R.ok(st.simp(mem_read(st, b, addc(o, 16), 4, False)) is ln, "address-copied", at, "length of address %d is not the one looked up" % (i + 1), st)
        nb, no = base_off(st.simp(mem_read(st, b, addc(o, 8), 8, True)))
        gn = mem_read(st, g, c(24), 8, True)
        src = mk("b.mem", gn, ("init", ("gai", g.a[0])), ZERO, ln)
        R.ok(nb is not None and nb in st.mem and same(st, content(st, nb, no, ln), src), "address-copied", at, "the bytes of address %d are not those looked up" % (i + 1), st)
