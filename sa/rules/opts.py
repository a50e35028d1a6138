"""Option handling and start-up of spiped and spipe: C27, C28, and the programs' parts of C17, C26 and C29.

The option loop is analysed one iteration at a time from abstract loop states: the state after "option X was given,
before and after any others in any order" is the fixpoint of the transfer functions of all options' bodies.
"""
from .common import *
from .. import models as M
from ..machine import release

class Captured(Exception):
    pass

OPAQUE = {"sock_addr_validate", "sock_resolve", "sock_resolve_one", "proto_crypt_secret", "sock_listener", "daemonize", "setuidgid", "dispatch_accept",
          "graceful_shutdown_initialize", "events_spin", "dispatch_shutdown", "proto_crypt_secret_free", "pushbits", "proto_conn_create",
          "proto_conn_drop", "graceful_shutdown_manual", "asprintf", "dispatch_request_shutdown", "network_connect"}
# what must not have happened when the program refuses its options
ACTS = {"sock_resolve", "sock_resolve_one", "proto_crypt_secret", "sock_listener", "daemonize", "setuidgid", "dispatch_accept", "pushbits", "proto_conn_create",
        "graceful_shutdown_initialize", "events_spin", "open", "fopen", "socket", "connect", "bind", "listen", "fork", "getaddrinfo", "socketpair", "pthread_create",
        "unlink", "setuid", "setgid", "setgroups", "creat", "openat", "network_connect", "accept", "execve", "rename", "kill"}

class MainEngine(Engine):
    main = None
    cap = None
    def header_decided(self, fr, st, env, b, prev, L):
        if fr.fn is self.main:
            if b in self.inits:
                return True
            if b == self.optloop:
                g = st.simp(mem_read(st, glob("getopt_initialized"), ZERO, 4, False)) if glob("getopt_initialized") in st.mem else ZERO
                if st.iszero(g) is True:
                    return True
                self.cap = (fr, st, env, b, prev, L, {})
                raise Captured()
        return Engine.header_decided(self, fr, st, env, b, prev, L)

def m_getopt(e, st, fr, a, ins):
    g = glob("getopt_initialized")
    if g not in st.mem: mem_write(st, g, ZERO, c(4), ZERO)
    og = next((x for x in ("libcperciva_optarg", "optarg")), None)
    og = glob("libcperciva_optarg")
    if st.iszero(st.simp(mem_read(st, g, ZERO, 4, False))) is True:
        mem_write(st, og, ZERO, c(8), ZERO)
        return [(st, atom("optdummy", 0, p=True, nn=True))]
    nx = st.aux.get("next")
    kind, name = nx
    if kind == "end":
        mem_write(st, og, ZERO, c(8), ZERO)
        st.aux["found"] = None
        return [(st, ZERO)]
    t = atom("optstr", name, p=True, nn=True)
    n = st.aux["nopts"]; opts = st.aux["opts"]
    if kind == "opt":
        i, hasarg = opts[name]
        st.aux["found"] = i
        mem_write(st, og, ZERO, c(8), optarg(name) if hasarg else ZERO)
    else:
        st.aux["found"] = st.aux.get("missing", n + 1) if kind == "missing" else n + 1
        mem_write(st, og, ZERO, c(8), ZERO)
    return [(st, t)]

def optarg(name):
    return atom("optarg", name, p=True, nn=True)

def m_lookup(e, st, fr, a, ins):
    return [(st, c(st.aux["found"]))]

def cstr(e, st, p):
    b, o = base_off(p)
    e.region_init(st, b)
    for so, sz, v in mem_region(st, b).segs:
        if isinstance(v, T) and v.op == "b.const":
            return v.a[0].split(b"\0")[0].decode("latin1")
    raise Broken("string constant expected: " + show(p))

def m_regopt(e, st, fr, a, ins):
    d = dict(st.aux.get("opts", {}))
    s = cstr(e, st, a[0])
    st.aux["twice"] = st.aux.get("twice", ()) + ((s,) if s in d else ())
    d[s] = (st.simp(a[1]).a[0], st.simp(a[2]) is not ZERO)
    st.aux["opts"] = d
    return [(st, None)]

def m_regmissing(e, st, fr, a, ins):
    st.aux["missing"] = st.simp(a[0]).a[0]
    return [(st, None)]

def m_setrange(e, st, fr, a, ins):
    st.aux["nopts"] = st.simp(a[0]).a[0]
    return [(st, None)]

def m_act(name):
    """a call that acts on the options; in the analysis of refusals nothing after the first one matters"""
    def f(e, st, fr, a, ins):
        if e.stopact is True or name in (e.stopact or ()):
            e.event(st, "call", name, tuple(a), None, fr, ins)
            return [(st, "stop")]
        return e.M.default(e, st, fr, name, a, ins, e.prog.lookup(name))
    return f

def m_strto(name):
    def f(e, st, fr, a, ins):
        k = st.fresh()
        r = mk("ret", name, k)
        end = atom("strend", name, k, p=True)
        M.set_errno(st, name)
        b, o = base_off(st.simp(a[1]))
        if b is not None: mem_write(st, b, o, c(8), end)
        e.event(st, "call", name, tuple(a), r, fr, ins, end)
        return [(st, r)]
    return f

STRTO = ("strtod", "strtof", "strtold", "strtoumax", "strtoimax", "strtoul", "strtol", "strtoull", "strtoll")

class Main:
    def __init__(self, R, prog, stopact=False):
        self.R = R
        self.name = prog
        f = self.f = R.prog.need("main", prog + "/main.c")
        f._parse()
        m = {"getopt": m_getopt, "getopt_lookup": m_lookup, "getopt_register_opt": m_regopt, "getopt_register_missing": m_regmissing, "getopt_setrange": m_setrange,
             "sock_addr_freelist": release("sock_addr_freelist"), "sock_addr_free": release("sock_addr_free")}
        for n in ACTS: m[n] = m_act(n)
        for n in STRTO: m[n] = m_strto(n)
        cfg = Cfg(models=m, opaque=set(OPAQUE), inits=True, unroll=300, merge=False, effects={"asprintf": [(0, 8)], "pushbits": [(2, 8)], "socketpair": [(3, 8)]})
        e = self.e = MainEngine(R.prog, cfg)
        e.main = f
        e.stopact = stopact
        L = f.loops()
        calls = lambda b: [norm(I.x[1]) for I in f.blocks[b] if I.op == "call" and I.x and I.x[0] == "g"]
        cand = [h for h, body in L.items() if any("getopt" in calls(b) for b in body)]
        if len(cand) != 1: raise Broken("option loop of %s not found" % prog)
        e.optloop = cand[0]
        e.inits = [h for h, body in L.items() if h != e.optloop and h in L[e.optloop]]
        st = State()
        mem_write(st, glob("getopt_initialized"), ZERO, c(4), ZERO)
        self.argv = params(f)
        try:
            e.run(f, list(self.argv), st)
            raise Broken("the option loop of %s never starts" % prog)
        except Captured:
            pass
        fr, s0, env, b, prev, Lp, lc = e.cap
        self.fr, self.h, self.env0 = fr, b, env
        self.phis = [I for I in f.blocks[b] if I.op == "phi"]
        self.opts = s0.aux["opts"]
        self.base = s0
        s0.path = None
        vals = {}
        for I in self.phis:
            for v, pb in I.a:
                if pb == prev: vals[I.res] = e.val(v, I.ty, env, fr)
        self.init = (s0, vals)
        self.all = set(f.order)
        self.memo = {}
        R.need(len(self.opts), "options-" + prog, 7)
        R.stats["paths"] += 1
    # ------------------------------------------------------------ one iteration
    def step(self, S, kind, name=None):
        """-> (states at the loop's head again, [(state, how it ended)])"""
        st, vals = S
        s = st.fork(); s.path = None
        s.aux["next"] = (kind, name)
        e = self.e
        env = dict(self.env0); env.update(vals)
        e.explore(self.fr, [(s, env, self.h, None, {})], (self.h, self.all))
        rets, backs = e.last
        out = []
        for s2, e2, pb in backs:
            for bb in [bb for bb in s2.mem if bb.op == "stk" and bb not in self.base.mem]: del s2.wmem()[bb]
            v2 = {}
            for I in self.phis:
                for v, q in I.a:
                    if q == pb: v2[I.res] = e.val(v, I.ty, e2, self.fr)
            out.append((s2, v2))
        return out, [(s2, r) for s2, r in rets if r != "loopback"]
    def since(self, S, st):
        return st.evlist(S[0].ev)
    # ------------------------------------------------------------ joins
    def slots(self, S):
        st, vals = S
        d = {("phi", k): v for k, v in vals.items()}
        for b, r in st.mem.items():
            if b.op == "glob" and b.a[0] in ("errno", "getopt_initialized", "libcperciva_optarg"): continue
            if r is self.base.mem.get(b): continue
            for o, z, v in r.segs:
                d[("cell", b, o, z)] = v
        return d
    def ptr(self, k):
        if k[0] == "phi":
            return any(I.res == k[1] and I.ty.k == "ptr" for I in self.phis)
        return False
    def join(self, Ss):
        if len(Ss) == 1: return Ss[0]
        ds = [self.slots(S) for S in Ss]
        keys = []
        for d in ds:
            for k in d:
                if k not in keys: keys.append(k)
        st = self.base.fork()
        st.n = max(S[0].n for S in Ss)
        vals = dict(Ss[0][1])
        for k in keys:
            vs = []
            for d, S in zip(ds, Ss):
                v = d.get(k)
                if v is None:
                    v = mem_read(S[0], k[1], k[2], cv(k[3]), False) if k[0] == "cell" and cv(k[3]) in (1, 2, 4, 8) else None
                vs.append(v)
            v = vs[0]
            if any(x is not v for x in vs[1:]) or (isinstance(v, T) and v.op not in ("c", "optarg", "f", "jn") and not v.nn):
                if None in vs or any(not isinstance(x, T) or x.op.startswith("b.") for x in vs):
                    v = None
                elif any(x is not v for x in vs[1:]):
                    nn = all(S[0].iszero(x) is False for S, x in zip(Ss, vs))
                    bs = [S[0].bounds(x) for S, x in zip(Ss, vs)]
                    lo = min(b[0] for b in bs); hi = max(b[1] for b in bs)
                    if not (0 <= lo and hi <= 1): lo, hi = (0, INF) if lo >= 0 else (-INF, INF)
                    if any(x.op in ("f", "fp", "fpc") for x in vs): lo, hi = -INF, INF
                    slot = k[1] if k[0] == "phi" else (k[1].id, k[2].id)
                    v = mk("jn", slot, nn, lo, hi)
                    if self.ptr(k) or all(x.p or x is ZERO for x in vs): v.p = True
                    if nn: v.nn = True
                    if (lo, hi) != (-INF, INF): st.setiv(v, lo, hi)
                else:
                    # the same value everywhere: keep what is known in all states
                    bs = [S[0].bounds(v) for S in Ss]
                    lo = min(b[0] for b in bs); hi = max(b[1] for b in bs)
                    if (lo, hi) != (-INF, INF): st.setiv(v, lo, hi)
                    for b0 in (mk("eq0", v),):
                        if all(S[0].iszero(v) is False for S in Ss): st.assume(b0, False)
                    for S in Ss[:1]:
                        for bb, x in S[0].bf.items():
                            if bb.op == "fcmp" and all(T2[0].bf.get(bb) is x for T2 in Ss): st.wfacts(); st.bf[bb] = x
            if k[0] == "phi":
                if v is None: v = mk("jn", k[1], st.fresh())
                vals[k[1]] = v
            elif v is None:
                r = mem_region(st, k[1])
                st.wmem()[k[1]] = Region(("init", ("join", st.fresh())), (), None, r.size)
            else:
                mem_write(st, k[1], k[2], k[3], v)
        st.ev = self.base.ev
        return (st, vals)
    def sig(self, S):
        return frozenset((k, v.id if isinstance(v, T) else 0) for k, v in self.slots(S).items())
    def closure(self, S, names):
        """the loop's invariant state when any of these options may follow, any number of times, in any order"""
        for rnd in range(10):
            outs = [S]
            for n in names:
                b, r = self.step(S, "opt", n)
                outs += b
            N = self.join(outs)
            if self.sig(N) == self.sig(S):
                return S
            S = N
        raise Broken("no fixpoint of the option loop")
    def without(self, *x):
        """any options but these may have been given"""
        k = tuple(sorted(x))
        if k not in self.memo:
            self.memo[k] = self.closure(self.init, [o for o in self.opts if o not in x])
        return self.memo[k]
    def given(self, x, but=()):
        """x was given, the others in any way"""
        k = ("given", x, tuple(but))
        if k not in self.memo:
            b, r = self.step(self.without(x, *but), "opt", x)
            self.memo[k] = self.closure(self.join(b), [o for o in self.opts if o not in but and o != x]) if b else None
        return self.memo[k]
    def end(self, S):
        k = ("end", id(S))
        if k not in self.memo:
            self.memo[k] = self.step(S, "end")[1]
            self.memo[("keep", id(S))] = S
        return self.memo[k]
    # ------------------------------------------------------------ judgements
    def acted(self, S, st):
        return [x for x in self.since(S, st) if x.kind == "call" and x.name in ACTS]
    def refused(self, S, st, r):
        """ends with exit status 1 (or non-zero return) without having acted"""
        return self.exitcode(st, r) not in (None, 0) and not self.acted(S, st)
    def exitcode(self, st, r):
        if r == "exit":
            x = [e for e in st.evlist() if e.kind == "call" and e.name in ("exit", "_exit")]
            v = st.simp(x[-1].args[0]) if x else None
        elif r == "unreachable":
            return -1 if st.ev is not None and st.ev.name in ("abort", "__assert_fail") else None
        else:
            v = st.simp(r) if isinstance(r, T) else None
        return v.a[0] if v is not None and v.op == "c" else None
    def at(self, what):
        return "%s/main.c %s" % (self.name, what)
    def must_refuse(self, rule, what, S, kind, name=None):
        R = self.R
        if S is None: return R.ok(True, rule, self.at(what), "refused earlier")
        b, r = self.step(S, kind, name)
        R.ok(not b, rule, self.at(what), "is accepted", b[0][0] if b else None)
        for s, x in r:
            if x == "unreachable" and self.exitcode(s, x) == -1: continue
            R.ok(self.refused(S, s, x), rule, self.at(what), "does not end with a failure before anything was done: exit status %s after %s" % (self.exitcode(s, x), [a.name for a in self.acted(S, s)][:3]), s)
        return R.ok(bool(r), rule, self.at(what), "no outcome")
    def done(self):
        self.R.used(self.e)

EXPECT = {"spiped": "-b -d -D -e -f -F -g -j -k -n -o -p -r -R -s --syslog -t -u -v".split(), "spipe": "-b -f -g -j -k -o -t -v".split()}
ARGS = {"-b", "-k", "-n", "-o", "-p", "-r", "-s", "-t", "-u"}
NUM = {"spiped": ("-n", "-o", "-r"), "spipe": ("-o",)}

def C28(R):
    """Dataflow through the option loop and the checks after it, for both programs: each loop state is the fixpoint over all orders and
    repetitions of the options (so the result holds for every command line), and every path from it that must be refused ends with exit
    status 1 before any call that resolves, opens, binds or connects; every documented option is accepted once."""
    for prog in ("spiped", "spipe"):
        m = Main(R, prog, stopact=True)
        for o in EXPECT[prog]:
            if not R.ok(o in m.opts, "option-exists", m.at(o), "the documented option is not registered"): continue
            R.ok(m.opts[o][1] == (o in ARGS), "option-takes-argument", m.at(o), "takes an argument: %s" % m.opts[o][1])
        names = [o for o in m.opts if o != "-v"]
        for o in names:
            b, r = m.step(m.init, "opt", o)
            R.ok(bool(b), "option-accepted", m.at(o), "is refused although given once")
            g = m.given(o)
            if g is None:
                R.ok(False, "option-accepted", m.at(o), "never accepted"); continue
            m.must_refuse("repeated-option-refused", o + " given twice", g, "opt", o)
            if o in NUM[prog]:
                S = m.without(o)
                nb, nr = m.step(S, "opt", o)
                for s, v in nb:
                    ps = [e for e in m.since(S, s) if e.kind == "call" and e.name in STRTO]
                    if not R.ok(len(ps) == 1 and ps[0].args[0] is optarg(o), "number-parsed", m.at(o), "parsed %d times" % len(ps), s): continue
                    numok(R, m, o, ps[0], s)
                R.ok(any(m.exitcode(s, x) == 1 for s, x in nr), "bad-number-refused", m.at(o), "no way to refuse a malformed number")
        for x, y in ((("-d", "-e"), ("-e", "-d")) if prog == "spiped" else ()):
            g = m.given(x, but=(y,))
            m.must_refuse_pair("both-directions-refused", x, y, g)
        g = m.given("-f", but=("-g",))
        m.must_refuse_pair("contradictory-pfs-refused", "-f", "-g", g)
        g = m.given("-g", but=("-f",))
        m.must_refuse_pair("contradictory-pfs-refused", "-g", "-f", g)
        anyS = m.closure(m.init, names)
        m.must_refuse("unknown-option-refused", "unknown option", anyS, "unknown", "?")
        m.must_refuse("missing-argument-refused", "option without its argument", anyS, "missing", "?")
        for o in (["-k", "-t"] + (["-s"] if prog == "spiped" else [])):
            m.must_refuse("required-option", o + " not given", m.without(o), "end")
        if prog == "spiped":
            m.must_refuse("direction-required", "neither -d nor -e given", m.without("-d", "-e"), "end")
        # the end of the options
        rs = m.end(anyS)
        n = 0
        for s, r in rs:
            if not m.acted(anyS, s): continue
            n += 1
            d = sub(m.argv[0], mem_read(s, glob("libcperciva_optind"), ZERO, 4, False))
            R.ok(s.iszero(d) is True, "extra-arguments-refused", m.at("end of options"), "goes on although arguments may be left", s)
        R.need(n, prog + "-starts")
        for o in (["-t", "-b"] + (["-s"] if prog == "spiped" else [])):
            S = m.given(o)
            if S is None: continue
            for s, r in m.end(S):
                acts = m.acted(S, s)
                if not acts: continue
                v = [e for e in m.since(S, s) if e.kind == "call" and e.name == "sock_addr_validate" and e.args[0] is optarg(o)]
                R.ok(len(v) >= 1 and s.iszero(s.simp(v[0].ret)) is True and v[0].n < acts[0].n, "address-validated", m.at(o), "goes on without having found the address valid", s)
        m.done()
        timeout_positive(R, prog)

def timeout_positive(R, prog, got=None):
    stop, i = {"spiped": ("dispatch_accept", 11), "spipe": ("proto_conn_create", 8)}[prog]
    m, rs = got or (None, None)
    if got is None:
        m = starts(R, prog, stop)
        rs = m.end(m.closure(m.init, [o for o in m.opts if o != "-v"]))
    for s, r in rs:
        if r != "stop": continue
        v = s.ev.args[i]
        R.ok((fnum(v) or 0) > 0 or positive(s, v), prog + "-timeout-positive", m.at("-o"), "starts serving with the timeout %s which may not be positive" % show(v), s)

def numok(R, m, o, e, s):
    numok0(R, m.at(o), e, s)
    if e.name in ("strtod", "strtof", "strtold"):
        R.ok(any(x.op == "fcmp" and ((x.a[1] is e.ret and fnum(x.a[2]) == 0.0 and (x.a[0], y) in (("olt", False), ("ult", False), ("oge", True), ("uge", True), ("ogt", True)))
                 or (x.a[2] is e.ret and fnum(x.a[1]) == 0.0 and (x.a[0], y) in (("ogt", False), ("ugt", False), ("ole", True), ("ule", True), ("olt", True)))) for x, y in facts(s)),
             "number-in-range", m.at(o), "a negative number is accepted", s)

def numok0(R, at, e, s):
    """an accepted number was read from the whole of a non-empty argument, without a range error"""
    end = e.x
    R.ok(s.iszero(sub(end, e.args[0])) is False, "number-not-empty", at, "an argument without digits is accepted", s)
    eb, eo = base_off(end)
    ch = mem_read(s, eb, eo, 1, False)
    R.ok(s.iszero(ch) is True, "number-complete", at, "trailing garbage is accepted", s)
    cur = mem_read(s, M.ERRNO, ZERO, 4, False)
    R.ok(s.iszero(s.simp(cur)) is True, "number-in-range", at, "a range error is ignored", s)

def _pair(self, rule, x, y, g):
    """after x (and anything else), y is refused at once or at the end of the options"""
    if g is None: return
    b, r = self.step(g, "opt", y)
    R = self.R
    for s, k in r:
        R.ok(self.refused(g, s, k) or self.exitcode(s, k) == -1, rule, self.at("%s then %s" % (x, y)), "exit status %s" % self.exitcode(s, k), s)
    if b:
        S = self.closure(self.join(b), [o for o in self.opts if o not in (x, y)])
        for s, k in self.end(S):
            R.ok(self.refused(S, s, k) or self.exitcode(s, k) == -1, rule, self.at("%s and %s" % (x, y)), "contradictory options are not refused: exit status %s after %s" % (self.exitcode(s, k), [a.name for a in self.acted(S, s)][:3]), s)
    R.ok(bool(b or r), rule, self.at("%s and %s" % (x, y)), "no outcome")
Main.must_refuse_pair = _pair

# ------------------------------------------------------------------ start-up
def only(name, f):
    """the successful outcomes of a start-up step"""
    def g(e, st, fr, a, ins):
        return [(s, r) for s, r in m_act(name)(e, st, fr, a, ins) if r == "stop" or f(s, r)]
    return g

def starts(R, prog, stop):
    """the program with every start-up step succeeding, up to the call that starts serving"""
    m = Main(R, prog, stopact=(stop,))
    nn = lambda s, r: s.assume(mk("eq0", r), False)
    z = lambda s, r: s.assume(mk("eq0", r), True)
    for n in ("sock_resolve", "sock_resolve_one", "proto_crypt_secret"): m.e.cfg.models[n] = only(n, nn)
    for n in ("daemonize", "setuidgid", "asprintf", "socketpair"): m.e.cfg.models[n] = only(n, z)
    m.e.cfg.models["sock_listener"] = only("sock_listener", lambda s, r: s.setiv(r, 0, 2 ** 31 - 1))
    m.e.cfg.models["getpid"] = lambda e, st, fr, a, ins: [(st, c(2))]
    return m

class Under:
    """what a path from the all-options state does when the loop ended in the state S"""
    def __init__(self, m, A, S):
        sa, ss = m.slots(A), m.slots(S)
        self.m, self.S = m, S
        self.map = {}; self.memo = {}
        for k, v in sa.items():
            if isinstance(v, T) and v.op == "jn":
                w = ss.get(k)
                if w is None and k[0] == "cell": w = mem_read(S[0], k[1], k[2], cv(k[3]), False)
                if w is not None and w is not v: self.map[v] = w
    def sub(self, t):
        from ..machine import subst
        if not isinstance(t, T): return t
        r = subst(t, self.map)
        return self.fold(r)
    def fold(self, t):
        if t.op == "lin": 
            r = c(t.a[0])
            for a, n in t.a[1]: r = add(r, scale(self.fold(a), n))
            return r
        if t.op == "fcmp": return fcmp(*t.a)
        if t.op == "not":
            x = self.fold(t.a[0])
            return neg(x)
        if t.op == "eq0":
            x = self.fold(t.a[0])
            z = self.S[0].iszero(x)
            if z is not None: return c(1 if z else 0)
            return t
        return t
    def feasible(self, st):
        M2 = self.memo
        for b, v in st.bf.items():
            r = M2.get(b, 0)
            if r == 0:
                r = M2[b] = self.S[0].truth(self.sub(b))
            if r is not None and r != v: return False
        for t, w in st.iv.items():
            k = (t, w)
            r = M2.get(k)
            if r is None: r = M2[k] = self.inside(self.sub(t), *w)
            if not r: return False
        for t, vs in st.ne.items():
            x = M2.get(("s", t))
            if x is None: x = M2[("s", t)] = self.sub(t)
            if x.op == "c" and x.a[0] in vs: return False
        return True
    def inside(self, x, lo, hi):
        if x.op == "c": return lo <= x.a[0] <= hi
        if x.op == "f": return True
        l, h = self.S[0].bounds(x)
        if l > hi or h < lo: return False
        return not (lo == hi == 0 and self.S[0].iszero(x) is False)

def values(m, A, rs, S, stop, i):
    """[(value of argument i, state)] at the call, over the paths possible from S"""
    U = Under(m, A, S)
    return [(U.sub(s.ev.args[i]), s, U) for s, r in rs if r == "stop" and s.ev.name == stop and U.feasible(s)]

def C29_main(R):
    for prog, stop, ix in (("spiped", "dispatch_accept", dict(s=0, t=1, r=2, sas=3, b=4, d=5, f=6, g=7, j=8, k=9, n=10, o=11)),
                           ("spipe", "proto_conn_create", dict(sas=1, b=2, d=3, f=4, g=5, j=6, k=7, o=8))):
        m = starts(R, prog, stop)
        names = [o for o in m.opts if o != "-v"]
        A = m.closure(m.init, names)
        rs = m.end(A)
        R.need(len([1 for s, r in rs if r == "stop"]), prog + "-starts")
        def check(rule, S, i, f, what):
            if S is None: return R.ok(False, rule, m.at(what), "the option is never accepted")
            vs = values(m, A, rs, S, stop, i)
            R.ok(bool(vs), rule, m.at(what), "the program never starts serving")
            for v, s, U in vs:
                R.ok(f(v, s, U), rule, m.at(what), "arrives as %s" % show(v), s)
        nz = lambda v, s, U: U.S[0].iszero(v) is False
        ze = lambda v, s, U: v is ZERO
        for o, k in (("-f", "f"), ("-g", "g"), ("-j", "j")):
            other = {"-f": ("-g",), "-g": ("-f",)}.get(o, ())
            check("%s-option%s" % (prog, o), m.given(o, but=other), ix[k], nz, o + " given")
            check("%s-option%s" % (prog, o), m.without(o), ix[k], ze, o + " not given")
        if prog == "spiped":
            check("spiped-direction", m.given("-d", but=("-e",)), ix["d"], nz, "-d given")
            check("spiped-direction", m.given("-e", but=("-d",)), ix["d"], ze, "-e given")
        else:
            check("spipe-direction", A, ix["d"], ze, "client side")
        def made(fn, o, extra=None):
            """the value is the result of fn applied to the option's argument"""
            def f(v, s, U):
                e = [e for e in s.evlist() if e.kind == "call" and e.name == fn and e.ret is v]
                return len(e) == 1 and U.sub(e[0].args[0]) is optarg(o) and (extra is None or extra(e[0]))
            return f
        check(prog + "-secret", m.given("-k"), ix["k"], made("proto_crypt_secret", "-k"), "-k")
        check(prog + "-target", m.given("-t"), ix["sas"], made("sock_resolve", "-t"), "-t")
        check(prog + "-bind-address", m.given("-b"), ix["b"], made("sock_resolve_one", "-b"), "-b given")
        check(prog + "-bind-address", m.without("-b"), ix["b"], ze, "-b not given")
        if prog == "spiped":
            check("spiped-target-name", m.given("-t"), ix["t"], lambda v, s, U: v is optarg("-t"), "-t")
            def lst(v, s, U):
                e = [e for e in s.evlist() if e.kind == "call" and e.name == "sock_listener" and e.ret is v]
                if len(e) != 1: return False
                r = [x for x in s.evlist() if x.kind == "call" and x.name == "sock_resolve_one" and x.ret is e[0].args[0]]
                return len(r) == 1 and U.sub(r[0].args[0]) is optarg("-s")
            check("spiped-source", m.given("-s"), ix["s"], lst, "-s")
            check("spiped-limit", m.without("-n"), ix["n"], lambda v, s, U: v is c(100), "-n not given")
            S0 = m.without("-n")
            b, r = m.step(S0, "opt", "-n")
            for s1, v1 in b:
                p = [e for e in m.since(S0, s1) if e.kind == "call" and e.name in STRTO]
                S1 = m.closure((s1, v1), [o for o in names if o != "-n"])
                z = s1.iszero(p[0].ret) if p else None
                if z is True:
                    check("spiped-limit", S1, ix["n"], lambda v, s, U: v.op == "c" and v.a[0] in (-1, 2 ** 64 - 1), "-n 0")
                else:
                    check("spiped-limit", S1, ix["n"], lambda v, s, U: p and (v is p[0].ret), "-n given")
        num = [("-o", ix["o"], 5.0, ())]
        if prog == "spiped":
            num.append(("-r", ix["r"], 60.0, ("-R",)))
            check("spiped-no-resolution", m.given("-R", but=("-r",)), ix["r"], lambda v, s, U: fnum(v) == 0.0, "-R given")
        for o, i, dflt, but in num:
            check("%s-option%s" % (prog, o), m.without(o, *but), i, lambda v, s, U: fnum(v) == dflt, o + " not given")
            S0 = m.without(o, *but)
            b, r = m.step(S0, "opt", o)
            R.ok(bool(b), "%s-option%s" % (prog, o), m.at(o), "never accepted")
            for s1, v1 in b:
                p = [e for e in m.since(S0, s1) if e.kind == "call" and e.name in STRTO]
                S1 = m.closure((s1, v1), [x for x in names if x != o and x not in but])
                def f(v, s, U):
                    if p and v is p[0].ret: return True
                    # the default in place of zero
                    return p and fnum(v) == dflt and any(x.op == "fcmp" and y and x.a[0] in ("oeq", "ueq") and U.sub(x.a[1]) is p[0].ret and fnum(x.a[2]) == 0.0 for x, y in facts(s))
                check("%s-option%s" % (prog, o), S1, i, f, o + " given")
        timeout_positive(R, prog, (m, rs))
        m.done()

def facts(s):
    for b, v in s.bf.items():
        if b.op == "not": yield b.a[0], not v
        else:
            yield b, v
            if b.op == "fcmp" and not v:
                inv = {"une": "oeq", "one": "ueq", "oeq": "une"}.get(b.a[0])
                if inv: yield mk("fcmp", inv, b.a[1], b.a[2]), True

def positive(s, v):
    for x, y in facts(s):
        if x.op != "fcmp": continue
        if x.a[1] is v and fnum(x.a[2]) == 0.0 and ((x.a[0] == "ogt" and y) or (x.a[0] == "ule" and not y)): return True
        if x.a[2] is v and fnum(x.a[1]) == 0.0 and ((x.a[0] == "olt" and y) or (x.a[0] == "uge" and not y)): return True
    return False

def C29(R):
    """Dataflow of every option value and switch from the option loop to the call that starts serving (over every order of options), through
    the dispatcher into each connection, and through the connection to the operations that act on it."""
    from . import conn, disp
    C29_main(R)
    disp.C29_dispatch(R)
    for decr in (0, 1):
        conn.conn_args(R, conn.Conn(R, decr))

# ------------------------------------------------------------------ order of the start-up
class Startup:
    """main of the daemon with given extra options: every path, with every start-up step failing or not"""
    def __init__(self, R, extra):
        self.m = m = Main(R, "spiped")
        m.e.cfg.models["getpid"] = lambda e, st, fr, a, ins: [(st, c(2))]
        S = m.init
        for o in ["-d", "-s", "-t", "-k"] + list(extra):
            b, r = m.step(S, "opt", o)
            if len(b) != 1: raise Broken("option %s not accepted" % o)
            S = b[0]
        self.S = S
        self.rs = m.end(S)
        self.extra = extra
        m.done()
    def at(self):
        return "spiped/main.c with " + (" ".join(self.extra) or "no further options")
    def calls(self, s, name=None):
        return [e for e in self.m.since(self.S, s) if e.kind == "call" and (name is None or e.name == name)]

ALLX = ([], ["-u"], ["-D"], ["-F"], ["-D", "-F"], ["-u", "-D"], ["-u", "-F"], ["-b"], ["-p", "-u"])

def C27_main(R):
    n = 0
    for x in ALLX:
        P = Startup(R, x)
        for s, r in P.rs:
            at = P.at()
            drop = P.calls(s, "setuidgid"); da = P.calls(s, "dispatch_accept"); ls = P.calls(s, "sock_listener")
            if "-u" not in x:
                R.ok(not drop, "only-when-asked", at, "drops privileges although no user was given", s)
                continue
            n += 1
            for d in drop:
                R.ok(d.args[0] is optarg("-u"), "given-identity", at, "drops to %s" % show(d.args[0]), d.st)
                R.ok(len(ls) == 1 and ls[0].n < d.n and d.st.lb(ls[0].ret) >= 0 or d.st.iszero(addc(ls[0].ret, 1)) is False if ls else False, "after-binding", at, "drops privileges before the listening socket is bound", d.st)
            for d in da:
                good = [z for z in drop if z.n < d.n and d.st.iszero(d.st.simp(z.ret)) is True]
                R.ok(len(good) == 1 and len([z for z in drop if z.n < d.n]) == 1, "before-serving", at, "starts accepting connections without having dropped privileges", d.st)
            for z in drop:
                if s.iszero(s.simp(z.ret)) is False:
                    R.ok(not [d for d in da if d.n > z.n] and P.m.exitcode(s, r) == 1, "failure-exits", at, "after a failure to drop privileges: serving=%s, exit status %s" % (bool(da), P.m.exitcode(s, r)), s)
            for e in P.calls(s, "dispatch_shutdown"):
                bad = e.st.isnull(e.args[0]) is not False and not [d for d in da if d.n < e.n and d.ret is e.args[0] and e.st.isnull(d.ret) is False] and null_unsafe(R)
                R.ok(not bad, "failure-exits", at, "the exit path passes a dispatcher that does not exist (%s) to dispatch_shutdown, which dereferences it" % show(e.args[0]), s)
    R.need(n, "starts-with-user", 8)

def null_unsafe(R):
    """does dispatch_shutdown dereference its argument without looking whether there is one?"""
    if not hasattr(R, "_nu"):
        f = R.prog.need("dispatch_shutdown")
        e, a, res = analyse(R, f, args=[ZERO], opaque=OPAQUE)
        R.__dict__["_nu"] = any(x.kind == "mem" and x.name == "nullderef" for s, r in res for x in s.evlist())
    return R._nu

def C26_main(R):
    for x in ALLX:
        P = Startup(R, x)
        n = 0
        for s, r in P.rs:
            at = P.at()
            dm = P.calls(s, "daemonize"); da = P.calls(s, "dispatch_accept"); ls = P.calls(s, "sock_listener"); rs = P.calls(s, "sock_resolve_one")
            R.ok(len(dm) <= 1, "daemonizes-once", at, "%d times" % len(dm), s)
            if "-F" in x:
                R.ok(not dm, "foreground", at, "goes into the background although -F was given", s)
            for d in da:
                n += 1
                if "-F" not in x:
                    R.ok(len(dm) == 1 and dm[0].n < d.n and d.st.iszero(d.st.simp(dm[0].ret)) is True, "background-before-serving", at, "starts serving without having gone into the background", d.st)
            for d in dm:
                if s.iszero(s.simp(d.ret)) is False:
                    R.ok(not [z for z in da if z.n > d.n] and P.m.exitcode(s, r) == 1, "failure-exits", at, "after failing to go into the background: exit status %s" % P.m.exitcode(s, r), s)
                if "-D" in x:
                    R.ok(not [z for z in rs + ls if z.n < d.n], "background-first", at, "with -D, resolves or binds before going into the background", s)
                else:
                    R.ok([z for z in ls if z.n < d.n], "background-when-up", at, "goes into the background (reporting success) before the socket is bound", s)
                w = [e for e in P.calls(s, "asprintf") if e.n < d.n]
                R.ok(bool(w), "pid-file", at, "no PID file name", s)
        R.need(n, "served")

def C17_main(R):
    n = 0
    for x in ([], ["-F"]):
        P = Startup(R, x)
        for s, r in P.rs:
            at = P.at()
            da = P.calls(s, "dispatch_accept"); gs = P.calls(s, "graceful_shutdown_initialize"); sp = P.calls(s, "events_spin"); ds = P.calls(s, "dispatch_shutdown")
            for e in gs:
                R.ok(len(da) == 1 and e.args[1] is da[0].ret, "shutdown-of-the-dispatcher", at, "a signal will shut down %s" % show(e.args[1]), e.st)
                from .graceful import fnof
                f = fnof(R, e.args[0])
                if R.ok(f is not None, "shutdown-callback", at, "callback %s" % show(e.args[0]), e.st):
                    eng, a, res = analyse(R, f, opaque=OPAQUE, models={"dispatch_request_shutdown": None} if False else {})
                    for s2, r2 in res:
                        c2 = [z for z in s2.evlist() if z.kind == "call" and z.name == "dispatch_request_shutdown"]
                        R.ok(len(c2) == 1 and c2[0].args[0] is a[0], "shutdown-requested", where(f), "requests a shutdown %d times" % len(c2), s2)
                        R.ok(r2 is ZERO, "shutdown-requested", where(f), "returns %s" % (show(r2) if isinstance(r2, T) else r2), s2)
            for e in sp:
                n += 1
                R.ok(len(da) == 1 and e.args[0] is da[0].args[12], "loop-ends-with-dispatcher", at, "the event loop waits for a flag that the dispatcher does not set", e.st)
                R.ok(len(gs) == 1 and gs[0].n < e.n and e.st.iszero(e.st.simp(gs[0].ret)) is True, "signal-handled-while-serving", at, "serves without handling the termination signal", e.st)
                b, o = base_off(e.args[0])
                R.ok(e.st.iszero(e.st.simp(mem_read(e.st, b, o, 4, False))) is True, "runs-until-requested", at, "the event loop's end flag is not clear at the start", e.st)
                z = s.iszero(s.simp(e.ret))
                R.ok(P.m.exitcode(s, r) == (0 if z is True else 1), "exit-status", at, "exit status %s after the event loop %s" % (P.m.exitcode(s, r), "ended" if z else "failed"), s)
                R.ok(len(ds) == 1 and ds[0].args[0] is da[0].ret, "dispatcher-freed", at, "the dispatcher is shut down %d times" % len(ds), s)
    R.need(n, "event-loops", 4)
