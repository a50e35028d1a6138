"""Event machine: typestate analysis of callback-driven objects.

The functions that register callbacks are modelled as handle-producing operations; every reachable abstract state of
the object (its memory cells plus the set of pending operations) is explored by running each pending callback with
each outcome its API allows, and each owner operation, until no new state (up to renaming of values) appears.
"""
from .absint import *
from .terms import *
from . import models as M
from . import crypto
from .ir import Broken

class Pend:
    __slots__ = ("h", "kind", "cb", "cookie", "args", "live", "armed", "n", "loc")
    def __init__(self, h, kind, cb, cookie, args, n, loc, armed=True):
        self.h, self.kind, self.cb, self.cookie, self.args, self.n, self.loc, self.armed = h, kind, cb, cookie, args, n, loc, armed
    def __repr__(self):
        return "%s(%s)" % (self.kind, show(self.cb))

def pend(st):
    return st.aux.get("pend", ())

def add_pend(st, p):
    st.aux["pend"] = pend(st) + (p,)

def del_pend(st, p):
    st.aux["pend"] = tuple(x for x in pend(st) if x is not p)

def register(kind, ci, ki, fail=True, null_ok=False):
    def f(e, st, fr, a, ins):
        fds = [a[i] for i in FDARG.get(kind, ())]
        for x in fds:
            if st.simp(x) in st.aux.get("closed", ()):
                e.event(st, "mem", "use-of-closed-fd", (x,), None, fr, ins)
        out = []
        if fail:
            s2 = st.fork()
            e.event(s2, "reg", kind, tuple(a), ZERO, fr, ins)
            M.set_errno(s2, kind)
            out.append((s2, ZERO))
        n = st.fresh()
        h = atom("hnd", kind, n, p=True, nn=True)
        e.event(st, "reg", kind, tuple(a), h, fr, ins)
        add_pend(st, Pend(h, kind, st.simp(a[ci]), a[ki], tuple(a), n, e.loc(fr, ins)))
        out.append((st, h))
        return out
    return f

FDARG = {"network_read": (0,), "network_write": (0,), "network_accept": (0,), "proto_handshake": (0,), "proto_pipe": (0, 1), "events_network": (2,)}

def cancel(kind, null_ok=False):
    def f(e, st, fr, a, ins):
        h = st.simp(a[0])
        if h is ZERO or st.isnull(h) is True:
            e.event(st, "cancel", kind, (h,), None, fr, ins)
            if not null_ok:
                e.event(st, "mem", "cancel-null", (h,), None, fr, ins, kind)
            return [(st, None)]
        e.event(st, "cancel", kind, (h,), None, fr, ins)
        for p in pend(st):
            if p.h is h:
                if p.kind != kind:
                    e.event(st, "mem", "cancel-wrong-kind", (h,), None, fr, ins, (p.kind, kind))
                del_pend(st, p)
                return [(st, None)]
        e.event(st, "mem", "cancel-not-pending", (h,), None, fr, ins, kind)
        return [(st, None)]
    return f

def reg_key(kind, ci, ki, keyi):
    """registrations identified by arguments instead of a handle; return 0 / -1"""
    def f(e, st, fr, a, ins):
        s2 = st.fork()
        e.event(s2, "reg", kind, tuple(a), c(-1), fr, ins)
        M.set_errno(s2, kind)
        key = tuple(st.simp(a[i]) for i in keyi)
        for i in FDARG.get(kind, ()):
            if st.simp(a[i]) in st.aux.get("closed", ()):
                e.event(st, "mem", "use-of-closed-fd", (a[i],), None, fr, ins)
        e.event(st, "reg", kind, tuple(a), ZERO, fr, ins)
        for p in pend(st):
            if p.kind == kind and p.h == key:
                e.event(st, "mem", "register-twice", tuple(a), None, fr, ins, kind)
        add_pend(st, Pend(key, kind, st.simp(a[ci]), a[ki], tuple(a), st.fresh(), e.loc(fr, ins)))
        return [(st, ZERO), (s2, c(-1))]
    return f

def cancel_key(kind, keyi):
    def f(e, st, fr, a, ins):
        key = tuple(st.simp(a[i]) for i in keyi)
        e.event(st, "cancel", kind, tuple(a), None, fr, ins)
        for p in pend(st):
            if p.kind == kind and p.h == key:
                del_pend(st, p)
                return [(st, ZERO)]
        e.event(st, "mem", "cancel-not-pending", tuple(a), None, fr, ins, kind)
        return [(st, c(-1))]
    return f

def m_close(e, st, fr, a, ins):
    fd = st.simp(a[0])
    r = mk("ret", "close", st.fresh())
    st.wfacts(); st.iv[r] = (-1, 0)
    e.event(st, "call", "close", (fd,), r, fr, ins)
    cl = st.aux.get("closed", ())
    if fd in cl:
        e.event(st, "mem", "double-close", (fd,), None, fr, ins)
    if st.ub(fd) < 0:
        e.event(st, "mem", "close-invalid", (fd,), None, fr, ins)
    st.aux["closed"] = cl + (fd,)
    M.set_errno(st, "close")
    return [(st, r)]

def release(name):
    """free-like function, compatible with NULL"""
    def f(e, st, fr, a, ins):
        p = st.simp(a[0])
        if st.isnull(p) is True:
            return [(st, None)]
        ev = e.event(st, "call", name, (p,), None, fr, ins)
        b, off = base_off(p)
        if b is not None:
            r = mem_region(st, b)
            if r.freed is not None:
                e.event(st, "mem", "double-free", (p,), None, fr, ins, r.freed)
            st.wmem()[b] = Region(r.d, r.segs, ev, r.size)
        return [(st, None)]
    return f

def acquire(name, err=True):
    """returns a new object or NULL"""
    def f(e, st, fr, a, ins):
        s2 = st.fork()
        t = M.new_heap(e, st, fr, ins, name, ZERO, False)
        e.event(st, "call", name, tuple(a), t, fr, ins)
        st.assume(mk("eq0", t), False)
        e.event(s2, "call", name, tuple(a), ZERO, fr, ins)
        M.set_errno(s2, name)
        return [(st, t), (s2, ZERO)]
    return f

# ------------------------------------------------------------ callback outcomes
def io_alts(tag, zero):
    def f(st, p):
        buf, n, mn = p.args[1], p.args[2], p.args[3]
        def neg1(s): return [c(-1)]
        def eof(s): return [ZERO]
        def some(s):
            ns, ms = s.simp(n), s.simp(mn)
            if ns is ms:
                ln = ns
            else:
                ln = mk("iolen", tag, s.fresh())
                if not s.setiv(sub(ln, ns), -INF, 0): return None
                if not s.setiv(sub(ln, ms), 0, INF): return None
                if s.lb(ms) >= 0: s.setiv(ln, max(0, s.lb(ms)), s.ub(ns))
            if tag == "read":
                b, o = base_off(buf)
                mem_write(s, b, o, s.simp(n), mk("b.fn", "net", p.n, show(p.cb), s.simp(n)))
            return [ln]
        def short(s):
            ms = s.simp(mn)
            ln = mk("iolen", tag, s.fresh())
            if not s.setiv(ln, 1, INF) or not s.setiv(sub(ln, ms), -INF, -1): return None
            return [ln]
        out = [("error", neg1)]
        if zero: out.append(("eof", eof))
        out.append(("complete", some))
        return out
    return f

def fd_alts(st, p):
    def bad(s): return [c(-1)]
    def good(s):
        t = mk("newfd", p.kind, s.fresh())
        s.wfacts(); s.iv[t] = (0, 2 ** 31 - 1)
        return [t]
    return [("failed", bad), ("connected" if p.kind == "network_connect" else "accepted", good)]

def none_alts(st, p):
    return [("fires", lambda s: [])]

def hs_alts(st, p):
    def good(s):
        n = s.fresh()
        return [atom("keys", "c", n, p=True, nn=True), atom("keys", "s", n, p=True, nn=True)]
    return [("failed", lambda s: [ZERO, ZERO]), ("done", good)]

def pipe_alts(st, p):
    def wr(v):
        def f(s):
            b, o = base_off(p.args[4])
            r = s.mem.get(b)
            mem_write(s, b, o, c(4), c(v))
            return []
        return f
    return [("error", wr(-1)), ("eof", wr(0))]

def wait_alts(st, p):
    return [("error", lambda s: [c(-1)]), ("data", lambda s: [ZERO]), ("eof", lambda s: [c(1)])]

def dns_alts(st, p):
    def good(s):
        t = atom("heap", "saslist", s.fresh(), 0, p=True)
        s.wmem()[t] = Region(("init", 0))
        s.assume(mk("eq0", t), False)
        return [t]
    return [("failed", lambda s: [ZERO]), ("resolved", good)]

ALTS = {"network_read": io_alts("read", True), "network_write": io_alts("write", False), "network_accept": fd_alts,
        "network_connect": fd_alts, "events_timer": none_alts, "events_immediate": none_alts, "events_network": none_alts,
        "proto_handshake": hs_alts, "proto_pipe": pipe_alts, "netbuf_wait": wait_alts, "dnsthread": dns_alts}
PERSIST = {"proto_pipe"}      # the handle outlives its callback

def base_models():
    m = dict(crypto.MODELS)
    m.update({
        "network_read": register("network_read", 4, 5), "network_read_cancel": cancel("network_read"),
        "network_write": register("network_write", 4, 5), "network_write_cancel": cancel("network_write"),
        "network_accept": register("network_accept", 1, 2), "network_accept_cancel": cancel("network_accept"),
        "network_connect": register("network_connect", 1, 2), "network_connect_bind": register("network_connect", 2, 3),
        "network_connect_cancel": cancel("network_connect"),
        "events_timer_register": register("events_timer", 0, 1), "events_timer_register_double": register("events_timer", 0, 1),
        "events_timer_cancel": cancel("events_timer"),
        "events_immediate_register": register("events_immediate", 0, 1), "events_immediate_cancel": cancel("events_immediate"),
        "events_network_register": reg_key("events_network", 0, 1, (2, 3)), "events_network_cancel": cancel_key("events_network", (0, 1)),
        "proto_handshake": register("proto_handshake", 5, 6), "proto_handshake_cancel": cancel("proto_handshake"),
        "proto_pipe": register("proto_pipe", 5, 6), "proto_pipe_cancel": cancel("proto_pipe"),
        "dnsthread_resolveone": dns_resolve, "dnsthread_spawn": acquire("dnsthread_spawn"), "dnsthread_kill": dns_kill,
        "close": m_close, "sock_addr_freelist": release("sock_addr_freelist"), "sock_addr_free": release("sock_addr_free"),
        "proto_crypt_free": release("proto_crypt_free"),
        "sock_addr_duplist": acquire("sock_addr_duplist"), "sock_addr_dup": acquire("sock_addr_dup"),
        "netbuf_read_init": acquire("netbuf_read_init"), "netbuf_read_free": release("netbuf_read_free"),
        "netbuf_read_wait": nb_wait, "netbuf_read_wait_cancel": nb_wait_cancel,
    })
    return m

def dns_resolve(e, st, fr, a, ins):
    s2 = st.fork()
    e.event(s2, "reg", "dnsthread", tuple(a), c(-1), fr, ins)
    chk = base_off(st.simp(a[0]))[0]
    if chk is None:
        e.event(st, "mem", "nullderef", (a[0],), None, fr, ins)
    n = st.fresh()
    h = atom("hnd", "dnsthread", n, p=True, nn=True)
    e.event(st, "reg", "dnsthread", tuple(a), h, fr, ins)
    add_pend(st, Pend(h, "dnsthread", st.simp(a[2]), a[3], tuple(a), n, e.loc(fr, ins)))
    return [(st, ZERO), (s2, c(-1))]

def dns_kill(e, st, fr, a, ins):
    T = st.simp(a[0])
    st.aux["pend"] = tuple(p for p in pend(st) if not (p.kind == "dnsthread" and st.simp(p.args[0]) is T))
    return release("dnsthread_kill")(e, st, fr, a, ins)

def nb_wait(e, st, fr, a, ins):
    M.chk_freed(e, st, base_off(a[0])[0], a[0], fr, ins)
    for p in pend(st):
        if p.kind == "netbuf_wait" and p.args[0] is a[0]:
            e.event(st, "mem", "register-twice", tuple(a), None, fr, ins, "netbuf_wait")
    s2 = st.fork()
    e.event(s2, "reg", "netbuf_wait", tuple(a), c(-1), fr, ins)
    M.set_errno(s2, "netbuf_wait")
    n = st.fresh()
    e.event(st, "reg", "netbuf_wait", tuple(a), ZERO, fr, ins)
    add_pend(st, Pend(st.simp(a[0]), "netbuf_wait", st.simp(a[2]), a[3], tuple(a), n, e.loc(fr, ins)))
    return [(st, ZERO), (s2, c(-1))]

def nb_wait_cancel(e, st, fr, a, ins):
    M.chk_freed(e, st, base_off(a[0])[0], a[0], fr, ins)
    e.event(st, "cancel", "netbuf_wait", tuple(a), None, fr, ins)
    for p in pend(st):
        if p.kind == "netbuf_wait" and p.h is st.simp(a[0]):
            del_pend(st, p)
    return [(st, None)]

# ------------------------------------------------------------ exploration
class Trans:
    """one transition: a callback outcome or an owner operation"""
    __slots__ = ("label", "kind", "alt", "pre", "st", "ret", "evs", "p", "trail", "args")

def canon(st, roots, extra=()):
    """abstract state: cells of live objects and pending operations, values up to renaming"""
    num = {}
    def nm(t):
        if t.op == "c": return t.a[0]
        if t.op in ("param", "glob", "fn", "f"): return t
        if t in num: return num[t]
        num[t] = ("v", len(num), t.op, t.a[0] if t.op in ("heap", "hnd", "b.fn") and isinstance(t.a[0], str) else "", st.iszero(t) if not t.op.startswith("b.") else None)
        return num[t]
    def val(t):
        if not isinstance(t, T): return t
        t = st.simp(t) if not t.op.startswith("b.") else t
        if t.op == "lin":
            b, o = base_off(t)
            if b is not None and b.p:
                return (nm(b), val(o))
            return ("lin", t.a[0], tuple((nm(x), n) for x, n in t.a[1]), )
        return nm(t)
    out = []
    # objects in the order they are reached from the owner's handle, parameters and globals; unreached ones by age
    order = []; seen = set()
    todo = [x for x in sorted(st.mem, key=lambda t: t.id) if x.op in ("glob", "param", "f")]
    h = st.aux.get("handle")
    if h is not None and base_off(h)[0] is not None: todo.insert(0, base_off(h)[0])
    late = [x for x in sorted(st.mem, key=lambda t: t.id) if x.op not in ("glob", "param", "f", "stk")]
    while todo or late:
        b = todo.pop(0) if todo else late.pop(0)
        if b in seen or b not in st.mem: continue
        seen.add(b); order.append(b)
        if st.mem[b].freed is not None: continue
        for o, z, v in sorted(((o, z, v) for o, z, v in st.mem[b].segs if o.op == "c" and isinstance(v, T) and not v.op.startswith("b.")), key=lambda x: x[0].a[0]):
            q = base_off(v)[0]
            if q is not None and q not in seen: todo.append(q)
    for b in order:
        r = st.mem[b]
        if b.op == "glob" and (b.a[0] == "errno" or ":.str" in b.a[0] or "__PRETTY" in b.a[0]): continue
        if b.op == "heap" and r.freed is not None and b not in roots: continue
        cells = tuple(sorted(((cv(o) if o.op == "c" else -1, cv(z) if z.op == "c" else -1, str(val(v))) for o, z, v in sorted(r.segs, key=lambda x: cv(x[0]) if x[0].op == "c" else -1))))
        out.append((str(nm(b)), r.freed is not None, cells))
    ps = tuple(sorted((p.kind, str(val(p.cb)), str(p.armed), tuple(str(val(x)) for x in p.args)) for p in pend(st)))
    cl = tuple(sorted(str(val(x)) for x in st.aux.get("closed", ()) if x in num or x.op in ("param", "c")))
    prm = tuple(sorted((str(t.a[0]), v) for t, v in ((b.a[0], v) for b, v in st.bf.items() if b.op == "eq0") if t.op == "param"))
    return (tuple(out), ps, cl, prm) + tuple(extra)

class Machine:
    def __init__(self, R, models=None, alts=None, extra=None, opaque=(), trace=(), max_states=4000, **kw):
        m = base_models()
        m.update(models or {})
        self.R = R
        self.alts = dict(ALTS); self.alts.update(alts or {})
        cfg = Cfg(models=m, opaque=set(opaque), trace=set(trace), **kw)
        self.e = Engine(R.prog, cfg)
        self.trans = []
        self.aborts = []      # transitions that end in a failed assertion
        self.states = {}
        self.extra = extra or (lambda st: ())
        self.max_states = max_states
    def call(self, name_or_fn, args, st, label=None, trail=(), kind="op", alt="", p=None):
        f = name_or_fn if not isinstance(name_or_fn, str) else self.R.prog.need(name_or_fn)
        ev0 = st.ev
        pre = st.fork()
        st = st.fork()
        st.path = None
        res = self.e.run(f, list(args), st)
        if self.e.cfg.merge and len(res) > 1:
            res = merge_states(res, ev0)
        out = []
        for s, r in res:
            if r == "loopback":
                continue
            t = Trans()
            t.label = label or f.name; t.kind = kind; t.alt = alt; t.pre = pre; t.st = s; t.ret = r; t.p = p; t.args = args
            t.evs = s.evlist(ev0)
            t.trail = trail + ("%s%s" % (t.label, "[" + alt + "]" if alt else ""),)
            # stack regions of the finished call are gone
            for b in [b for b in s.mem if b.op == "stk"]:
                del s.wmem()[b]
            if r == "unreachable":
                # an assertion failure (or undefined point): not part of the explored behaviour
                if t.evs and t.evs[-1].name == "__assert_fail": self.aborts.append(t)
                continue
            out.append(t)
            self.trans.append(t)
        return out
    def explore(self, inits, ops=(), stop=None):
        """inits: transitions of the constructor; ops(st) -> [(label, fn, args)] owner operations possible in a state.
        stop(t) -> True when the state after t is final"""
        work = list(inits)
        while work:
            t = work.pop()
            if stop and stop(t):
                continue
            key = canon(t.st, (), self.extra(t.st))
            if key in self.states:
                continue
            self.states[key] = t
            if len(self.states) > self.max_states:
                self.R.deferred = "too many abstract states"
                break
            for p in pend(t.st):
                if not p.armed: continue
                f = self.cbfunc(p.cb)
                if f is None:
                    continue        # the callback belongs to the owner
                for alt, setup in self.alts[p.kind](t.st, p):
                    s = t.st.fork()
                    if p.kind in PERSIST:
                        q = Pend(p.h, p.kind, p.cb, p.cookie, p.args, p.n, p.loc, False)
                        s.aux["pend"] = tuple(q if x is p else x for x in pend(s))
                    else:
                        del_pend(s, p)
                    extra = setup(s)
                    if extra is None: continue
                    self.e.event(s, "cb", p.kind, tuple([p.h if isinstance(p.h, T) else ZERO] + extra), None, None, None, (alt, p))
                    work.extend(self.call(f, [p.cookie] + extra, s, norm(f.name), t.trail, "cb", alt, p))
            for label, fn, args, *aux in (ops(t.st) if ops else ()):
                s = t.st.fork()
                if aux: s.aux.update(aux[0])
                work.extend(self.call(fn, args, s, label, t.trail, "op"))
        self.R.used(self.e)
        self.R.stats["states"] = self.R.stats.get("states", 0) + len(self.states)
        return self.trans
    def cbfunc(self, cb):
        if cb.op != "fn":
            return None
        key = cb.a[0]
        if ":" in key:
            src, n = key.rsplit(":", 1)
            return self.R.prog.mods[src].funcs.get(n)
        return self.R.prog.lookup(key)

def memfaults(evs):
    return [e for e in evs if e.kind == "mem"]

# ------------------------------------------------------------ common judgements
def nofaults(R, trans, at, rule="memory-safe"):
    """no use of freed memory, double free, double cancellation, use of a closed descriptor or null dereference"""
    for t in trans:
        for e in memfaults(t.evs):
            R.ok(False, rule, "%s (%s:%s)" % (at(t), e.loc[0].replace("/repo/", ""), e.loc[1]), "%s of %s" % (e.name, show(e.args[0]) if e.args else ""), e.st)
        R.ok(True, rule, at(t), "")

def completions(evs):
    """[(kind, pend, alt, values handed to the callback, event)] of completed operations"""
    return [(e.name, e.x[1], e.x[0], e.args[1:], e) for e in evs if e.kind == "cb"]

RESOURCE0 = {"malloc", "calloc", "realloc", "strdup", "crypto_aes_key_expand", "sock_addr_duplist", "sock_addr_dup", "netbuf_read_init",
             "dnsthread_spawn", "elasticarray_init", "ptrheap_init", "timerqueue_init", "BN_new", "BN_CTX_new", "BN_bin2bn", "network_connect", "mpool_malloc",
             "elasticqueue_init", "proto_pipe", "proto_conn_create", "sock_addr_prettyprint", "asprintf"}
RESOURCE1 = {"crypto_entropy_read", "crypto_dh_compute", "crypto_dh_generate", "crypto_dh_generate_pub", "fcntl", "clock_gettime", "vasprintf",
             "elasticarray_resize", "pthread_create", "pthread_mutex_lock", "pthread_mutex_unlock", "asprintf"}
def internal_failure(evs, st):
    """an event of this transition that reports a lack of local resources (not something a peer or the network does)"""
    for e in evs:
        if e.kind == "reg" and (e.ret is ZERO and e.name not in ("events_network", "netbuf_wait", "dnsthread") or e.ret is c(-1)):
            return e
        if e.kind == "call" and e.ret is not None:
            r = st.simp(e.ret)
            if e.name in RESOURCE0 and st.isnull(r) is True: return e
            if e.name in RESOURCE1 and st.iszero(r) is False: return e
    return None

def icalls(evs, target):
    return [e for e in evs if e.kind == "icall" and e.args[0] is target]

def subst(t, m, memo=None):
    """replace subterms"""
    if memo is None: memo = {}
    if t in m: return m[t]
    if t in memo: return memo[t]
    if isinstance(t, tuple):
        r = tuple(subst(x, m, memo) if isinstance(x, (T, tuple)) else x for x in t)
    elif not isinstance(t, T) or not t.a:
        r = t
    else:
        a = tuple(subst(x, m, memo) if isinstance(x, (T, tuple)) else x for x in t.a)
        if all(x is y for x, y in zip(a, t.a)): r = t
        elif t.op == "b.cat": r = bcat(list(a))
        else: r = mk(t.op, *a)
    memo[t] = r
    return r

def trail(t):
    return " -> ".join(t.trail)
