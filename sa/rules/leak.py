"""Resources: C31.  Each function that acquires something is run with every outcome of every call it makes; what it acquired must be
released or in the hands of somebody when it returns, and nothing may be released twice."""
from .common import *
from .. import models as M
from ..machine import *
from ..absint import Region
from . import netio, dh, addr, start

FD = 2 ** 31 - 1
def open_fds(st): return st.aux.get("fds", ())

def newfd(e, st, name):
    t = mk("fd", name, st.fresh()); st.wfacts(); st.iv[t] = (0, FD)
    st.aux["fds"] = open_fds(st) + (t,)
    return t

def fd_maker(name):
    def f(e, st, fr, a, ins):
        s2 = st.fork(); e.event(s2, "call", name, tuple(a), c(-1), fr, ins); M.set_errno(s2, name)
        t = newfd(e, st, name)
        e.event(st, "call", name, tuple(a), t, fr, ins)
        return [(st, t), (s2, c(-1))]
    return f

def fd_pair(name, i):
    def f(e, st, fr, a, ins):
        s2 = st.fork(); e.event(s2, "call", name, tuple(a), c(-1), fr, ins); M.set_errno(s2, name)
        b, o = base_off(st.simp(a[i]))
        for k in (0, 1): mem_write(st, b, addc(o, 4 * k), c(4), newfd(e, st, name))
        e.event(st, "call", name, tuple(a), ZERO, fr, ins)
        return [(st, ZERO), (s2, c(-1))]
    return f

def m_close(e, st, fr, a, ins):
    fd = st.simp(a[0]); cl = st.aux.get("closed", ())
    # after a failure it is not specified whether the descriptor is open: closing it again is neither required nor wrong
    if fd in cl: e.event(st, "mem", "double-close", (fd,), None, fr, ins)
    if st.ub(fd) < 0: e.event(st, "mem", "close-invalid", (fd,), None, fr, ins)
    st.aux["fds"] = tuple(x for x in open_fds(st) if x is not fd)
    s2 = st.fork()
    st.aux["closed"] = tuple(x for x in cl if x is not fd) + (fd,)
    e.event(s2, "call", "close", (fd,), c(-1), fr, ins); M.set_errno(s2, "close")
    e.event(st, "call", "close", (fd,), ZERO, fr, ins)
    return [(st, ZERO), (s2, c(-1))]

def file_maker(name):
    def f(e, st, fr, a, ins):
        s2 = st.fork(); e.event(s2, "call", name, tuple(a), ZERO, fr, ins); M.set_errno(s2, name)
        t = M.new_heap(e, st, fr, ins, name, None, False); st.assume(mk("eq0", t), False)
        for g in ("stdin", "stdout", "stderr"): st.assume(mk("eq0", sub(t, mem_read(st, glob(g), ZERO, 8, True))), False)
        e.event(st, "call", name, tuple(a), t, fr, ins)
        return [(st, t), (s2, ZERO)]
    return f

def m_fclose(e, st, fr, a, ins):
    out = release("fclose")(e, st, fr, a, ins)
    s = out[0][0]; r = mk("ret", "fclose", s.fresh()); s.wfacts(); s.iv[r] = (-1, 0); M.set_errno(s, "fclose")
    return [(s, r)]

def res_init(name):
    """initialised in place: mutexes, condition variables"""
    def f(e, st, fr, a, ins):
        s2 = st.fork(); e.event(s2, "call", name, tuple(a), c(11), fr, ins)
        st.aux["sync"] = st.aux.get("sync", ()) + (st.simp(a[0]),)
        e.event(st, "call", name, tuple(a), ZERO, fr, ins)
        return [(st, ZERO), (s2, c(11))]
    return f

def res_destroy(name):
    def f(e, st, fr, a, ins):
        p = st.simp(a[0]); l = st.aux.get("sync", ())
        M.chk_freed(e, st, base_off(p)[0], p, fr, ins)
        if p not in l: e.event(st, "mem", "destroyed-not-initialised", (p,), None, fr, ins)
        st.aux["sync"] = tuple(x for x in l if x is not p)
        e.event(st, "call", name, tuple(a), ZERO, fr, ins)
        return [(st, ZERO)]
    return f

def rc(name, *codes):
    def f(e, st, fr, a, ins):
        out = []
        for k in codes:
            s = st.fork() if k is not codes[-1] else st
            e.event(s, "call", name, tuple(a), c(k), fr, ins); out.append((s, c(k)))
        return out
    return f

def m_create(e, st, fr, a, ins):
    s2 = st.fork(); e.event(s2, "call", "pthread_create", tuple(a), c(11), fr, ins)
    b, o = base_off(st.simp(a[0]))
    t = mk("thread", st.fresh())
    if b is not None: mem_write(st, b, o, c(8), t)
    arg = st.simp(a[3]); ab = base_off(arg)[0]; own = ()
    if frees(e, st.simp(a[2])): own = (arg,)
    elif ab in st.mem: own = tuple(st.simp(v) for _, z, v in st.mem[ab].segs if isinstance(v, T) and v.p)      # what it can copy out of its argument
    st.aux["threads"] = st.aux.get("threads", ()) + ((t, own, arg),)
    e.event(st, "call", "pthread_create", tuple(a), ZERO, fr, ins)
    return [(st, ZERO), (s2, c(11))]

def frees(e, fn):
    """a thread function that itself frees memory (its argument)"""
    from .graceful import fnof
    class P: pass
    P.prog = e.prog
    f = fnof(P, fn)
    if f is None: return False
    f._parse()
    return any(I.op == "call" and I.x and I.x[0] == "g" and norm(I.x[1]) == "free" for b in f.order for I in f.blocks[b])

def m_malloc(e, st, fr, a, ins):
    s2 = st.fork(); e.event(s2, "call", "malloc", tuple(a), ZERO, fr, ins)
    t = M.set_errno(s2, "malloc"); s2.wfacts(); s2.iv[t] = (1, 4095)
    t = M.new_heap(e, st, fr, ins, "malloc", a[0], False); st.assume(mk("eq0", t), False)
    e.event(st, "call", "malloc", tuple(a), t, fr, ins)
    return [(st, t), (s2, ZERO)]

def m_join(e, st, fr, a, ins):
    ev = e.event(st, "call", "pthread_join", tuple(a), ZERO, fr, ins)
    for t, own, arg in st.aux.get("threads", ()):
        b = base_off(arg)[0]
        if t is st.simp(a[0]) and arg in own and b in st.mem:        # the thread frees its argument before it ends
            r = st.mem[b]; st.wmem()[b] = Region(r.d, r.segs, ev, r.size)
            st.aux["sync"] = tuple(p for p in st.aux.get("sync", ()) if base_off(p)[0] is not b)
            held = {st.simp(v) for o, z, v in r.segs if isinstance(v, T)}
            st.aux["fds"] = tuple(x for x in open_fds(st) if x not in held)
    st.aux["threads"] = tuple(x for x in st.aux.get("threads", ()) if x[0] is not st.simp(a[0]))
    return [(st, ZERO)]

def m_wait(e, st, fr, a, ins):
    """another thread may have written to what the lock protects"""
    s2 = st.fork(); e.event(s2, "call", "pthread_cond_wait", tuple(a), c(1), fr, ins)
    b, o = base_off(st.simp(a[0]))
    if b is not None and b in st.mem:
        for so, sz, v in list(st.mem[b].segs):
            if sz is c(4) and so.op == "c": mem_write(st, b, so, sz, mk("shared", st.fresh(), so))
    e.event(st, "call", "pthread_cond_wait", tuple(a), ZERO, fr, ins)
    return [(st, ZERO), (s2, c(1))]

def m_asprintf(e, st, fr, a, ins):
    b, o = base_off(st.simp(a[0]))
    s = st.fork(); e.event(s, "call", "asprintf", tuple(a), c(-1), fr, ins); M.set_errno(s, "asprintf")
    t = M.new_heap(e, st, fr, ins, "asprintf", None, False); st.assume(mk("eq0", t), False)
    r = mk("ret", "asprintf", st.fresh()); st.wfacts(); st.iv[r] = (0, FD)
    mem_write(st, b, o, c(8), t)
    e.event(st, "call", "asprintf", tuple(a), r, fr, ins)
    return [(st, r), (s, c(-1))]

def m_strchr(name):
    def f(e, st, fr, a, ins):
        """somewhere in the string, or not at all"""
        s = st.fork(); e.event(s, "call", name, tuple(a), ZERO, fr, ins)
        k = atom("pos", st.fresh(), nn=True); st.wfacts(); st.iv[k] = (0, FD)
        r = add(st.simp(a[0]), k)
        e.event(st, "call", name, tuple(a), r, fr, ins)
        return [(st, r), (s, ZERO)]
    return f

def m_vsnprintf(e, st, fr, a, ins):
    r = mk("ret", "vsnprintf", st.fresh()); st.wfacts(); st.iv[r] = (-1, FD)
    e.event(st, "call", "vsnprintf", tuple(a), r, fr, ins)
    return [(st, r)]

RES = {"malloc": m_malloc, "socket": fd_maker("socket"), "open": fd_maker("open"), "dup": fd_maker("dup"), "accept": fd_maker("accept"), "socketpair": fd_pair("socketpair", 3), "pipe": fd_pair("pipe", 0), "close": m_close,
       "fopen": file_maker("fopen"), "fclose": m_fclose, "pthread_mutex_init": res_init("pthread_mutex_init"), "pthread_cond_init": res_init("pthread_cond_init"), "pthread_mutex_destroy": res_destroy("pthread_mutex_destroy"),
       "pthread_cond_destroy": res_destroy("pthread_cond_destroy"), "pthread_mutex_lock": rc("pthread_mutex_lock", 35, 0), "pthread_mutex_unlock": rc("pthread_mutex_unlock", 0), "pthread_cond_signal": rc("pthread_cond_signal", 1, 0),
       "pthread_cond_wait": m_wait, "pthread_create": m_create, "pthread_join": m_join, "pthread_cancel": rc("pthread_cancel", 0), "pthread_attr_init": res_init("pthread_attr_init"), "pthread_attr_destroy": res_destroy("pthread_attr_destroy"), "asprintf": m_asprintf,
       "vsnprintf": m_vsnprintf, "strchr": m_strchr("strchr"), "strrchr": m_strchr("strrchr"), "atexit": rc("atexit", 0)}

class Leak:
    def __init__(self, R, models=None, pop=(), unroll=3, inits=False, **kw):
        self.R = R; self.seen = set()
        ms = dict(RES); ms.update(netio.MPOOL); ms.update(models or {})
        self.m = Machine(R, models=ms, merge=False, unroll_all=unroll, inits=inits, **kw)
        for k in pop: self.m.e.cfg.models.pop(k, None); self.m.e.cfg.nofollow.add(k)
    def run(self, name, args, st, keep=False, trail=(), held=()):
        """-> transitions after which the caller holds something"""
        R = self.R; f = R.prog.need(name); good = []
        m0 = {b for b in st.mem if b.op == "heap"}
        ts = self.m.call(f, args, st, name, trail)
        for t in ts:
            at = self.at(t)
            for e in memfaults(t.evs): R.ok(False, "released-once", "%s in %s" % (locs(e), name), "%s of %s (%s)" % (e.name, show(e.args[0]) if e.args else "", at), e.st)
            R.ok(True, "released-once", at, "")
            if isinstance(t.ret, str): continue
            bad = self.failed(f, t)
            self.check(t, name, bad, keep, at, held)
            if not bad: good.append(t)
        R.used(self.m.e)
        if not R.viol: R.need(len(ts), name + " returns")
        return good, ts
    def at(self, t):
        return "%s, %s" % (" then ".join(t.trail), locs(t.evs[-1]) if t.evs else "no calls")
    def failed(self, f, t):
        if t.ret is None: return False
        ptr = f.header[:f.header.index("@")].split()[-1] == "ptr"
        return t.st.isnull(t.ret) is True if ptr else t.st.iszero(t.st.simp(t.ret)) is not True if f.name.replace("libcperciva_", "") not in FDRET else t.st.ub(t.ret) < 0
    def check(self, t, name, bad, keep, at, held=()):
        R = self.R; st = t.st
        roots = [b for b in st.mem if b.op == "glob"] + [x for _, own, a in st.aux.get("threads", ()) for x in own]
        olds = {id(p) for p in pend(t.pre)}
        for p in pend(st):
            roots += [p.cookie] + [x for x in p.args if isinstance(x, T)] + ([p.h] if isinstance(p.h, T) else [])
        if not bad: roots += [b for b in st.mem if b.op in ("param", "ld", "f")] + [x for x in t.args if isinstance(x, T)]
        elif keep: roots += [x for x in t.args if isinstance(x, T) and base_off(st.simp(x))[0] is not None and base_off(st.simp(x))[0].op == "heap"]
        roots += list(held) if keep else [b for b in t.pre.mem if b.op == "heap"]
        roots += [x for e in t.evs if e.kind == "icall" for x in e.args if isinstance(x, T)]
        if not bad and isinstance(t.ret, T): roots.append(t.ret)
        live = reach(st, roots); n = 0
        word = "fails" if bad else "succeeds"
        for b, r in st.mem.items():
            if b.op != "heap" or r.freed is not None or st.isnull(b) is True: continue
            n += 1
            if bad and keep and b not in t.pre.mem and b.a[0].startswith("mpool"):
                R.ok(False, "nothing-lost", at, "%s fails and keeps the record from %s (line %s)" % (name, b.a[0], b.a[2] if len(b.a) > 2 else "?"), st)
            R.ok(b in live, "nothing-lost", at, "%s %s and the memory from %s (line %s) is lost" % (name, word, b.a[0], b.a[2] if len(b.a) > 2 else "?"), st)
        held = {st.simp(v) for b in live if b in st.mem for o, z, v in st.mem[b].segs if isinstance(v, T) and not v.op.startswith("b.")} | {st.simp(x) for x in roots if isinstance(x, T)}
        for x in open_fds(st):
            R.ok(x in held, "nothing-lost", at, "%s %s and the descriptor from %s stays open" % (name, word, x.a[0]), st)
        for p in st.aux.get("sync", ()):
            b = base_off(p)[0]; r = st.mem.get(b)
            R.ok(b in live and (r is None or r.freed is None), "nothing-lost", at, "%s %s and a lock or condition variable is never destroyed" % (name, word), st)
        if bad:
            for p in pend(st):
                if id(p) not in olds: R.ok(False, "nothing-lost", at, "%s fails and leaves %s registered" % (name, p.kind), st)
            if [x for x in st.aux.get("threads", ()) if x not in t.pre.aux.get("threads", ())]:
                R.ok(bool([e for e in t.evs if e.kind == "call" and e.name.startswith("pthread_") and isinstance(e.ret, T) and st.iszero(e.ret) is False]), "thread-ended", at, "%s fails and the thread it started is left running" % name, st)
            # what the caller owns is left alone
            for e in t.evs:
                if e.kind == "call" and e.name in FREES and e.args:
                    b = base_off(e.args[0])[0]
                    if b is not None and (b.op in ("param", "ld") or (b.op == "heap" and b in t.pre.mem and not keep)):
                        R.ok(False, "caller-keeps-its-own", locs(e), "%s fails and %s gives up %s, which belongs to its caller" % (name, e.name, show(e.args[0])), e.st)
                if e.kind == "call" and e.name == "close" and e.args[0].op == "param": R.ok(False, "caller-keeps-its-own", locs(e), "%s fails and closes a descriptor of its caller" % name, e.st)
        R.ok(True, "nothing-lost", at, "")
        k = "failing" if bad else "succeeding"
        R.stats[k] = R.stats.get(k, 0) + 1
    def gone(self, t, name):
        """after the destructor nothing is left"""
        R = self.R; st = t.st; at = self.at(t)
        for b, r in st.mem.items():
            if b.op == "heap" and r.freed is None and st.isnull(b) is not True:
                R.ok(False, "nothing-left", at, "%s leaves the memory from %s (line %s)" % (name, b.a[0], b.a[2] if len(b.a) > 2 else "?"), st)
        for x in open_fds(st): R.ok(False, "nothing-left", at, "%s leaves the descriptor from %s open" % (name, x.a[0]), st)
        for p in pend(st): R.ok(False, "nothing-left", at, "%s leaves %s registered" % (name, p.kind), st)
        R.ok(True, "nothing-left", at, "")

FREES = {"free", "sock_addr_free", "sock_addr_freelist", "netbuf_read_free", "proto_crypt_free", "fclose", "BN_free", "BN_clear_free", "realloc"}
FDRET = {"sock_listener", "sock_connect", "sock_connect_nb", "sock_connect_bind_nb", "asprintf"}

def reach(st, roots):
    seen = set(); todo = [base_off(st.simp(x))[0] for x in roots if isinstance(x, T)]
    while todo:
        b = todo.pop()
        if b is None or b in seen: continue
        seen.add(b)
        if b not in st.mem: continue
        if st.mem[b].freed is not None: continue
        for o, z, v in st.mem[b].segs:
            if isinstance(v, T) and not v.op.startswith("b."):
                q = base_off(st.simp(v))[0]
                if q is not None and q.p: todo.append(q)
    return seen

def prep(f, st, null=()):
    ps = params(f)
    for p in ps:
        if p.p and p.a[0] not in null: st.assume(mk("eq0", p), False)
    return ps

def one(R, name, dtor=None, pop=(), keep=False, null=(), setup=None, args=None, dargs=None, **kw):
    f = R.prog.need(name)
    L = Leak(R, pop=(name,) + tuple(pop) + ((dtor,) if dtor else ()), **kw)
    st = State(); ps = prep(f, st, null)
    if setup: setup(st, ps)
    good, ts = L.run(name, args(ps) if args else ps, st, keep)
    if not R.viol: R.need(len(good), name + " succeeds")
    if dtor:
        for t in good:
            s = t.st.fork(); s.ev = None
            d = R.prog.need(dtor)
            for u in L.m.call(d, dargs(s, t.ret, ps) if dargs else [t.ret], s, dtor, t.trail):
                for e in memfaults(u.evs): R.ok(False, "released-once", "%s in %s" % (locs(e), dtor), "%s of %s (%s)" % (e.name, show(e.args[0]) if e.args else "", L.at(u)), e.st)
                if not isinstance(u.ret, str): L.gone(u, dtor)
    return L, good

def fd_range(*names):
    def f(st, ps):
        for p in ps:
            if p.a[0] in names: st.wfacts(); st.iv[p] = (0, FD)
    return f

def nothing(e, st, fr, a, ins): return [(st, None)]
NBC = {"sock_connect_bind_nb": fd_maker("sock_connect_bind_nb"), "sock_connect_nb": fd_maker("sock_connect_nb")}
TAB = [
    ("proto_conn_create", {}), ("proto_pipe", dict(dtor="proto_pipe_cancel")), ("proto_handshake", dict(dtor="proto_handshake_cancel")),
    ("network_read", dict(dtor="network_read_cancel")), ("network_write", dict(dtor="network_write_cancel")), ("network_accept", dict(dtor="network_accept_cancel")),
    ("network_connect", dict(dtor="network_connect_cancel", unroll=2, models=NBC)), ("network_connect_bind", dict(dtor="network_connect_cancel", unroll=2, models=NBC)), ("network_connect_timeo", dict(dtor="network_connect_cancel", unroll=2, models=NBC)),
    ("netbuf_read_init", dict(dtor="netbuf_read_free")),
    ("sock_listener", {}), ("sock_connect", {}), ("sock_connect_bind_nb", {}), ("sock_connect_nb", {}),
    ("sock_addr_dup", dict(dtor="sock_addr_free")), ("sock_addr_duplist", dict(dtor="sock_addr_freelist", pop=("sock_addr_dup", "sock_addr_free"))),
    ("sock_addr_serialize", {}), ("sock_addr_deserialize", dict(dtor="sock_addr_free")), ("sock_addr_prettyprint", {}),
    ("pthread_create_blocking_np", {}), ("dnsthread_spawn", {}), ("dnsthread_resolve", dict(pop=("dnsthread_spawn", "dnsthread_resolveone", "dnsthread_kill"))),
    ("pushbits", {}), ("entropy_read_init", dict(dtor="entropy_read_done")), ("entropy_read", {}), ("asprintf", {}), ("ipc_sync_init", dict(dtor="ipc_sync_done")),
    ("daemonize", {}), ("setuidgid", {}), ("elasticarray_init", dict(dtor="elasticarray_free")),
    ("crypto_aes_key_expand", dict(dtor="crypto_aes_key_free", inits=True, unroll=20)), ("crypto_aesctr_init", dict(dtor="crypto_aesctr_free", pop=("crypto_aesctr_alloc", "crypto_aesctr_init2"))), ("crypto_aesctr_buf", dict(pop=("crypto_aesctr_alloc", "crypto_aesctr_init2", "crypto_aesctr_init", "crypto_aesctr_stream", "crypto_aesctr_free"), models={"crypto_aes_encrypt_block": nothing})),
    ("crypto_dh_generate", dict(models=dh.BN, pop=("crypto_dh_generate_pub",))), ("crypto_dh_compute", dict(models=dh.BN)), ("crypto_dh_generate_pub", dict(models=dh.BN)),
    ("proto_crypt_mkkeys", dict(pop=("proto_crypt_free",), models=dict(crypto.DHMODELS))), ("proto_crypt_secret", dict(dtor="proto_crypt_secret_free", models={"feof": rc("feof", 0, 1)})),
]

def seq(R, L, st, steps, trail=(), held=()):
    """operations after one another, continuing after failures, too; held: what the caller has from earlier steps"""
    if not steps: return
    name, mkargs, drop = steps[0]
    s0 = st.fork(); s0.wmem().pop(M.ERRNO, None)
    key = (len(steps), canon(s0, ()), tuple(None if h is None else isinstance(h, T) for h in held))
    if key in L.seen: return
    L.seen.add(key)
    args = mkargs(held)
    if args is None: return seq(R, L, st, steps[1:], trail, held + (None,))
    good, ts = L.run(name, args, st, keep=True, trail=trail, held=[h for h in held if isinstance(h, T)])
    for t in ts:
        if isinstance(t.ret, str): continue
        s = t.st.fork(); s.ev = None
        ok = any(t is g for g in good)
        h = held + ((t.ret if isinstance(t.ret, T) and ok else ONE if ok else None),)
        if isinstance(drop, int) and ok: h = h[:drop] + (None,) + h[drop + 1:]
        if len(steps) == 1 and drop == "all": L.gone(t, name)
        seq(R, L, s, steps[1:], t.trail, h if drop != "all" else ())

def containers(R, only):
    F, ck = atom("param", "handler", p=True, nn=True), [atom("param", "cookie%d" % i, p=True, nn=True) for i in range(4)]
    cmpf = lambda e, st, fr, a, ins: [(s, k) for s, k in ((st.fork(), c(-1)), (st, ONE))]
    def heap(e, st, fr, a, ins):
        """the order of elements: any"""
        e.event(st, "icall", "icall", tuple(a), None, fr, ins)
        if ins.ty.k == "void": return [(st, None)]
        s = st.fork(); return [(s, c(-1)), (st, ONE)]
    pick = lambda k: (lambda h: [h[k]] if h[k] is not None else None)
    with_ = lambda k, *x: (lambda h: [h[k]] + list(x) if h[k] is not None else None)
    clock = rc("monoclock_get", -1, 0)
    tv = atom("param", "timeo", p=True, nn=True)
    J = [
        ("heap", dict(models={"*icall": heap}, unroll=6), [("ptrheap_init", lambda h: [F, F, ck[0]], None), ("ptrheap_add", with_(0, ck[1]), None), ("ptrheap_add", with_(0, ck[2]), None), ("ptrheap_free", pick(0), "all")]),
        ("timerqueue", dict(unroll=6, models={"*icall": heap}), [("timerqueue_init", lambda h: [], None), ("timerqueue_add", with_(0, tv, ck[1]), None), ("timerqueue_add", with_(0, tv, ck[2]), None),
                                        ("timerqueue_delete", lambda h: [h[0], h[1]] if h[0] is not None and h[1] is not None else None, 1), ("timerqueue_free", pick(0), "all")]),
        ("array", dict(unroll=3), [("elasticarray_init", lambda h: [c(2), c(8)], None), ("elasticarray_append", with_(0, tv, c(3), c(8)), None), ("elasticarray_truncate", pick(0), None), ("elasticarray_append", with_(0, tv, ONE, c(8)), None), ("elasticarray_shrink", with_(0, c(4), c(8)), None), ("elasticarray_free", pick(0), "all")]),
        ("timers", dict(unroll=6, inits=True, models={"monoclock_get": clock, "atexit": rc("atexit", -1, 0)}, pop=("events_timer_register", "events_timer_cancel")),
         [("events_timer_register", lambda h: [F, ck[0], tv], None), ("events_timer_register", lambda h: [F, ck[1], tv], None), ("events_timer_cancel", pick(0), 0), ("events_timer_cancel", pick(1), 1), ("events_timer_register", lambda h: [F, ck[1], tv], None)]),
        ("timer-minimum", dict(unroll=6, inits=True, models={"monoclock_get": clock, "atexit": rc("atexit", -1, 0)}, pop=("events_timer_register",)),
         [("events_timer_register", lambda h: [F, ck[0], tv], None), ("events_timer_min", lambda h: [atom("param", "out", p=True, nn=True)], None)]),
        ("immediates", dict(unroll=40, inits=True, pop=("events_immediate_register", "events_immediate_cancel")),
         [("events_immediate_register", lambda h: [F, ck[0], ZERO], None), ("events_immediate_register", lambda h: [F, ck[1], ZERO], None), ("events_immediate_cancel", pick(0), 0), ("events_immediate_cancel", pick(1), 1)]),
        ("sockets", dict(unroll=9, inits=True, models={"atexit": rc("atexit", -1, 0)}, pop=("events_network_register", "events_network_cancel")),
         [("events_network_register", lambda h: [F, ck[0], c(1), ZERO], None), ("events_network_register", lambda h: [F, ck[1], c(1), ONE], None), ("events_network_register", lambda h: [F, ck[2], c(3), ZERO], None), ("events_network_register", lambda h: [F, ck[3], c(1), ZERO], None),
          ("events_network_cancel", lambda h: [ONE, ZERO] if h[0] is not None else None, 0), ("events_network_cancel", lambda h: [ONE, ONE] if h[1] is not None else None, 1)]),
    ]
    for nm, kw, steps in J:
        if only and only != nm: continue
        L = Leak(R, **kw); st = State()
        for x in (F, tv, *ck): st.assume(mk("eq0", x), False)
        seq(R, L, st, steps)
        if not R.viol: R.need(len(L.m.trans), nm + "-steps", len(steps))
        if only: print(nm, len(L.m.trans))

def C31(R):
    """Each constructor, and each sequence of operations on a container, with every failure: on a failing path everything acquired on it
    was released and nothing of the caller's was; on a succeeding path everything acquired is reachable from the result, from an argument,
    from something registered or from a thread; and after the destructor nothing is left."""
    import os
    only = os.environ.get("LEAK")
    for name, kw in TAB:
        if only and only != name: continue
        L, good = one(R, name, **kw)
        if only: print(name, len(L.m.trans))
    containers(R, only)
    if only: return
    # objects with a life of their own: every history
    from . import conn, disp
    conn.C12(Only(R, lambda r: r in CONN or r.split("-no-")[0] in ("pipe", "handshake", "reader") or r.startswith("no-")))
    disp.C31_dispatch(R)
    netio.C20(Only(R, lambda r: r in NET))
    addr.run30(Only(R, lambda r: r in addr.ADDR_LEAK))

NET = {"nothing-left", "closed-once", "closes-only-own", "attempt-closes", "caller-addresses-kept"}
CONN = {"failed-start-leaves-nothing", "failed-start-leaves-callers", "failed-start-frees", "everything-freed", "accepted-socket-closed-once", "target-socket-closed-once", "closes-only-own",
        "addresses-freed-once", "keys-freed-once", "state-freed", "pipe-cancel-frees", "pipe-failed-start-frees", "pipe-failed-start", "reader-frees"}
