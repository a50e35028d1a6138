"""Going into the background and dropping privileges: C26, C27."""
from .common import *
from .. import models as M
from . import opts
from ..machine import m_close

def outcome(name, *alts):
    """a call with named outcomes: [(lo, hi)]"""
    def f(e, st, fr, a, ins):
        out = []
        for i, (lo, hi) in enumerate(alts):
            s = st.fork() if i < len(alts) - 1 else st
            r = c(lo) if lo == hi else mk("ret", name, s.fresh())
            if lo != hi:
                s.wfacts(); s.iv[r] = (lo, hi)
            e.event(s, "call", name, tuple(a), r, fr, ins)
            M.set_errno(s, name)
            out.append((s, r))
        return out
    return f

BIG = 2 ** 31 - 1

def m_pipe(e, st, fr, a, ins):
    s2 = st.fork()
    e.event(s2, "call", "pipe", tuple(a), c(-1), fr, ins); M.set_errno(s2, "pipe")
    b, o = base_off(st.simp(a[0]))
    for i in (0, 1):
        t = mk("pipefd", i)
        st.wfacts(); st.iv[t] = (0, BIG)
        mem_write(st, b, add(o, c(4 * i)), c(4), t)
    st.assume(mk("eq0", sub(mk("pipefd", 0), mk("pipefd", 1))), False)
    e.event(st, "call", "pipe", tuple(a), ZERO, fr, ins)
    return [(st, ZERO), (s2, c(-1))]

def m_close_retry(e, st, fr, a, ins):
    """close(2) as a caller which retries it on EINTR sees it: closing again is wrong only after a success"""
    fd = st.simp(a[0])
    r = mk("ret", "close", st.fresh())
    st.wfacts(); st.iv[r] = (-1, 0)
    for x in st.evlist():
        if x.kind == "call" and x.name == "close" and x.args[0] is fd and st.iszero(x.ret) is True:
            e.event(st, "mem", "double-close", (fd,), None, fr, ins)
    if st.ub(fd) < 0:
        e.event(st, "mem", "close-invalid", (fd,), None, fr, ins)
    e.event(st, "call", "close", (fd,), r, fr, ins)
    M.set_errno(st, "close")
    return [(st, r)]

GHOST = atom("glob", "ghost:written", p=True, nn=True)

def m_write(e, st, fr, a, ins):
    """write(2), which also counts the bytes written to the pipe"""
    s2 = st.fork()
    e.event(s2, "call", "write", tuple(a), c(-1), fr, ins); M.set_errno(s2, "write")
    r = mk("ret", "write", st.fresh())
    st.wfacts(); st.iv[r] = (0, 2 ** 62)
    if not st.setiv(sub(r, a[2]), -INF, 0): return [(s2, c(-1))]
    if st.simp(a[0]) is mk("pipefd", 1):
        mem_write(st, GHOST, ZERO, c(8), add(mem_read(st, GHOST, ZERO, 8, False), r))
    e.event(st, "call", "write", tuple(a), r, fr, ins)
    return [(st, r), (s2, c(-1))]

def C26(R):
    """Path-sensitive dataflow through daemonize and everything it calls: what each of the parent's and child's paths did, in which order and with
    which results, before it reported success; and the places where the daemon's start-up calls it."""
    f = R.prog.need("daemonize")
    m = {"pipe": m_pipe, "fork": outcome("fork", (-1, -1), (0, 0), (1, BIG)), "fprintf": outcome("fprintf", (-BIG, -1), (0, BIG)), "setsid": outcome("setsid", (-1, -1), (1, BIG)),
         "dprintf": outcome("dprintf", (-BIG, -1), (0, BIG)), "fputs": outcome("fputs", (-BIG, -1), (0, BIG)), "fclose": outcome("fclose", (-1, -1), (0, 0)), "close": m_close_retry, "write": m_write}
    st = State()
    st.wmem()[GHOST] = Region(("zero",), ())
    e, a, res = analyse(R, f, st=st, models=m, merge=False, peel=True)
    R0, W0 = mk("pipefd", 0), mk("pipefd", 1)
    n = {"parent-ok": 0, "parent-fail": 0, "child-ok": 0, "child-fail": 0}
    for s, r in res:
        if r in ("loopback", "unreachable"): continue
        evs = [x for x in s.evlist() if x.kind == "call"]
        by = lambda *k: [x for x in evs if x.name in k]
        fk = by("fork")
        at = where(f)
        R.ok(len(fk) <= 1, "forks-once", at, "%d forks" % len(fk), s)
        ok = not isinstance(r, str) and s.iszero(r) is True
        code = s.simp(by("exit", "_exit", "_Exit")[-1].args[0]) if r == "exit" else None
        if not fk or s.ub(fk[0].ret) < 0:
            R.ok(not ok and r != "exit", "fork-failure-reported", at, "claims success without a child", s)
            continue
        after = lambda k: [x for x in by(*k) if x.n > fk[0].n]
        if s.lb(fk[0].ret) > 0:
            # the invoking process
            rd = [x for x in after(["read"]) if s.simp(x.args[0]) is R0 and s.lb(x.ret) >= 1]
            R.ok(not ok, "parent-never-continues", at, "the invoking process continues as the daemon", s)
            if code is not None and s.iszero(code) is True:
                n["parent-ok"] += 1
                R.ok(len(rd) >= 1, "success-only-after-signal", at, "the invoking process reports success without having received the child's byte", s)
            else:
                n["parent-fail"] += 1
            for x in after(["read"]):
                cl = [y for y in after(["close"]) if y.n < x.n and s.simp(y.args[0]) is W0]
                R.ok(len(cl) >= 1, "parent-sees-death", at, "waits while it keeps the pipe's write end open: the child's death would go unnoticed", s)
        else:
            wr = [x for x in after(["write"]) if s.simp(x.args[0]) is W0]
            ss = [x for x in after(["setsid"]) if s.lb(x.ret) >= 0]
            fo = [x for x in after(["fopen"]) if x.args[0] is a[0] and s.isnull(x.ret) is False]
            pr = [x for x in after(["fprintf", "dprintf", "fputs", "fwrite"]) if fo and any(y is fo[0].ret for y in x.args) and s.lb(x.ret) >= 0]
            fc = [x for x in after(["fclose"]) if fo and x.args[0] is fo[0].ret and s.iszero(x.ret) is True]
            for x in wr:
                done = ss and fo and pr and fc and max(ss[0].n, fo[0].n, pr[0].n, fc[0].n) < x.n
                R.ok(bool(done), "signals-only-when-up", at, "tells the invoking process of success before %s" % ("becoming a session leader" if not ss or ss[0].n > x.n else "the process ID file was completely written"), s)
            if ok:
                n["child-ok"] += 1
                R.ok(bool(ss) and bool(fc), "child-complete", at, "the background process continues although not everything worked", s)
                R.ok(s.lb(mem_read(s, GHOST, ZERO, 8, False)) >= 1, "child-complete", at, "the background process continues although the invoking process was not told", s)
                pid = [x.ret for x in after(["getpid"])]
                R.ok(any(any(z is y for z in pr[0].args) for y in pid) if pr else False, "pid-written", at, "does not write its process ID", s)
            else:
                n["child-fail"] += 1
                R.ok(r == "exit", "child-never-returns-after-failure", at, "after a failure the background process returns into the startup code", s)
        for x in s.evlist():
            if x.kind == "mem": R.ok(False, "memory-safe", at + " " + locs(x), "%s of %s" % (x.name, show(x.args[0])), s)
    for k, v in n.items(): R.need(v, k)
    opts.C26_main(R)

def C27(R):
    """Path-sensitive dataflow through setuidgid and its callees, called as the daemon calls it; and the order of start-up in the daemon's main."""
    opts.C27_main(R)
    f = R.prog.need("setuidgid")
    P = opts.Startup(R, ["-u"])
    modes = {x.args[1] for s, r in P.rs for x in P.calls(s, "setuidgid")}
    R.need(len(modes), "setuidgid-called")
    n = {"success": 0, "fail": 0, "user": 0, "group": 0}
    for mode in modes:
        a = params(f)
        st = State()
        st.assume(mk("eq0", a[0]), False)
        m = {"strchr": m_strchr, "setgroups": outcome("setgroups", (-1, -1), (0, 0)), "setgid": outcome("setgid", (-1, -1), (0, 0)), "setuid": outcome("setuid", (-1, -1), (0, 0)),
             "initgroups": outcome("initgroups", (-1, -1), (0, 0)), "getpwnam": nullable("getpwnam"), "getgrnam": nullable("getgrnam")}
        for x in opts.STRTO: m[x] = opts.m_strto(x)
        e, _, res = analyse(R, f, args=[a[0], mode], st=st, models=m, merge=False)
        at = where(f)
        for s, r in res:
            if r in ("loopback", "unreachable"): continue
            if r == "exit":
                continue
            evs = [x for x in s.evlist() if x.kind == "call"]
            by = lambda *k: [x for x in evs if x.name in k]
            sg, gid, uid = by("setgroups", "initgroups"), by("setgid", "setregid", "setresgid"), by("setuid", "setreuid", "setresuid")
            ok = s.iszero(r) is True
            R.ok(len(sg) <= 1 and len(gid) <= 1 and len(uid) <= 1, "each-once", at, "setgroups %d, setgid %d, setuid %d times" % (len(sg), len(gid), len(uid)), s)
            for x in gid + uid:
                R.ok(bool(sg) and sg[0].n < x.n, "groups-first", at, "%s before the supplementary groups were given up" % x.name, s)
            for x in sg:
                if x.name == "setgroups": R.ok(s.iszero(x.args[0]) is True, "no-groups-left", at, "keeps %s supplementary groups" % show(x.args[0]), s)
            for x in gid:
                R.ok(not [y for y in uid if y.n < x.n], "group-before-user", at, "changes the user before the group", s)
            for x in gid + uid:
                if s.iszero(x.ret) is False:
                    R.ok(not ok, "failure-reported", at, "claims success although %s failed" % x.name, s)
                    R.ok(not [y for y in uid if y.n > x.n], "failure-stops", at, "changes the user although changing the group failed", s)
                look = {"setgid": ("getgrnam", 16), "setuid": ("getpwnam", 16)}[x.name]
                g = [y for y in by(look[0]) if y.n < x.n]
                v = x.args[0]
                src = False
                if g and s.isnull(g[-1].ret) is False:
                    src = v.op == "ld" and v.a[0] is g[-1].ret and cv(v.a[2]) == look[1] and cv(v.a[3]) == 4
                elif g:
                    p = [y for y in by(*opts.STRTO) if y.n > g[-1].n and y.n < x.n]
                    src = bool(p) and (v is p[0].ret or (v.op == "tr" and v.a[1] is p[0].ret)) and p[0].args[0] is g[-1].args[0]
                    if p:
                        opts.numok0(R, "setuidgid " + x.name, p[0], x.st)
                R.ok(src, "identity-looked-up", at, "%s is called with %s" % (x.name, show(v)), s)
            sgf = [x for x in sg if s.iszero(x.ret) is False]
            colon = by("strchr") and s.isnull(by("strchr")[0].ret) is False
            if ok:
                n["success"] += 1
                R.ok(bool(sg), "groups-given-up", at, "keeps the supplementary groups", s)
                R.ok(bool(gid) or not colon, "group-changed", at, "claims success without changing to the group given", s)
                R.ok(bool(uid) or bool(gid), "identity-changed", at, "claims success without changing to anyone", s)
                if not uid:
                    # only when the string starts with its colon
                    k = by("strchr")[0].ret if colon else None
                    R.ok(k is not None and s.ub(sub(k, a[0])) <= 0, "user-changed", at, "claims success without changing to the user given", s)
                if sgf:
                    en = [v for b, v in s.bf.items() if b.op == "eq0"]
                    R.ok(tolerated(s, sgf[0]), "groups-failure", at, "a failure to give up supplementary groups other than a lack of permission is ignored", s)
            else:
                n["fail"] += 1
                R.ok(s.iszero(r) is False, "failure-reported", at, "returns %s" % show(r), s)
            n["user"] += bool(uid); n["group"] += bool(gid)
        faults(R, res, at)
        names27(R, f, mode, m)
    for k, v in n.items(): R.need(v, "setuidgid-" + k)

def names27(R, f, mode, models):
    """the group looked up is the text after the colon, the user the text before it"""
    from .addr import Str, A_content, same
    S = Str(R)
    P = params(f)[0]; at = where(f); got = {"getgrnam": 0, "getpwnam": 0}
    def look(name):
        def g(e, st, fr, a, ins):
            s2 = st.fork(); b, o = base_off(st.simp(a[0])); E = S.end(st, a[0])
            x = None if b is None or E is None else content(st, b, o, st.simp(sub(E, o)))
            e.event(s2, "call", name, tuple(a), ZERO, fr, ins, x); M.set_errno(s2, name)
            r = atom("ret", name, st.fresh(), p=True, nn=True)
            e.event(st, "call", name, tuple(a), r, fr, ins, x); M.set_errno(st, name)
            return [(st, r), (s2, ZERO)]
        return g
    md = dict(models, **S.models()); md.update({k: look(k) for k in got})
    for x in opts.STRTO: md[x] = opts.m_strto(x)
    for st0, L in S.new(State(), P):
        st0.assume(mk("eq0", P), False)
        q = A_content(st0, P, st0)
        cfg = Cfg(models=md, merge=False, memevents=True); cfg.on_load = S.load; cfg.on_store = S.store
        e = Engine(R.prog, cfg)
        res = e.run(f, [P, mode], st0)
        R.used(e)
        for s, r in res:
            if isinstance(r, str): continue
            evs = [x for x in s.evlist() if x.kind == "call"]
            cs = [x for x in evs if x.name in ("strchr", "strrchr") and x.args[1] is c(58) and x.args[0] is P]
            if not cs: continue
            k = None if s.isnull(cs[0].ret) is True else s.simp(sub(cs[0].ret, P))
            for x in evs:
                if x.name not in got: continue
                got[x.name] += 1
                if x.name == "getgrnam": want = bslice(s, q, addc(k, 1), sub(L, addc(k, 1))) if k is not None else None
                else: want = bslice(s, q, ZERO, k if k is not None else L)
                if x.x is None and base_off(x.args[0])[0] is not None and base_off(x.args[0])[0].op == "heap" and base_off(x.args[0])[0].a[0] not in ("malloc", "calloc", "strdup"): continue
                if x.x is not None and not all(y.op in ("b.mem", "b.const") for y in (x.x.a if x.x.op == "b.cat" else (x.x,))): continue      # copied in a way not followed
                R.ok(want is not None and x.x is not None and same(s, x.x, want), "name-given", at, "looks up the %s %s, not %s" % (x.name[3:5] == "gr" and "group" or "user", show(x.x) if x.x is not None else "?", show(want) if want is not None else "one given"), s)
    R.notes.append("names looked up compared with the argument: %(getgrnam)d group, %(getpwnam)d user" % got)

def faults(R, res, at, rule="memory-safe"):
    for s, r in res:
        for x in s.evlist():
            if x.kind == "mem": R.ok(False, rule, at + " " + locs(x), "%s of %s" % (x.name, show(x.args[0])), x.st)
        R.ok(True, rule, at, "")

def tolerated(s, ev):
    """errno after the event was found to be EPERM"""
    e = mem_read(nextst(s, ev), M.ERRNO, ZERO, 4, False)
    return s.simp(e) is c(1) or s.iszero(addc(e, -1)) is True

def nextst(s, ev):
    l = s.evlist()
    for x in l:
        if x.prev is ev: return x.st
    return s

def nullable(name):
    def f(e, st, fr, a, ins):
        s2 = st.fork()
        e.event(s2, "call", name, tuple(a), ZERO, fr, ins); M.set_errno(s2, name)
        r = atom("ret", name, st.fresh(), p=True, nn=True)
        e.event(st, "call", name, tuple(a), r, fr, ins); M.set_errno(st, name)
        return [(st, r), (s2, ZERO)]
    return f

def m_strchr(e, st, fr, a, ins):
    s2 = st.fork()
    e.event(s2, "call", "strchr", tuple(a), ZERO, fr, ins)
    k = mk("strpos", a[0], a[1])
    st.wfacts(); st.iv[k] = (0, 2 ** 40)
    r = add(a[0], k)
    e.event(st, "call", "strchr", tuple(a), r, fr, ins)
    return [(st, r), (s2, ZERO)]
