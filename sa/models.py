"""Models of the leaf APIs: libc, byte-order helpers, memory wiping.  Everything else is analysed from its body."""
from .terms import *
from .ir import Broken

ERRNO = glob("errno")
SILENT = {"warn", "warnx", "warnp", "vwarnx", "vwarn", "warnp_setprogname", "warnp_syslog", "warnp_syslog_facility", "warnp_syslog_priority", "fprintf", "printf", "perror", "fputs", "fputc", "puts", "putchar", "usage_print",
          "vfprintf", "fflush", "syslog", "openlog", "vsyslog"}
NORET = {"exit", "_exit", "abort", "__assert_fail", "siglongjmp", "longjmp", "pthread_exit"}
# libc functions that neither write through their pointer arguments nor matter beyond their result
NOWRITE = {"close", "socket", "bind", "listen", "connect", "shutdown", "setsockopt", "fcntl", "open", "fopen", "fclose", "fputs",
           "strcmp", "strncmp", "strcasecmp", "strlen", "strchr", "strrchr", "strspn", "strcspn", "strstr", "strpbrk",
           "memcmp", "memchr", "setuid", "setgid", "setgroups", "initgroups", "fork", "setsid", "kill", "raise", "unlink", "getpid", "getuid",
           "getgid", "getppid", "send", "write", "sendto", "feof", "ferror", "fileno", "dup2", "dup", "pthread_create", "pthread_mutex_lock",
           "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_join", "pthread_detach",
           "pthread_cond_destroy", "pthread_mutex_destroy", "freeaddrinfo", "getenv", "isatty", "sysconf", "atexit",
           "signal", "if_nametoindex", "gai_strerror", "strerror", "hstrerror", "getpwnam", "getgrnam", "__sysv_signal", "fseek", "ftell", "rewind",
           "fwrite", "fprintf", "vsnprintf0", "pthread_self", "pthread_equal", "pthread_kill", "pthread_cancel", "isalnum", "isdigit", "isspace", "toupper",
           "tolower", "__ctype_b_loc", "atoi", "inet_addr", "htons", "ntohs", "htonl", "ntohl", "time", "usleep", "sleep", "pause", "nanosleep", "tcgetattr0"}
# name -> [(pointer argument, length argument index or constant or None=whole region)]
WRITES = {"read": [(1, 2)], "recv": [(1, 2)], "fread": [(0, None)], "fgets": [(0, None)], "accept": [(1, None), (2, 4)], "poll": [(0, None)],
          "getsockopt": [(3, 4)], "pipe": [(0, 8)], "clock_gettime": [(1, 16)], "clock_getres": [(1, 16)], "gettimeofday": [(0, 16)],
          "pthread_mutex_init": [(0, None)], "pthread_cond_init": [(0, None)], "sigaction": [(2, None)], "sigemptyset": [(0, None)], "sigfillset": [(0, None)],
          "getaddrinfo": [(3, 8)], "inet_pton": [(2, None)], "snprintf": [(0, None)], "vsnprintf": [(0, None)], "sprintf": [(0, None)], "strncpy": [(0, None)], "strcpy": [(0, None)],
          "strtol": [(1, 8)], "strtoul": [(1, 8)], "strtod": [(1, 8)], "strtoimax": [(1, 8)], "strtoumax": [(1, 8)], "__isoc99_sscanf": [], "getpeername": [(1, None), (2, 4)],
          "sysctlbyname": [], "getrlimit": [(1, None)], "sigprocmask": [(2, None)], "pthread_sigmask": [(2, None)], "select": [(1, None), (2, None)], "stat": [(1, None)],
          "fstat": [(1, None)], "lstat": [(1, None)], "localtime_r": [(1, None)], "strftime": [(0, None)], "waitpid": [(1, 4)], "getgrouplist": [(2, None)],
          "regcomp": [(0, None)], "asprintf0": [(0, 8)], "vasprintf": [(0, 8)], "getline": [(0, 8), (1, 8)]}

def _ptrres(ins, t):
    if ins is not None and ins.ty is not None and ins.ty.k == "ptr":
        t.p = True
    return t

def set_errno(st, name):
    from .absint import mem_write
    t = mk("errno", name, st.fresh())
    mem_write(st, ERRNO, ZERO, c(4), t)
    return t

def m_errno(e, st, fr, a, ins):
    return [(st, ERRNO)]

def write_out(e, st, p, ln, name, n, k):
    from .absint import mem_write, havoc_region, mem_region, Region
    b, off = base_off(p)
    if b is None:
        return
    if ln is None:
        havoc_region(st, b, name)
    else:
        mem_write(st, b, off, ln, mk("b.fn", name, n, k, ln) if not (ln.op == "c" and ln.a[0] in (4, 8)) else rd(name, n, k, ln))

def rd(name, n, k, ln):
    return mk("out", name, n, k, ln)

def default(e, st, fr, n, a, ins, f):
    """an external or deliberately unentered function"""
    if n in SILENT:
        return [(st, ZERO if ins.ty.k == "int" else None)]
    if n in NORET:
        e.event(st, "call", n, tuple(a), None, fr, ins)
        return [(st, "unreachable" if n == "__assert_fail" else "exit")]
    k = st.fresh()
    ret = None
    if ins.ty.k != "void":
        ret = _ptrres(ins, mk("ret", n, k))
    ev = e.event(st, "call", n, tuple(a), ret, fr, ins)
    eff = getattr(e.cfg, "effects", {}).get(n)
    if eff is not None:
        for i, ln in eff:
            L = None if ln is None else (a[ln[0]] if isinstance(ln, tuple) else c(ln))
            write_out(e, st, a[i], L, n, k, i)
    elif f is None:
        if n in WRITES:
            for i, ln in WRITES[n]:
                if i < len(a):
                    L = None if ln is None else (a[ln] if n in ("read", "recv") else c(ln))
                    write_out(e, st, a[i], L, n, k, i)
        elif n not in NOWRITE:
            e.fallback_externs.add(n)
            for i, x in enumerate(a):
                b, off = base_off(x)
                if b is not None and b.op in ("stk", "heap", "glob"):
                    if b.op == "glob" and ":.str" in b.a[0]: continue
                    write_out(e, st, x, None, n, k, i)
        set_errno(st, n)
    else:
        set_errno(st, n)
    if f is None:
        bounds_ret(st, n, a, ret)
    return [(st, ret)]

def bounds_ret(st, n, a, ret):
    """ranges the C library guarantees for results"""
    if ret is None: return
    if n in ("read", "recv", "write", "send"):
        ub = st.ub(a[2])
        st.wfacts(); st.iv[ret] = (-1, ub)
        st.setiv(sub(ret, a[2]), -INF, 0) if st.lb(a[2]) >= 0 and a[2].op != "c" else None
    elif n in ("fread", "fwrite"):
        st.wfacts(); st.iv[ret] = (0, INF)
        if a[1].op == "c" and a[1].a[0] == 1 or True:
            if a[2].op == "c": st.iv[ret] = (0, a[2].a[0])
    elif n in ("close", "setsockopt", "bind", "listen", "connect", "shutdown", "getsockopt", "pipe", "setuid", "setgid", "setgroups", "initgroups",
               "clock_gettime", "clock_getres", "gettimeofday"):
        st.wfacts(); st.iv[ret] = (-1, 0)
    elif n in ("socket", "accept", "open", "fork", "dup", "fileno"):
        st.wfacts(); st.iv[ret] = (-1, 2 ** 31 - 1)
    elif n == "poll":
        st.wfacts(); st.iv[ret] = (-1, 2 ** 31 - 1)
    elif n == "strlen":
        st.wfacts(); st.iv[ret] = (0, 2 ** 62)

INF = float("inf")

def icall(e, st, fr, fnterm, a, ins):
    k = st.fresh()
    ret = None
    if ins.ty.k != "void":
        ret = _ptrres(ins, mk("ret", "icall", fnterm, k))
    e.event(st, "icall", "icall", (fnterm,) + tuple(a), ret, fr, ins)
    set_errno(st, "icall")
    return [(st, ret)]

# ------------------------------------------------------------------ memory
def new_heap(e, st, fr, ins, n, size, zero):
    from .absint import Region
    t = atom("heap", n, st.fresh(), ins.dbg or 0, p=True)
    st.wmem()[t] = Region(("zero",) if zero else ("undef",), (), None, size)
    return t

def m_malloc(e, st, fr, a, ins):
    t = new_heap(e, st, fr, ins, "malloc", a[0], False)
    e.event(st, "call", "malloc", tuple(a), t, fr, ins)
    set_errno(st, "malloc")
    return [(st, t)]

def m_calloc(e, st, fr, a, ins):
    from .terms import mk as _mk
    z = scale(a[1], a[0].a[0]) if a[0].op == "c" else scale(a[0], a[1].a[0]) if a[1].op == "c" else mk("mul", a[0], a[1])
    t = new_heap(e, st, fr, ins, "calloc", z, True)
    e.event(st, "call", "calloc", tuple(a), t, fr, ins)
    set_errno(st, "calloc")
    return [(st, t)]

def m_strdup(e, st, fr, a, ins):
    from .absint import mem_write
    t = new_heap(e, st, fr, ins, "strdup", mk("strsz", a[0]), False)
    e.event(st, "call", "strdup", tuple(a), t, fr, ins)
    e.dup = getattr(e, "dup", {})
    e.dup[t] = a[0]
    set_errno(st, "strdup")
    return [(st, t)]

def m_free(e, st, fr, a, ins):
    from .absint import Region, mem_region
    p = st.simp(a[0])
    if st.isnull(p) is True:
        return [(st, None)]
    ev = e.event(st, "call", "free", (p,), None, fr, ins)
    b, off = base_off(p)
    if b is not None:
        r = mem_region(st, b)
        if r.freed is not None:
            e.event(st, "mem", "double-free", (p,), None, fr, ins, r.freed)
        if off is not ZERO or b.op in ("stk", "glob", "fn"):
            e.event(st, "mem", "bad-free", (p,), None, fr, ins)
        st.wmem()[b] = Region(r.d, r.segs, ev, r.size)
    return [(st, None)]

def m_realloc(e, st, fr, a, ins):
    from .absint import Region, mem_region, content
    p = st.simp(a[0])
    if st.isnull(p) is True:
        t = new_heap(e, st, fr, ins, "realloc", a[1], False)
        e.event(st, "call", "malloc", (a[1],), t, fr, ins)
        return [(st, t)]
    b, off = base_off(p)
    s2 = st.fork()
    # failure
    e.event(s2, "call", "realloc", tuple(a), ZERO, fr, ins)
    set_errno(s2, "realloc")
    # success
    t = new_heap(e, st, fr, ins, "realloc", a[1], False)
    ev = e.event(st, "call", "realloc", tuple(a), t, fr, ins)
    if b is not None:
        r = mem_region(st, b)
        if r.freed is not None:
            e.event(st, "mem", "double-free", (p,), None, fr, ins, r.freed)
        st.wmem()[t] = Region(("init", ("realloc", b.id)), r.segs, None, a[1])
        st.wmem()[b] = Region(r.d, r.segs, ev, r.size)
    st.assume(mk("eq0", t), False)
    return [(st, t), (s2, ZERO)]

def m_memcpy(e, st, fr, a, ins):
    from .absint import content, mem_write
    d, s, n = a[0], a[1], a[2]
    e.event(st, "call", "memcpy", (d, s, n), d, fr, ins) if e.cfg.memevents else None
    n = st.simp(n)
    if n is ZERO:
        return [(st, d)]
    sb, so = base_off(s); db, do = base_off(d)
    chk_freed(e, st, sb, s, fr, ins); chk_freed(e, st, db, d, fr, ins)
    e.region_init(st, sb)
    if sb is None or db is None:
        return [(st, d)]
    v = content(st, sb, so, n)
    if e.cfg.on_load and e.cfg.memevents: e.cfg.on_load(e, st, sb, so, n, fr, ins)
    if e.cfg.on_store: e.cfg.on_store(e, st, db, do, n, v, fr, ins)
    mem_write(st, db, do, n, v)
    return [(st, d)]

def chk_freed(e, st, b, p, fr, ins):
    from .absint import mem_region
    if b is None: return
    r = st.mem.get(b)
    if r is not None and r.freed is not None:
        e.event(st, "mem", "use-after-free", (p,), None, fr, ins, r.freed)

def m_memset(e, st, fr, a, ins):
    from .absint import mem_write
    d, v, n = a[0], a[1], st.simp(a[2])
    db, do = base_off(d)
    chk_freed(e, st, db, d, fr, ins)
    if n is not ZERO and db is not None:
        x = mk("b.fill", v if v.op != "c" else c(v.a[0] & 255), n)
        if e.cfg.on_store: e.cfg.on_store(e, st, db, do, n, x, fr, ins)
        mem_write(st, db, do, n, x)
    return [(st, d)]

def m_memzero(e, st, fr, a, ins):
    e.event(st, "call", "insecure_memzero", tuple(a), None, fr, ins)
    m_memset(e, st, fr, [a[0], ZERO, a[1]], ins)
    return [(st, None)]

def m_memcmp(e, st, fr, a, ins):
    from .absint import content
    n = st.simp(a[2])
    cs = []
    for p in a[:2]:
        b, o = base_off(p)
        e.region_init(st, b)
        cs.append(content(st, b, o, n) if b is not None else mk("undef"))
    r = mk("memcmp", cs[0], cs[1], n)
    e.event(st, "call", "memcmp", tuple(a), r, fr, ins, tuple(cs))
    return [(st, r)]

def enc(size, be):
    def f(e, st, fr, a, ins):
        from .absint import mem_write, val_bytes, norm_b
        b, o = base_off(a[0])
        chk_freed(e, st, b, a[0], fr, ins)
        v = a[1]
        if v.op == "c":
            x = norm_b(mk("b.const", (v.a[0] & ((1 << 8 * size) - 1)).to_bytes(size, "big" if be else "little")))
        elif be and v.op == "be" and v.a[0] == size:
            x = v.a[1]
        else:
            x = mk("b.be" if be else "b.int", size, v)
        if e.cfg.on_store: e.cfg.on_store(e, st, b, o, size, x, fr, ins)
        mem_write(st, b, o, c(size), x)
        return [(st, None)]
    return f

def dec(size, be):
    def f(e, st, fr, a, ins):
        from .absint import content, le_int
        b, o = base_off(a[0])
        chk_freed(e, st, b, a[0], fr, ins)
        e.region_init(st, b)
        x = content(st, b, o, c(size))
        if e.cfg.memevents and e.cfg.on_load: e.cfg.on_load(e, st, b, o, size, fr, ins)
        if x.op == "b.be" and x.a[0] == size and be:
            return [(st, x.a[1])]
        if x.op in ("b.const", "b.fill"):
            v = le_int(x)
            if v is not None and v.op == "c":
                raw = (v.a[0] & ((1 << 8 * size) - 1)).to_bytes(size, "little")
                return [(st, c(int.from_bytes(raw, "big" if be else "little", signed=True)))]
        return [(st, mk("be" if be else "len", size, x))]
    return f

def m_strcmp(e, st, fr, a, ins):
    r = mk("strcmp", a[0], a[1])
    e.event(st, "call", "strcmp", tuple(a), r, fr, ins)
    return [(st, r)]

MODELS = {
    "__errno_location": m_errno, "malloc": m_malloc, "calloc": m_calloc, "strdup": m_strdup, "free": m_free, "realloc": m_realloc,
    "memcpy": m_memcpy, "memmove": m_memcpy, "memset": m_memset, "insecure_memzero": m_memzero, "memcmp": m_memcmp,
    "be16enc": enc(2, True), "be32enc": enc(4, True), "be64enc": enc(8, True), "le16enc": enc(2, False), "le32enc": enc(4, False),
    "le64enc": enc(8, False), "be16dec": dec(2, True), "be32dec": dec(4, True), "be64dec": dec(8, True), "le16dec": dec(2, False),
    "le32dec": dec(4, False), "le64dec": dec(8, False),
}
def _silent(e, st, fr, a, ins):
    return [(st, ZERO if ins.ty.k == "int" else None)]
for _n in SILENT:
    MODELS[_n] = _silent

def intrinsic(e, st, fr, name, a, ins):
    if name.startswith(("llvm.memcpy", "llvm.memmove")):
        return m_memcpy(e, st, fr, a, ins)[0][1]
    if name.startswith("llvm.memset"):
        return m_memset(e, st, fr, a, ins)[0][1]
    if name.startswith(("llvm.va_", "llvm.stack", "llvm.assume", "llvm.experimental", "llvm.trap")):
        return mk("undef")
    if name.startswith("llvm.bswap"):
        return mk("bswap", a[0])
    if name.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax", "llvm.abs")):
        return mk(name, *a)
    if name.startswith("llvm.fmuladd"):
        return mk("fp", "fadd", mk("fp", "fmul", a[0], a[1]), a[2])
    return mk("intr", name, st.fresh(), *a)
