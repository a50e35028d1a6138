"""The shared secret: C11."""
from .common import *
from .. import models as M
from ..machine import Machine, memfaults
from . import start, opts

MORE, EOF_, ERR = 0, 1, 2

class Load:
    """proto_crypt_secret with every way a file can be split into reads, end and fail"""
    def __init__(self, R, nmax):
        self.R = R; self.nmax = nmax
        self.n = {"secrets": 0, "refused": 0, "files": 0, "stdin": 0, "reads": 0}
        self.m = Machine(R, models={"fopen": self.fopen, "fread": self.fread, "read": self.readfd, "feof": self.feof, "ferror": self.ferror, "fclose": self.fclose, "strcmp": self.strcmp, "fileno": self.fileno,
                                    "clearerr": self.clearerr, "exit": self.exit}, merge=False, unroll_all=nmax + 3)
    def fopen(self, e, st, fr, a, ins):
        s2 = st.fork(); e.event(s2, "call", "fopen", tuple(a), ZERO, fr, ins); M.set_errno(s2, "fopen")
        f = atom("file", st.fresh(), p=True, nn=True)
        st.assume(mk("eq0", sub(f, mem_read(st, glob("stdin"), ZERO, 8, True))), False)
        e.event(st, "call", "fopen", tuple(a), f, fr, ins)
        return [(s2, ZERO), (st, f)]
    def exit(self, e, st, fr, a, ins):
        e.event(st, "call", "exit", tuple(a), None, fr, ins); return [(st, "exit")]
    def strcmp(self, e, st, fr, a, ins):
        """only "is it the name for standard input" matters"""
        s2 = st.fork()
        r = mk("ret", "strcmp", st.fresh())
        st.assume(mk("eq0", r), False)
        for s, same in ((st, 0), (s2, 1)):
            e.event(s, "call", "strcmp", tuple(a), ZERO if same else r, fr, ins)
            s.aux["same"] = s.aux.get("same", ()) + ((a[0], a[1], same),)
        return [(st, r), (s2, ZERO)]
    def fileno(self, e, st, fr, a, ins): return [(st, mk("fileno", st.simp(a[0])))]
    def status(self, st, f): return dict(st.aux.get("fstat", ())).get(f, MORE)
    def setstatus(self, st, f, v):
        d = dict(st.aux.get("fstat", ())); d[f] = v; st.aux["fstat"] = tuple(d.items())
    def clearerr(self, e, st, fr, a, ins):
        self.setstatus(st, st.simp(a[0]), MORE); st.aux["lost"] = 1
        return [(st, None)]
    def readfd(self, e, st, fr, a, ins): return self.doread(e, st, fr, st.simp(a[0]), a[1], st.simp(a[2]), ins, c(-1))
    def fread(self, e, st, fr, a, ins):
        n = st.simp(a[2]) if st.simp(a[1]) is ONE else st.simp(a[1]) if st.simp(a[2]) is ONE else None
        if n is None: raise Broken("fread of %s objects of %s bytes" % (show(a[2]), show(a[1])))
        one = st.simp(a[1]) is not ONE
        return self.doread(e, st, fr, st.simp(a[3]), a[0], n, ins, ZERO, one)
    def doread(self, e, st, fr, f, buf, n, ins, bad, whole=False):
        R = self.R; at = "%s:%s" % (e.loc(fr, ins)[0].split("/repo/")[-1], e.loc(fr, ins)[1])
        self.n["reads"] += 1
        b, o = base_off(st.simp(buf))
        if b is not None and b.op in ("stk", "heap") and b in st.mem and st.mem[b].size is not None:
            z = st.mem[b].size
            R.ok(st.ub(st.simp(sub(add(o, n), z if isinstance(z, T) else c(z)))) <= 0, "read-fits", at, "reads %s bytes at offset %s of %s" % (show(n), show(o), show(z) if isinstance(z, T) else z), st)
        old = self.status(st, f)
        ev = lambda s, r, k: e.event(s, "call", "file-read", (f, buf, n), r, fr, ins, k)
        out = []
        k = st.aux.get("chunks", 0)
        alts = []
        if old == MORE:
            if k < self.nmax and not whole: alts += [("full", MORE), ("short", EOF_), ("short", ERR)]
            elif k < self.nmax and n is ONE: alts += [("full", MORE)]
            alts += [("none", EOF_), ("none", ERR)]
        else: alts = [("none", old)]
        for how, nxt in alts:
            s = st.fork()
            if how == "none": r = ZERO if nxt == EOF_ else bad
            elif how == "full": r = n
            else:
                r = mk("ret", "fread", s.fresh()); s.wfacts(); s.iv[r] = (1, 2 ** 62)
                if not s.setiv(sub(r, n), -INF, -1): continue
            if how != "none":
                s.aux["chunks"] = k + 1
                v = mk("b.fn", "file", f, k, r)
                s.aux["data"] = s.aux.get("data", ()) + ((f, v),)
                if b is not None:
                    e.region_init(s, b); mem_write(s, b, o, r, v)
            elif b is not None: e.region_init(s, b)
            self.setstatus(s, f, nxt); M.set_errno(s, "fread")
            rv = ONE if whole and how == "full" and n is ONE else r
            ev(s, rv, how)
            out.append((s, rv))
        return out
    def feof(self, e, st, fr, a, ins):
        r = ONE if self.status(st, st.simp(a[0])) == EOF_ else ZERO
        e.event(st, "call", "feof", tuple(a), r, fr, ins); return [(st, r)]
    def ferror(self, e, st, fr, a, ins):
        r = ONE if self.status(st, st.simp(a[0])) == ERR else ZERO
        e.event(st, "call", "ferror", tuple(a), r, fr, ins); return [(st, r)]
    def fclose(self, e, st, fr, a, ins):
        f = st.simp(a[0]); cl = st.aux.get("fclosed", ())
        if f in cl: e.event(st, "mem", "double-close", (f,), None, fr, ins)
        st.aux["fclosed"] = cl + (f,)
        s2 = st.fork(); e.event(s2, "call", "fclose", tuple(a), c(-1), fr, ins)
        e.event(st, "call", "fclose", tuple(a), ZERO, fr, ins)
        return [(st, ZERO), (s2, c(-1))]
    def run(self):
        R = self.R
        f = R.prog.need("proto_crypt_secret"); at = where(f)
        a = params(f); st = State(); st.assume(mk("eq0", a[0]), False)
        for t in self.m.call(f, a, st, f.name):
            s = t.st
            for x in memfaults(t.evs): R.ok(False, "memory-safe", at + " " + locs(x), "%s of %s" % (x.name, show(x.args[0])), x.st)
            if t.ret == "loopback": continue
            op = [x for x in t.evs if x.name == "fopen"]; rd = [x for x in t.evs if x.name == "file-read"]; al = [x for x in t.evs if x.kind == "call" and x.name in ("malloc", "calloc") and s.isnull(x.ret) is False]
            fo = [x for x in op if s.isnull(x.ret) is False]
            named = [same for p, q, same in s.aux.get("same", ()) if (p is a[0] or q is a[0]) and self.dash(s, q if p is a[0] else p)]
            for x in op: R.ok(x.args[0] is a[0], "reads-given-file", at, "opens %s" % show(x.args[0]), s)
            fs = {x.args[0] for x in rd}
            if t.ret == "exit": self.n["refused"] += 1; continue
            if isinstance(t.ret, str): R.ok(False, "loads-or-refuses", at, "ends in %s" % t.ret, s); continue
            if s.isnull(t.ret) is True:
                self.n["refused"] += 1
                R.ok(any(x.ret is ZERO for x in op) or any(self.status(s, x) == ERR for x in fs) or not al or bool(s.aux.get("lost")), "loads-or-refuses", at, "a complete file is refused", s)
                for x in al: R.ok(mem_region(s, x.ret).freed is not None, "failure-leaks-nothing", at, "the secret's memory is lost", s)
            else:
                self.n["secrets"] += 1
                if not R.ok(len(fs) == 1, "reads-given-file", at, "produces a secret from %d files" % len(fs), s): continue
                fl = list(fs)[0]
                if fo: R.ok(fl is fo[0].ret and not any(named), "reads-given-file", at, "reads %s instead of the file it opened" % show(fl), s); self.n["files"] += 1
                else:
                    R.ok(fl.op == "ld" and fl.a[0].op == "glob" and fl.a[0].a[0] == "stdin" or fl.op == "fileno" or fl is ZERO, "reads-given-file", at, "reads %s" % show(fl), s)
                    R.ok(any(named), "reads-given-file", at, "reads standard input although a file was given", s); self.n["stdin"] += 1
                R.ok(self.status(s, fl) == EOF_ and not s.aux.get("lost"), "whole-file", at, "produces a secret although %s" % ("reading failed" if self.status(s, fl) == ERR else "the end of the file was not reached"), s)
                want = mk("b.fn", "SHA256", mk("shainit"), bcat([v for x, v in s.aux.get("data", ())]) if s.aux.get("data") else mk("b.const", b""), c(32))
                b, o = base_off(t.ret)
                got = content(s, b, o, c(32))
                R.ok(b_eq(s, got, want), "hash-of-whole-file", at, "the secret is %s for the data %s" % (show(got)[:200], [show(v) for x, v in s.aux.get("data", ())]), s)
            for x in fo: R.ok(x.ret in s.aux.get("fclosed", ()), "failure-leaks-nothing", at, "the file is left open", s)
            R.ok(all(x.op == "file" for x in s.aux.get("fclosed", ())), "closes-own-file", at, "closes standard input", s)
        for k, v in self.n.items(): R.need(v, "load-" + k)
        R.used(self.m.e)
    def dash(self, st, p):
        try: return bool(opts.cstr(self.m.e, st, p))
        except Exception: return False

def C11(R):
    """Path-sensitive dataflow through the loading of the key file: which bytes of which file the hash covers, for every split of the file into reads
    and every way reading can end; and through both programs' main for what follows when no secret is produced."""
    Load(R, 3 if R.tier == "quick" else 5).run()
    for prog, req, act in (("spiped", ("-d", "-s", "-t", "-k"), "dispatch_accept"), ("spipe", ("-t", "-k"), "proto_conn_create")):
        m = opts.Main(R, prog)
        m.e.cfg.models["getpid"] = lambda e, st, fr, a, ins: [(st, c(2))]
        S = m.init
        for o in req:
            b, r = m.step(S, "opt", o)
            if len(b) != 1: raise Broken("option %s not accepted" % o)
            S = b[0]
        n = k = 0
        for s, r in m.end(S):
            ev = [x for x in m.since(S, s) if x.kind == "call"]
            sec = [x for x in ev if x.name == "proto_crypt_secret"]
            acts = [x for x in ev if x.name == act]
            at = "%s/main.c" % prog
            for x in sec: R.ok(x.args[0] is opts.optarg("-k"), "reads-given-file", at, "loads the secret from %s" % show(x.args[0]), s)
            for x in acts:
                kk = [x.st.simp(y.ret) for y in sec if y.n < x.n]
                R.ok(len(kk) == 1 and x.st.isnull(kk[0]) is False and any(v is kk[0] for v in x.args), "runs-with-loaded-secret", at, "serves with a secret other than the one loaded", x.st)
                n += 1
            for x in sec:
                if s.isnull(s.simp(x.ret)) is True:
                    k += 1
                    R.ok(m.exitcode(s, r) not in (None, 0) and not [y for y in acts if y.n > x.n], "no-secret-exits", at, "without a secret: exit status %s" % m.exitcode(s, r), s)
        R.need(n, prog + "-serves"); R.need(k, prog + "-refuses")
        m.done()
