"""Compile /repo's current working tree to LLVM IR with the build's own flags."""
import os, re, subprocess, tempfile, shutil, atexit
from concurrent.futures import ThreadPoolExecutor
from .ir import Module, Broken

REPO = os.environ.get("SA_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = "clang-18" if shutil.which("clang-18") else "/usr/lib/llvm-18/bin/clang"
OPT = "opt-18" if shutil.which("opt-18") else "/usr/lib/llvm-18/bin/opt"
X86FLAGS = {"CFLAGS_X86_AESNI": ["-maes"], "CFLAGS_X86_RDRAND": ["-mrdrnd"], "CFLAGS_X86_SHANI": ["-msse2", "-msha"],
            "CFLAGS_X86_SSE2": [], "CFLAGS_X86_SSSE3": ["-mssse3"]}

CPUOF = {}      # source -> processor features the build compiles it for

def _read(p):
    with open(p) as f:
        return f.read()

def units():
    """[(source path relative to REPO, extra flags, group)] from the Makefiles that the build uses"""
    out = []
    mk = os.path.join(REPO, "liball", "Makefile")
    txt = _read(mk)
    idirs = re.search(r'^IDIRS=(.*)$', txt, re.M).group(1).split()
    idirs = ["-I" + os.path.normpath(os.path.join(REPO, "liball", d[2:])) for d in idirs if d.startswith("-I")]
    for m in re.finditer(r'-c (\S+\.c) -o', txt):
        line = txt[txt.rfind("\n", 0, m.start()):m.end()]
        ex = []
        CPUOF[os.path.normpath(os.path.join("liball", m.group(1)))] = tuple(k[len("CFLAGS_"):] for k in X86FLAGS if "${" + k + "}" in line)
        for k, v in X86FLAGS.items():
            if "${" + k + "}" in line:
                ex += v
        out.append((os.path.normpath(os.path.join("liball", m.group(1))), ex, "lib"))
    for prog in ("spipe", "spiped"):
        t = _read(os.path.join(REPO, prog, "Makefile"))
        srcs = re.search(r'^SRCS=(.*)$', t, re.M).group(1).split()
        for m in srcs:
            out.append((os.path.join(prog, m), [], prog))
    if len(out) < 50:
        raise Broken("only %d compilation units found in the Makefiles" % len(out))
    return out, idirs

class Program:
    """All modules; resolves functions by name for a given program (spipe/spiped/lib)."""
    def __init__(self, want=None):
        us, idirs = units()
        self.tmp = tempfile.mkdtemp(prefix="sa_")
        atexit.register(shutil.rmtree, self.tmp, True)
        cfg = os.path.join(HERE, "config")
        base = [CLANG, "-std=c99", "-O0", "-g", "-w", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
                "-D_POSIX_C_SOURCE=200809L", "-D_XOPEN_SOURCE=700",
                '-DCPUSUPPORT_CONFIG_FILE="cpusupport-config.h"', '-DAPISUPPORT_CONFIG_FILE="apisupport-config.h"',
                "-I" + cfg, "-I" + REPO] + idirs
        jobs = []
        for i, (src, ex, grp) in enumerate(us):
            if want and not any(src.startswith(w) for w in want):
                continue
            jobs.append((i, src, ex, grp))
        def comp(j):
            i, src, ex, grp = j
            o = os.path.join(self.tmp, "%d.ll" % i)
            r = subprocess.run(base + ex + ["-S", "-emit-llvm", "-o", o, os.path.join(REPO, src)],
                               capture_output=True, text=True)
            if r.returncode:
                raise Broken("cannot compile %s: %s" % (src, r.stderr[-800:]))
            r = subprocess.run([OPT, "-S", "-passes=mem2reg", "-o", o + "2", o], capture_output=True, text=True)
            if r.returncode:
                raise Broken("opt failed on %s: %s" % (src, r.stderr[-800:]))
            return (src, grp, _read(o + "2"))
        self.mods = {}
        self.group = {}
        with ThreadPoolExecutor(8) as ex:
            for src, grp, text in ex.map(comp, jobs):
                m = Module(src, text)
                m.group = grp
                self.mods[src] = m
        shutil.rmtree(self.tmp, True)
        self.ext = {}
        for src, m in self.mods.items():
            for n, f in m.funcs.items():
                if not f.internal:
                    self.ext.setdefault(n, []).append(f)
        self._addr = None
    def units(self):
        return len(self.mods)
    def nfuncs(self):
        return sum(len(m.funcs) for m in self.mods.values())
    def lookup(self, name, frm=None):
        """Func for a symbol referenced from module frm"""
        if frm is not None:
            f = frm.funcs.get(name)
            if f is not None:
                return f
        c = self.ext.get(name)
        if not c:
            return None
        if len(c) == 1:
            return c[0]
        if frm is not None:
            for f in c:
                if f.mod.group == frm.group:
                    return f
        for f in c:
            if f.mod.group == "lib":
                return f
        return c[0]
    def func(self, name, src=None):
        """anchor: a function by (external) name, or by static name within src; None if absent"""
        for n in (name, "libcperciva_" + name):
            if src is None:
                f = self.lookup(n)
                if f: return f
            else:
                m = self.mods.get(src)
                if m and n in m.funcs: return m.funcs[n]
        return None
    def need(self, name, src=None):
        f = self.func(name, src)
        if f is None:
            raise Broken("anchor function %s%s not found" % (name, " in " + src if src else ""))
        return f
    def defining(self, name):
        """every definition of name (any module)"""
        return [m.funcs[n] for m in self.mods.values() for n in (name, "libcperciva_" + name) if n in m.funcs]
