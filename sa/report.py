"""Obligations, violations, evidence."""
import json, os, time
from .ir import Broken
from .absint import path_desc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class R:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.viol = []          # (key, text)
        self.rules = {}         # rule -> [checked, failed]
        self.stats = {"functions": set(), "paths": 0, "steps": 0, "calls": 0}
        self.samples = []
        self.notes = []
        self._prog = None
        self.deferred = None
        self._seen = set()
    @property
    def prog(self):
        if self._prog is None:
            from .build import Program
            self._prog = Program()
        return self._prog
    def used(self, eng, nstates=0):
        self.stats["functions"] |= eng.funcs
        self.stats["paths"] += eng.npaths
        self.stats["steps"] += eng.steps
        self.stats["calls"] += eng.ncalls
    def ok(self, cond, rule, where, msg, st=None, key=None):
        """one obligation"""
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if cond:
            if r[0] <= 2:
                self.samples.append("%s: %s: holds at %s" % (rule, msg if isinstance(msg, str) else "", where))
            return True
        r[1] += 1
        k = key or "%s|%s" % (rule, where)
        if k not in self._seen and len(self.viol) < 60:
            self._seen.add(k)
            txt = "rule %s\n  at %s\n  %s" % (rule, where, msg)
            if st is not None:
                ps = path_desc(st)
                if ps:
                    txt += "\n  path:\n    " + "\n    ".join(ps)
            self.viol.append((k, txt))
        return False
    def need(self, n, rule, lo=1):
        """a rule that matched nothing has lost its anchor"""
        if n < lo:
            raise Broken("rule %s: only %d instances found (expected at least %d)" % (rule, n, lo))
    def count(self, rule):
        return self.rules.get(rule, [0, 0])[0]

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % prop):
                # finding: property=C18 key=<key> :: text
                rest = ln.split("key=", 1)[1]
                k, _, t = rest.partition(" :: ")
                out.append((k.strip(), t))
    return out

def finish(r, explanation, broken=None):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = known_findings(r.prop)
    kk = {k for k, _ in known}
    new = [v for v in r.viol if v[0] not in kk]
    hit = [v for v in r.viol if v[0] in kk]
    cov = {
        "explanation": explanation,
        "obligations": sum(v[0] for v in r.rules.values()),
        "violated": len(new),
        "rules": {k: {"instances": v[0], "failed": v[1]} for k, v in sorted(r.rules.items())},
        "units_compiled": r._prog.units() if r._prog else 0,
        "functions_in_program": r._prog.nfuncs() if r._prog else 0,
        "functions_analysed": len(r.stats["functions"]),
        "functions": sorted(r.stats["functions"])[:400],
        "abstract_paths": r.stats["paths"],
        "abstract_steps": r.stats["steps"],
        "call_sites_evaluated": r.stats["calls"],
        "samples": r.samples[:40] or ["none"],
        "notes": r.notes,
    }
    if broken:
        cov["analysis_broken"] = broken
    ev = {"property": r.prop, "tier": r.tier, "seed": r.seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - r.t0, 3)}
    with open(os.path.join(VERIF, "evidence", r.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, t in known:
        if any(v[0] == k for v in hit):
            print("KNOWN-FINDING: property=%s %s" % (r.prop, t or k))
    if new:
        rp = os.path.join(VERIF, "evidence", r.prop + ".violations.txt")
        with open(rp, "w") as f:
            for k, t in new:
                f.write("[%s]\n%s\n\n" % (k, t))
        for k, t in new[:10]:
            print(t)
        print("VIOLATION property=%s replay=%s" % (r.prop, rp))
        return 1
    if broken:
        print("ANALYSIS-BROKEN property=%s %s" % (r.prop, broken))
        return 2
    print("OK property=%s obligations=%d rules=%d functions=%d paths=%d in %.1fs" % (
        r.prop, cov["obligations"], len(r.rules), cov["functions_analysed"], r.stats["paths"], ev["wall_s"]))
    return 0
