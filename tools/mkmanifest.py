#!/usr/bin/env python3
"""Write MANIFEST.json from the rule table and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.rules import TABLE
TECH = {
 "machine": "typestate analysis: path-sensitive abstract interpretation over LLVM IR of every reachable abstract state of the callback-driven object, to a fixpoint",
 "flow": "path-sensitive interprocedural dataflow (value numbering with intervals, loops to fixpoint) over LLVM IR",
 "sites": "whole-program call-site and effect scan over LLVM IR with interprocedural dataflow at each site",
}
KIND = {"C01": "flow", "C02": "flow", "C03": "flow", "C08": "flow", "C09": "flow", "C10": "sites", "C11": "flow", "C26": "flow", "C27": "flow", "C28": "flow", "C29": "flow",
        "C30": "flow", "C31": "sites", "C32": "flow", "C33": "flow", "C34": "flow", "C23": "sites", "C25": "flow"}
NA = {
 "C35": "Numerical correctness of SHA-256, AES, PBKDF2 and modular exponentiation for all inputs is functional equivalence with published functions; no dataflow or typestate rule decides arithmetic results, and running them against test vectors would not be static analysis.",
 "C36": "Eventual delivery is a liveness property over scheduler and peer behaviour; static rules here decide the safety half (an operation is always pending: C12, C14, C15, C16), not progress in time.",
}
checks, na = [], []
for ln in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(ln)["id"]
    if p in TABLE:
        k = KIND.get(p, "machine")
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s --thorough" % p, "technique": TECH[k], "level": "other",
                       "level_note": "Static analysis of the whole program's current source (clang -S -emit-llvm -O0 + mem2reg of every unit): all paths of the functions in scope, callees analysed in place, loops to a fixpoint; see DESIGN.md for the rules, the modelled leaf APIs and what is assumed about them."})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); from sa.build import Program; Program()\"", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
