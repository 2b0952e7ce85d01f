#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has harnesses (harness
functions named Cxx_*), everything else not applicable with its reason."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
have = {}
for f in sorted(glob.glob(root + "/harness/h*/*.go")):
    for m in re.finditer(r"^func (C\d\d)_(\w+)\(\)", open(f).read(), re.M):
        have.setdefault(m.group(1), []).append(m.group(2))
NA = {}
NOTE = {}
exec(open(root + "/tools/notes.py").read())
common = ("Every path of the listed functions of the real code (SSA of the current /repo sources, standard library included) "
          "is executed symbolically; each assertion is an SMT query (z3, cvc5) over all values of the stated bounds. "
          "Counterexamples are reported only after the natively compiled code reproduces them. "
          "Trusted: the Go SSA builder, the gosym interpreter (validated per run by comparing sampled paths with native runs), the solvers. ")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
            "technique": "bounded symbolic execution of the Go SSA of the real code with SMT-decided assertions; native replay of counterexamples",
            "level": "model_checking",
            "level_note": common + NOTE.get(i, ""),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "verif", "enable": "no hooks were added: the harnesses are overlaid as packages of their own and use the exported API", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
