#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the registry (run by hand after editing tools/checks.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
from na import NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                                evidence_file="evidence/%s.json" % i,
                                technique="symbolic execution of the LLVM IR of /repo's sources, path conditions and assertions decided by SMT (z3), counterexamples replayed natively",
                                level="model_checking",
                                level_note="Every assertion and memory access decided by the solver for all values of the symbolic inputs within: " + "; ".join(j["name"] + ": " + j.get("bounds", "") for j in c["jobs"]) + ". " + c.get("note", "") +
                                " Trusted: clang's IR, the engine (cross-validated: paths replayed natively, queries re-checked by a second solver), the libc model in rt/."))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check under construction")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not applicable")
