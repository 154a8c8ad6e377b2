#!/usr/bin/env python3
"""writes MANIFEST.json from sa/specs.py and properties.jsonl"""
import sys, os, json
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.specs import SPECS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []; na = []
for p in props:
    s = SPECS.get(p)
    if s is None or s.get("wip"):
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "no sound static check built for this property yet")}); continue
    checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                   "technique": s.get("technique", "path-sensitive abstract interpretation of LLVM IR (symbolic heap, linear constraints, typestate of the environment) from most-general-client contexts"),
                   "level": "other",
                   "level_note": s["rule"] + " " + s.get("note", "Covers every path of the contexts up to the stated number of operations and loop iterations, with sizes, contents and environment outcomes left symbolic; assumes the models of libc, system calls, OpenSSL and pthread (sa/models.py, sa/env.py), that allocation succeeds, and clang's IR.")})
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.dont_write_bytecode = True; sys.path.insert(0, \".\"); from sa import driver; driver.ir.lib()'", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: nothing of libreactor is executed. known_findings.json lists repaired and recorded defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
