#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "explicit-state model checking of the compiled code (own checker: controlled scheduler and environment, state snapshots and hashing)"),
            "level": "model_checking",
            "level_note": "Exhaustive within bounds: " + c.get("bounds", "see evidence") + ". " +
                "Trusts the checker (mc/), the harness' reference model and its models of the C library, system calls and POSIX threads (sequential consistency)." if "technique" not in c else "Exhaustive within bounds: " + c.get("bounds", "see evidence") + ". Trusts the explorer (harness/pkg/pkg.py), its model of debconf and dpkg (after their documented behaviour) and the stand-ins for the external commands.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.exit(0)\"",
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds the code it runs from /repo's sources (src/, and debian/, openskyd-arch/ and openskyd-opkg/ for W01-W03); no hooks are needed in /repo."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
