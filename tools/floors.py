#!/usr/bin/env python3
"""floors.json: number of outcomes and of evaluations per job, from the evidence of the last runs (complete jobs)."""
import json, glob, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
F = os.path.join(H, "floors.json")
out = json.load(open(F)) if os.path.exists(F) and "-k" in sys.argv else {}
def find(o):
    if isinstance(o, dict):
        if "job" in o and "outcomes" in o:
            yield o
        for v in o.values():
            yield from find(v)
    elif isinstance(o, list):
        for v in o:
            yield from find(v)
for f in sorted(glob.glob(os.path.join(H, "evidence", "*.json"))):
    for o in find(json.load(open(f))):
        if o["complete"]:
            out.setdefault(os.path.basename(f)[:-5], {})[check.floor_key(o["job"], o["params"])] = [o["outcomes"], o["evals"]]
with open(F, "w") as fh:
    json.dump(out, fh, indent=0, sort_keys=True)
    fh.write("\n")
