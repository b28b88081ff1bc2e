#!/usr/bin/env python3
"""pin_scn.py ID: appends the original (unminimised) scenario of the given replay files to a known finding."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, "known_findings.json")
d = json.load(open(P))
e = next(x for x in d["open"] if x["id"] == sys.argv[1])
for f in sys.argv[2:]:
    o = json.load(open(f))["original"]
    e["scenarios"].append({k: o[k] for k in ("w", "sched", "faults", "kills", "seed")})
json.dump(d, open(P, "w"), indent=1)
