#!/usr/bin/env python3
"""pin.py ID PROP REPLAY... -- 'what': adds pinned scenarios (from replay files) to known_findings.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, "known_findings.json")
kid, prop = sys.argv[1:3]
k = sys.argv.index("--")
files, what = sys.argv[3:k], sys.argv[k + 1]
d = json.load(open(P))
e = next((x for x in d["open"] if x["id"] == kid), None)
if e is None:
    e = {"id": kid, "property": prop, "cls": [], "what": what, "scenarios": []}
    d["open"].append(e)
e["what"] = what
for f in files:
    r = json.load(open(f))
    s = r["scenario"]
    for x in ("prop", "known", "directed"):
        s.pop(x, None)
    e["scenarios"].append(s)
    if r["class"] not in e["cls"]:
        e["cls"].append(r["class"])
json.dump(d, open(P, "w"), indent=1)
