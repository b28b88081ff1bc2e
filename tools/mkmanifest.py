#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C30": "train_test_split is a pure function of one index and a seed: one thread, no clock, no fault point, nothing for a schedule or a fault to change; unit or property tests decide it, not simulation.",
    "C31": "serialize/deserialize round trips are pure functions of one value; there is no schedule, clock, I/O or fault the result could depend on.",
    "C32": "encryption round trips are pure functions of a key and bytes (their I/O path is the chunk path decided under C02); no schedule or fault decides the property.",
    "C33": "the packing helpers are pure functions of two lists; nothing nondeterministic takes part.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if not os.path.exists(os.path.join(V, "sim", "props", i.lower() + ".py")):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"/opt/venv/bin/python /verif/check.py {i} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python /verif/check.py {i} --tier thorough",
        "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences",
        "level": "exploration",
        "level_note": "Real litdata code under a seeded single-baton scheduler with simulated clock, processes, queues, locks and "
                      "storage; the property holds on every explored execution, not on all of them. Trusts the simulator's "
                      "shims (thread/process/queue/lock semantics) and the storage stubs.",
    })
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python /verif/selftest.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is the Python standard library, patched before litdata is imported. "
                    "Replay a reported violation with: /opt/venv/bin/python /verif/replay.py FILE [--log]"},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
