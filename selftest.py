#!/usr/bin/env python3
"""Setup: checks that litdata loads under the simulator and that executions are exactly repeatable."""
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.executable) != os.path.realpath(VENV) and not os.environ.get("LITDST_REEXEC"):
    os.environ["LITDST_REEXEC"] = "1"
    os.execv(VENV, [VENV] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def hashes(per_prop, jobs):
    from sim import engine
    engine.preload()
    from sim import harness
    import importlib
    out = {}
    pool = engine.Pool(jobs, 120, harness.scratch_dir("self%d" % jobs))
    names = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "sim", "props")) if re.fullmatch(r"c\d\d\.py", f))
    todo = []
    for p in names:
        mod = importlib.import_module("sim.props." + p.lower())
        todo += [(p, i, harness.scn_of(p, mod, 1, i, "quick")) for i in range(per_prop)]
    while todo or pool.active:
        while todo and not pool.full():
            p, i, s = todo.pop(0)
            pool.submit(s, f"{p}-{i}")
        for s, tag, r in pool.poll():
            out[tag] = [r["verdict"], r["cls"], r.get("hash"), r.get("ihash"), r.get("steps"), r.get("detail", "")[-600:] if r["verdict"] == "error" else ""]
    pool.close()
    return out


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--child":
        print(json.dumps(hashes(int(sys.argv[2]), int(sys.argv[3]))))
        sys.stdout.flush()
        os._exit(0)
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 6
    res = []
    for seed, jobs in (("1", 8), ("77", 3)):
        env = dict(os.environ, PYTHONHASHSEED=seed, LITDST_REEXEC="1")
        r = subprocess.run([sys.executable, os.path.abspath(__file__), "--child", str(n), str(jobs)], env=env, stdout=subprocess.PIPE, cwd="/")
        if r.returncode:
            sys.exit(3)
        res.append(json.loads(r.stdout.splitlines()[-1]))
    a, b = res
    bad = [k for k in a if a[k] != b.get(k)]
    err = [k for k in a if a[k][0] == "error"]
    print(f"selftest: {len(a)} executions, {len(bad)} differ between two interpreters, {len(err)} harness errors")
    for k in (bad + err)[:10]:
        print(k, a[k], b.get(k))
    sys.exit(1 if err else 0)
