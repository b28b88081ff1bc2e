#!/usr/bin/env python3
"""replay.py FILE [--quiet] [--log]: re-executes one replay file; exit 1 when it shows the recorded violation again."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.executable) != os.path.realpath(VENV) and not os.environ.get("LITDST_REEXEC"):
    os.environ["LITDST_REEXEC"] = "1"
    os.execv(VENV, [VENV] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    path = sys.argv[1]
    with open(path) as f:
        rep = json.load(f)
    from sim import engine
    engine.preload()
    from sim import harness
    pool = engine.Pool(1, 150, harness.scratch_dir("replay"))
    try:
        res = pool.run_one(rep["scenario"], want_log="--log" in sys.argv)
    finally:
        pool.close()
    hit = (res["verdict"] == "violation" and res["cls"] == rep["class"]) or (rep["class"] == "hang:wall" and res["cls"] == "wall")
    same = res.get("hash") == rep["hash"]
    if "--log" in sys.argv:
        print("\n".join(res.get("log") or []))
    if "--quiet" not in sys.argv:
        print(res["verdict"], res["cls"], "hash", res.get("hash"), "(recorded", str(rep["hash"]) + ")")
        print(res.get("detail", "")[:4000])
    if hit:
        print(f"REPRODUCED property={rep['property']} class={rep['class']} identical={same}")
    sys.stdout.flush()
    os._exit(1 if hit else (2 if res["verdict"] == "error" else 0))


if __name__ == "__main__":
    main()
