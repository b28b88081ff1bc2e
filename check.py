#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--budget S] [--runs N] [--jobs N]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.executable) != os.path.realpath(VENV) and not os.environ.get("LITDST_REEXEC"):
    os.environ["LITDST_REEXEC"] = "1"
    os.execv(VENV, [VENV] + sys.argv)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    from sim import engine
    engine.preload()
    from sim import harness
    c = harness.Check(a.prop, a.tier, a.seed, a.jobs, a.budget, a.runs)
    try:
        rc = c.run()
    finally:
        c.pool.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
