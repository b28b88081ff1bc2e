"""C18: inputs are complete while processed, sources are never modified."""
from .. import core, lib, plib
from ..core import Violation

SWAP_RNG = True
MAX_TIME = 900.0
MAX_STEPS = 1_500_000


def gen(rng, tier):
    kind = rng.choice(["optimize", "map"])
    w = plib.gen(rng, src=rng.choice(["copy", "s3", "s3"]), isize=rng.choice([5, 60, 700, 3000]), map=kind == "map")
    w["job"] = kind
    w["nested"] = rng.random() < 0.3
    w["outside"] = rng.choice([None, None, None, "near", "other"])
    w["lat"] = rng.choice([0, 0.01, 0.05, 0.2])
    w["part"] = rng.choice([16, 100, 1000])
    if rng.random() < 0.15:
        w["nodes"] = 2
        w["late"] = [rng.choice([0, 0, 0.3]), rng.choice([0, 0.3])]
    if rng.random() < 0.2:
        w["rerun"] = True     # a second run with the same folders, as after an interrupted one
        w["kill_first"] = rng.choice([None, 5, 12, 25])
        w["nodes"] = 1
        w.pop("late", None)
    w = plib.legal(w)
    faults = []
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 1, 2])):
            if w["src"] == "s3" and rng.random() < 0.7:
                faults.append({"op": "s3.get", "nth": rng.choice([1, 1, 2, 3, 5]), "count": rng.choice([1, 2]),
                               "effect": rng.choice(["cloud_500", "cloud_conn", "cloud_partial", "cloud_partial"])})
            else:
                faults.append({"op": rng.choice(["create", "write", "write", "rename"]), "cls": "data", "nth": rng.choice([1, 2, 3, 5]),
                               "effect": rng.choice(["EIO", "ENOSPC"])})
    return {"w": w, "sched": lib.gen_sched(rng), "faults": faults, "io_chunk": rng.choice([16, 64, 256]), "list_seed": rng.randrange(1000)}


def run(ctx):
    w = ctx.w
    job = plib.Job(ctx, w, kind=w["job"]).make_inputs()
    out = job.out_arg()
    job.classes()
    job.set_latency()
    if w["src"] == "s3":
        from ..stubs import cloud
        cloud().part = w["part"]
    ctx.arm()
    if w.get("rerun") and w.get("kill_first"):
        crash = plib.Crash(ctx)
        job.start("s3://bucket/first" if "://" in out else ctx.path("first"))
        crash.arm(job.procs[0], w["kill_first"])
        job.join()
        for p in job.procs:     # the machine is restarted: nothing of the last run is left
            plib.kill_tree(p)
        if core.SIM.fn_violations:
            raise core.SIM.fn_violations[0]
        job.check_sources()
        core.SIM.calls.clear()
    job.run(out)
    ctx.disarm()
    if core.SIM.fn_violations:
        raise core.SIM.fn_violations[0]
    job.check_sources()
    errs = job.errors()
    if errs and not [k for k in core.SIM.faults_fired if k != "node_crash"]:
        e = errs[0][1]
        raise Violation("error:" + (e if isinstance(e, str) else lib.exc_site(e)), errs[0][2][-2500:])
    ctx.rec["calls"] = len(job.calls())
    ctx.rec["errors"] = len(errs)


def on_hang(ctx, outcome):
    # node 1 of 2 cannot know that node 0 failed: only a run without faults must end
    if ctx.w["nodes"] > 1 and core.SIM.faults_fired:
        return None
    return "hang:" + outcome
