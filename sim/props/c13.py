"""C13: a visible index is complete and all its chunks are there, at every instant and after every crash or failure."""
from .. import core, lib, plib, stubs
from ..core import Violation

SWAP_RNG = True
MAX_TIME = 900.0
MAX_STEPS = 1_500_000


def gen(rng, tier):
    w = plib.gen(rng, n=rng.choice([1, 2, 3, 5, 6, 8, 9]), src=rng.choice(["values", "values", "copy"]))
    w["page"] = rng.choice([2, 3, 1000])
    steps = [{"op": "new"}]
    for _ in range(rng.choice([0, 1, 1, 2])):
        steps.append({"op": rng.choice(["append", "append", "overwrite", "overwrite", "merge", "new"])})
    for s in steps:
        if rng.random() < 0.55:
            s["crash"] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 17, 20, 25, 30, 40])
        if s["op"] == "merge":
            s["threads"] = rng.choice([1, 2, 4])
    w["steps"] = steps
    w["checkpoint"] = w["outs"] != "gen" and rng.random() < 0.2
    if rng.random() < 0.2 and not w["checkpoint"]:
        w["nodes"] = 2
        w["late"] = [rng.choice([0, 0, 0.3]), rng.choice([0, 0.3])]
    faults = []
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 1, 2])):
            if w["out"] == "dir":
                f = {"op": rng.choice(["create", "write", "write", "rename", "remove"]), "cls": rng.choice(["out", "out", "chunks"]), "nth": rng.randrange(1, 14),
                     "effect": rng.choice(["EIO", "ENOSPC", "short_ENOSPC"])}
                if f["op"] != "write" and f["effect"] == "short_ENOSPC":
                    f["effect"] = "ENOSPC"
            else:
                f = {"op": rng.choice(["s3.put", "s3.put", "s3.head", "s3.list", "s3.del", "s3.get"]), "nth": rng.randrange(1, 10),
                     "effect": rng.choice(["cloud_500", "cloud_503", "cloud_conn", "cloud_after"])}
                if f["op"] != "s3.put" and f["effect"] == "cloud_after":
                    f["effect"] = "cloud_500"
            faults.append(f)
    return {"w": w, "sched": lib.gen_sched(rng), "faults": faults, "io_chunk": rng.choice([64, 256, 4096]), "list_seed": rng.randrange(1000)}


def run(ctx):
    w = ctx.w
    jobs = [plib.Job(ctx, w, tag=str(k), ids=range_ids(w, k), salt=w["salt"]) for k in range(len(w["steps"]))]
    for j in jobs:
        j.make_inputs()
    jobs[0].classes()
    jobs[0].set_latency()
    out = jobs[0].out_arg()
    if "://" in out:
        stubs.cloud().page = w["page"]
    watches = [plib.IndexWatch(ctx, out)]
    crash = plib.Crash(ctx)
    ctx.arm()
    for k, st in enumerate(w["steps"]):
        job = jobs[k]
        dest = out
        plib.clear_broadcast(core.SIM)
        if st["op"] == "merge":
            # a second source, then the merge of both into a new place
            other, dest = out + "-b", out + "-m%d" % k
            watches += [plib.IndexWatch(ctx, other), plib.IndexWatch(ctx, dest)]
            job.run(other)
            job.merge([out, other], dest, st["threads"], start=True)
        else:
            job.start(out, mode=None if st["op"] == "new" else st["op"], use_checkpoint=w["checkpoint"])
        if st.get("crash"):
            crash.arm(job.procs[-1 if k % 2 else 0], st["crash"])
        stuck = w["nodes"] > 1 and (st.get("crash") or ctx.scn["faults"])
        job.join(120 if stuck else None)
        crash.arm(None, 0)
        for p in job.procs:
            if p.alive and stuck:
                plib.kill_tree(p)
        for x in watches:
            x.check()
        core.SIM.sleep(30)      # orphaned uploaders finish their work
        for q in core.SIM.procs:     # the machine is restarted: nothing of the last run is left
            if q.alive and q.parent is not None and q is not core.SIM.driver:
                core.SIM.kill_proc(q)
        for x in watches:
            x.check()
    ctx.disarm()
    n = 0
    for x in watches:
        x.check()
        f = plib.index_fault(x.out)
        if f:
            raise Violation("false-index", f)
        n += x.checked
        try:
            vals = plib.read_back(ctx, x.out)
        except Violation:
            if plib.load(x.out)("index.json") is not None:
                raise
            continue
        if plib.load(x.out)("index.json") is None:
            raise Violation("read-without-index", f"{x.out} has no index but {len(vals)} samples were read")
        for v in vals:
            lib.check_value(v, w["kind"], w["base"], w["salt"], None, "read back")
    ctx.rec["instants"] = n
    core.SIM.probes["instants_checked"] = n


def range_ids(w, k):
    return list(range(k * 20, k * 20 + w["n"]))


def on_hang(ctx, outcome):
    if ctx.w["nodes"] > 1 and core.SIM.faults_fired:
        return None
    return "hang:" + outcome
