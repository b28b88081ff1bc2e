"""C07: an epoch finishes once storage answers; with healthy storage nobody waits for a recovery timeout."""
from .. import lib
from ..core import Violation

MAX_TIME = 6000.0
RECOVERY = 28.0     # litdata's recovery timeout is 30 s


def gen(rng, tier):
    w = lib.gen_stream(rng, kind="dict", base=rng.choice([8, 40]), remote=rng.choice(["dir", "dir", "s3"]),
                       lat=rng.choice([0, 0.02, 0.3]), cache=rng.choice(["tiny", "tiny", "mid", "big"]))
    if w["pre"] == 1:      # KF-pre1-stall
        w["pre"] = rng.choice([2, 3])
    w["mode"] = rng.choice(["healthy", "healthy", "slow"])
    w["think"] = rng.choice([0, 0, 0.05, 0.7])
    if rng.random() < 0.25:      # evicted chunks read by index wait for the forced download
        w["cache"] = "big"
        if rng.random() < 0.6:   # parts of the dataset which this node hasn't fetched yet
            w["ranks"] = w["nodes"] = 2
            w["workers"] = 0
        lib.legal(w)
        if w["nodes"] > 1 and w["shuffle"]:
            lib.align(w)
        w["peeks"] = [[rng.randrange(w["epochs"] + 1), rng.randrange(w["n"])] for _ in range(rng.choice([1, 2, 4, 7]))]
    sched = lib.gen_sched(rng)
    faults = []
    if w["mode"] == "healthy":
        for k in ("stall_p", "max_stalls", "stall_lens"):
            sched.pop(k, None)
        if rng.random() < 0.5:
            sched.update(stall_p=0.01, max_stalls=5, stall_lens=[0.01, 0.4])
    else:
        w["lat"] = rng.choice([0.3, 3.0, 20.0])
        faults = lib.gen_read_faults(rng, w, effects=("delay",))
    return {"w": w, "sched": sched, "faults": faults}


def run(ctx):
    w = ctx.w
    st = lib.Stream(ctx, w).publish()
    st.set_latency()
    bor = lib.Borrow(ctx)
    ctx.arm()
    st.run()
    st.raise_errors()
    for r in range(w["ranks"]):
        if st.finished.get(r) != w["epochs"]:
            raise Violation("unfinished", f"rank {r} finished {st.finished.get(r)} of {w['epochs']} epochs")
    gap = max(st.maxgap.values(), default=0.0)
    chunks = len(st.index["chunks"])
    if w["mode"] == "healthy":
        # every wait is explained by fetching chunks one after the other plus the polling intervals
        if gap > RECOVERY:
            tail = ":borrowed-count" if bor.borrowed else ""
            raise Violation("recovery-wait" + tail, f"a consumer waited {gap:.1f} s for a batch with healthy storage "
                                             f"(latency below {w['lat']} s, {chunks} chunks)")
    else:
        delays = sum(f.get("delay", 0) * f.get("count", 1) for f in ctx.scn["faults"])
        per = 2 * w["lat"] + 16
        bound = 130 + delays + (chunks + 2) * per
        if gap > bound:
            raise Violation("slow-progress", f"a consumer waited {gap:.1f} s for a batch, bound {bound:.0f} s")
    ctx.rec["samples"] = sum(len(b) for x in st.out.values() for b in x)
    ctx.rec["longest_wait_s"] = gap
