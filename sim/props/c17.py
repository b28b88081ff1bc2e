"""C17: map calls the function once per input and delivers every file it wrote."""
from .. import core, lib, plib
from ..core import Violation

SWAP_RNG = True
MAX_TIME = 900.0
MAX_STEPS = 1_500_000


def gen(rng, tier):
    w = plib.gen(rng, map=True)
    w["names"] = rng.choice(["plain", "plain", "plain", "odd"])
    if rng.random() < 0.2:
        w["nodes"] = rng.choice([2, 2, 3])
        w["late"] = [rng.choice([0, 0, 0.3, 2.0]) for _ in range(w["nodes"])]
    if rng.random() < 0.12:
        plib.use_loader(rng, w)
    return {"w": w, "sched": lib.gen_sched(rng), "faults": [], "io_chunk": rng.choice([64, 256, 4096]), "list_seed": rng.randrange(1000)}


def run(ctx):
    w = ctx.w
    job = plib.Job(ctx, w, kind="map").make_inputs()
    out = job.out_arg()
    job.set_latency()
    ctx.arm()
    job.run()
    ctx.disarm()
    job.raise_errors()
    judge(ctx, job, out)


def judge(ctx, job, out):
    calls = [i for _, i in job.calls()]
    if sorted(calls) != sorted(job.ids):
        raise Violation("calls", f"the function was called for {sorted(calls)}, the inputs are {job.ids}")
    want = plib.map_expected(plib.spec_of(ctx.w, job.salt), job.ids)
    got = plib.listing(out)
    lost = sorted(set(want) - set(got))
    if lost:
        raise Violation("lost", f"{len(lost)} of {len(want)} files are missing, e.g. {lost[:4]}")
    extra = sorted(set(got) - set(want))
    if extra:
        raise Violation("unexpected", f"files {extra[:4]} were never written by the function")
    for p in want:
        if got[p] != want[p]:
            raise Violation("content", f"{p} has {len(got[p])} bytes at the destination, the function wrote {len(want[p])}")
    ctx.rec["files"] = len(want)
    ctx.rec["calls"] = len(calls)
