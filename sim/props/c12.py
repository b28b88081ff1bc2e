"""C12: optimize writes every produced sample exactly once, grouped by input, in each worker's order."""
from .. import core, lib, plib
from ..core import Violation

SWAP_RNG = True
MAX_TIME = 900.0
MAX_STEPS = 1_500_000


def gen(rng, tier):
    w = plib.gen(rng)
    if rng.random() < 0.2:
        w["nodes"] = 2
        w["late"] = [rng.choice([0, 0, 0.3, 2.0]), rng.choice([0, 0, 0.3, 2.0])]
    if rng.random() < 0.12:
        plib.use_loader(rng, w)
    scn = {"w": w, "sched": lib.gen_sched(rng), "faults": [], "io_chunk": rng.choice([256, 4096]), "list_seed": rng.randrange(1000)}
    if rng.random() < 0.15:
        w["enc"] = rng.choice(["sample", "chunk"])
    return scn


def run(ctx):
    w = ctx.w
    job = plib.Job(ctx, w).make_inputs()
    out = job.out_arg()
    job.set_latency()
    ctx.arm()
    job.run()
    ctx.disarm()
    job.raise_errors()
    judge(ctx, job, out)


def judge(ctx, job, out):
    w = ctx.w
    got = plib.ids_of(plib.read_back(ctx, out, enc=w.get("enc")), w, job.salt, "read back")
    want = plib.expected(w)
    pos = plib.compare(got, want, "optimize")
    # the samples of one worker are in the order it worked in
    order = {}
    for pid, i in job.calls():
        order.setdefault(pid, []).append(i)
    first = {}
    for g in want:
        for i, k in g:
            first[i] = min(first.get(i, 1 << 60), pos[(i, k)])
    for pid, ids in order.items():
        p = [first[i] for i in ids if i in first]
        if p != sorted(p):
            raise Violation("worker-order", f"worker {pid} worked on {ids}, their samples are at {p}")
    calls = [i for _, i in job.calls()]
    if sorted(calls) != sorted(job.ids):
        raise Violation("calls", f"the function was called for {sorted(calls)}, the inputs are {job.ids}")
    ctx.rec["samples"] = len(got)
    ctx.rec["calls"] = len(calls)
