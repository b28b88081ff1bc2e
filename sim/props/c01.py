"""C01: each epoch delivers every sample exactly once across ranks and workers."""
from .. import lib

MAX_TIME = 3000.0


def gen(rng, tier):
    w = lib.gen_stream(rng)
    sched = lib.gen_sched(rng)
    if rng.random() < 0.25 and w["nodes"] == 1:      # a part of the dataset, or a dataset with repeated samples
        if rng.random() < 0.6:
            w["sub"] = rng.choice([0.3, 0.5, 0.8, 1.5, 2.0, 2.4])
        else:
            w["split"] = rng.choice([[0.5, 0.5], [0.8, 0.2], [0.3, 0.3, 0.4], [0.6]])
            w["together"] = rng.random() < 0.4
    return {"w": w, "sched": sched, "faults": []}


def run(ctx):
    w = ctx.w
    st = lib.Stream(ctx, w).publish()
    if w.get("split") or w.get("sub"):
        return parts(ctx, st)
    st.set_latency()
    ctx.arm()
    st.run()
    st.raise_errors()
    for e in range(w["epochs"]):
        lib.cover_check(st.epoch_items(e), w["n"], w, f"epoch {e}")
    ctx.rec["samples"] = sum(len(x) for e in range(w["epochs"]) for x in st.epoch_items(e).values())


def parts(ctx, st):
    """Streams of a subsampled dataset, or of the parts of a split one: after each other or at the same time, with one cache."""
    w = ctx.w
    streams, wants = [], []
    for k in range(len(w.get("split") or [1])):
        x = lib.Stream(ctx, w)
        x.index, x.part = st.index, k
        want = x.wanted()
        if sum(want.values()) < w["ranks"] * max(1, w["workers"]) * w["batch"]:
            continue
        streams.append(x)
        wants.append(want)
    st.set_latency()
    ctx.arm()
    for x in streams:
        x.run(join=not w.get("together"))
    if w.get("together"):
        for x in streams:
            ctx.join(x.procs)
            x.collect()
    total = 0
    for x, want in zip(streams, wants):
        x.raise_errors()
        for e in range(w["epochs"]):
            lib.cover_counts(x.epoch_items(e), want, w, f"part {x.part} epoch {e}")
            total += sum(map(len, x.epoch_items(e).values()))
    ctx.rec["samples"] = total
