"""C02: a delivered sample is byte for byte the one that was written (integrity under sharing, eviction, torn files, kills)."""
import random

from .. import core, lib
from ..core import Violation

MAX_TIME = 4000.0


def gen(rng, tier):
    w = lib.gen_stream(rng, epochs=rng.choice([1, 2]), remote=rng.choice(["dir", "dir", "s3", "s3", "gs", "none"]),
                       kind=rng.choice(["dict", "bytes", "var", "np", "tensor", "tuple"]), base=rng.choice([40, 200, 900]))
    if w["remote"] == "none":
        w["cache"] = "big"
    w["victims"] = rng.choice([0, 0, 1, 1, 2])
    w["victim_kill"] = [rng.choice([2, 4, 6, 9, 13, 20, 33, 60]) for _ in range(w["victims"])]
    w["overlap"] = rng.random() < 0.5
    w["accessors"] = rng.choice([0, 1, 2])
    w["accesses"] = rng.choice([6, 15, 30])
    if rng.random() < 0.3:
        w["remote"] = "gs" if rng.random() < 0.6 else w["remote"]
    if w["remote"] == "gs":      # KF-gs-partial: files grow in place, also under another reader that has opened them
        w["accessors"], w["overlap"], w["workers"] = 0, False, min(w["workers"], 1)
        if w["ranks"] > w["nodes"] or w["compression"]:
            w["remote"] = "s3"
    lib.legal(w)
    faults = lib.gen_read_faults(rng, w, effects=("err", "delay", "cache")) if rng.random() < 0.5 and w["remote"] != "none" else []
    scn = {"w": w, "sched": lib.gen_sched(rng), "faults": faults, "io_chunk": rng.choice([64, 256, 256, 4096])}
    if rng.random() < 0.2:
        w["enc"] = rng.choice(["sample", "chunk"])
    return scn


def run(ctx):
    w = ctx.w
    st = lib.Stream(ctx, w).publish()
    st.set_latency()
    ctx.fs.classes.append((ctx.path("cache") + "/", "cache"))
    ctx.arm()
    procs = []

    def victim(j):
        ds = st.dataset("node0")
        for _ in range(2):
            for v in st.loader(ds):
                for x in v:
                    lib.check_value(x, w["kind"], w["base"], 0, w["n"], f"victim {j}")

    def accessor(j):
        r = random.Random(w["seed"] * 7 + j)
        ds = st.dataset("node0")
        for _ in range(w["accesses"]):
            i = r.randrange(w["n"])
            v = ds[i]
            got = lib.check_value(v, w["kind"], w["base"], 0, w["n"], f"accessor {j} at {i}")
            if got != i:
                raise Violation("wrong-sample", f"accessor {j}: index {i} gave the sample written at {got}")
            ctx.sim.probe("random_access")

    vs = []
    for j in range(w["victims"]):
        p = ctx.spawn(f"victim{j}", victim, j, env=st.rank_env(0), host="node0")
        p.kill_at = w["victim_kill"][j]
        vs.append(p)
    if not w["overlap"]:
        ctx.join(vs)
    for j in range(w["accessors"]):
        procs.append(ctx.spawn(f"acc{j}", accessor, j, host="node0"))
    st.run()
    ctx.join(procs + (vs if w["overlap"] else []))
    for p in procs + vs:
        if isinstance(p.box.get("exc"), Violation):
            raise p.box["exc"]
    lib.reraise_harness(st)
    if w["ranks"] == 1 and w["workers"] <= 1 and not w["shuffle"]:
        for e in range(w["epochs"]):
            seq = st.epoch_items(e)[0]
            if seq != list(range(len(seq))):
                raise Violation("wrong-position", f"epoch {e}: an unshuffled single reader received {seq}")
    ctx.rec["samples"] = sum(len(x) for e in range(w["epochs"]) for x in st.epoch_items(e).values())
    ctx.rec["errors_tolerated"] = len(st.errors) + sum("exc" in p.box for p in procs + vs)
    ctx.rec["killed"] = sum(p.exitcode == -9 for p in vs)


def on_hang(ctx, outcome):
    ctx.rec["unfinished"] = 1
    return None        # waiting is allowed here; C07 and C09 decide progress
