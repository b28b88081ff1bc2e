"""C11: a republished dataset is never served from a stale cache; an unchanged one keeps its cache."""
import os
import shutil

from .. import core, lib
from .. import fs as simfs
from ..core import Violation

MAX_TIME = 6000.0


def gen(rng, tier):
    w = lib.gen_stream(rng, kind=rng.choice(["dict", "bytes", "int", "tuple"]), base=rng.choice([8, 40]), remote=rng.choice(["local", "local", "s3", "s3"]),
                       epochs=1, cache=rng.choice(["big", "big", "tiny"]), lat=rng.choice([0, 0, 0.02, 0.3]), ranks=rng.choice([1, 2, 3]), nodes=1)
    w["workers"] = min(w["workers"], 2)
    if w["pre"] == 1:      # KF-pre1-stall
        w["pre"] = 2
    # what the earlier versions look like and what their readers left behind
    w["old"] = [{"n": rng.choice([w["n"], w["n"] + 7, max(4, w["n"] // 2)]), "chunk_items": rng.choice([w["chunk_items"], 3]),
                 "kind": rng.choice([w["kind"], w["kind"], "dict"]), "end": rng.choice(["full", "full", "part", "kill", "none"]),
                 "kill": rng.choice([3, 8, 15, 30])} for _ in range(rng.choice([0, 1, 1, 1, 2]))]
    w["straggler"] = rng.random() < 0.2 and bool(w["old"])
    w["again"] = rng.random() < 0.5
    return {"w": w, "sched": lib.gen_sched(rng), "faults": []}


def shrink(scn):
    import copy
    for k in range(len(scn["w"]["old"])):
        c = copy.deepcopy(scn)
        del c["w"]["old"][k]
        yield c


class Versioned(lib.Stream):
    def input_dir(self, host):
        if self.w.get("explicit"):      # KF-explicit-cache-path
            from litdata.streaming.resolver import Dir
            os.makedirs(self.cache, exist_ok=True)
            return Dir(path=self.cache, url=self.pub if self.w["remote"] == "local" else self.url)
        return "local:" + self.pub if self.w["remote"] == "local" else self.url

    def dataset(self, host="node0"):
        from litdata.streaming.dataset import StreamingDataset
        w = self.w
        return StreamingDataset(self.input_dir(host), cache_dir=self.cache, shuffle=w["shuffle"], drop_last=w["drop_last"],
                                seed=w["seed"], max_cache_size=self.cache_size(), max_pre_download=w["pre"])


def publish(ctx, st, v):
    """Version v replaces whatever is there."""
    w = st.w
    st.src = ctx.path("build%d" % v)
    st.index = lib.build(ctx, st.src, w["n"], w["chunk_items"], None, w["kind"], w["base"], st.salt, w.get("compression"))
    if w["remote"] == "local":
        shutil.rmtree(st.pub, ignore_errors=True)
        shutil.copytree(st.src, st.pub)
    else:
        from .. import stubs
        c = stubs.cloud()
        c.part = w.get("part", 300)
        for k in [k for k in c.objects if k.startswith("bucket/ds/")]:
            del c.objects[k]
        lib.to_cloud(ctx, st.src, st.url)


def version(ctx, w, v, over):
    st = Versioned(ctx, dict(w, **over), "v%d" % v, salt=v)
    st.cache = ctx.path("cache")
    st.pub = ctx.path("pub")
    st.url = "s3://bucket/ds"
    publish(ctx, st, v)
    return st


def straggle(st):
    """A reader of the old version that is still running; whatever happens to it is its own business."""
    try:
        for b in st.loader(st.dataset()):
            core.SIM.sleep(2.0)
    except Exception:  # noqa: BLE001
        pass


def run(ctx):
    w = ctx.w
    ctx.fs.classes.append((ctx.path("pub") + "/", "remote"))
    late = None
    for v, o in enumerate(w["old"]):
        st = version(ctx, w, v, {"n": o["n"], "chunk_items": o["chunk_items"], "kind": o["kind"]})
        if o["end"] == "none":
            continue
        if o["end"] == "part":
            st.w["leave"] = [1]
            st.run(0)
        elif o["end"] == "kill":
            st.run(join=False)
            for p in st.procs:
                p.kill_at = o["kill"]
            ctx.join(st.procs)
        else:
            st.run()
        if w["straggler"] and v == len(w["old"]) - 1:
            late = ctx.spawn("straggler", straggle, st, env=st.rank_env(0))
            ctx.sim.sleep(1.3)
    V = len(w["old"])
    st = version(ctx, w, V, {})
    st.set_latency()
    ctx.arm()
    ctx.sim.sleep(0.01)
    st.run()
    st.raise_errors()
    check(st, "after the republication")
    if w["again"] and w["cache"] == "big" and late is None:
        ctx.disarm()
        ctx.fs.trace = []
        first = st.out
        st.out = {}
        st.run()
        st.raise_errors()
        check(st, "second run of the unchanged dataset")
        if st.out != first:
            raise Violation("changed-data", f"an unchanged dataset delivered {st.out}, before {first}")
        # whatever the first run left out (drop_last) may still have to be fetched
        had = {i for b in first.values() for x in b for i in x}
        if len(had) == st.w["n"]:
            again = sorted({os.path.basename(p) for _, _, _, k, p in ctx.fs.trace
                            if ".bin" in p and (k == "s3.get" or (k == "open" and p.startswith(st.pub)))})
            if again:
                raise Violation("cache-lost", f"nothing changed, but {again} was fetched again")
        ctx.rec["unchanged_reruns"] = 1
    ctx.rec["samples"] = sum(len(b) for x in st.out.values() for b in x)
    if late is not None:
        ctx.sim.kill_proc(late)


def check(st, where):
    for r in range(st.w["ranks"]):
        if st.finished.get(r) != 1:
            raise Violation("unfinished", f"{where}: rank {r} did not finish")
    lib.cover_check(st.epoch_items(0), st.w["n"], st.w, where)
