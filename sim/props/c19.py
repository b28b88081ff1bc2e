"""C19: merging datasets gives their concatenation or a visible failure."""
import os

from .. import core, lib, plib
from ..core import Violation

MAX_TIME = 900.0
MAX_STEPS = 800_000
SWAP_RNG = True

EFFECTS = {"local": ["EIO", "ENOSPC", "EACCES", "short_ENOSPC"], "cloud": ["cloud_500", "cloud_503", "cloud_conn", "cloud_after"]}


def gen(rng, tier):
    k = rng.choice([2, 2, 3, 4, 6])
    kind = rng.choice(["dict", "bytes", "int", "var", "tuple", "np"])
    place = rng.choice(["local", "local", "s3", "s3", "gs"])
    comp = rng.choice([None, None, "zstd"])
    src = [{"n": rng.choice([1, 2, 3, 5, 8, 13]), "chunk": rng.choice([1, 2, 3, 5]), "kind": kind, "base": rng.choice([8, 40, 40, 200]),
            "place": place, "compression": comp, "same": None} for _ in range(k)]
    w = {"src": src, "out": place, "threads": rng.choice([None, 1, 2, 3, 8]), "odd": None, "crash": None, "lat": rng.choice([0, 0.05, 0.4, 2.0]),
         "prior": rng.choice([None, None, None, "dir", "chunks", "index"]), "trail": rng.random() < 0.1}
    if rng.random() < 0.15:      # the same dataset once more
        src[-1] = dict(src[-1], same=rng.randrange(k - 1))
    if rng.random() < 0.25:
        w["odd"] = rng.choice(["kind", "kind", "spec", "compression", "place", "noindex", "nested"])
        s = src[rng.randrange(k)]
        if w["odd"] == "kind":
            s["kind"] = rng.choice([x for x in ("dict", "bytes", "int", "tuple", "np") if x != kind])
        elif w["odd"] == "spec":
            # the leaves have the same types, but the samples another structure
            for x in src:
                x["kind"] = "dict"
            s["kind"] = rng.choice(["flip", "list"])
        elif w["odd"] == "compression":
            s["compression"] = None if comp else "zstd"
        elif w["odd"] == "place":
            s["place"] = rng.choice([x for x in ("local", "s3", "gs") if x != place])
    faults = []
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 2])):
            nth, count = rng.choice([1, 1, 2, 3, 5, 9]), rng.choice([1, 1, 2])
            if place == "local":
                op, cls = rng.choice([("open", "source"), ("read", "source"), ("create", "out"), ("write", "out"), ("rename", "out"),
                                      ("create", "out"), ("write", "out")])
                faults.append({"op": op, "cls": cls, "nth": nth, "count": count, "effect": rng.choice(EFFECTS["local"] if op == "write" else
                                                                                                  EFFECTS["local"][:3])})
            else:
                faults.append({"op": rng.choice(["s3.put", "s3.put", "s3.put", "s3.get", "s3.head"]), "nth": nth, "count": count,
                               "effect": rng.choice(EFFECTS["cloud"])})
    elif rng.random() < 0.25:
        w["crash"] = rng.choice([1, 2, 3, 4, 6, 9, 14, 22, 35])
    return {"w": w, "sched": lib.gen_sched(rng), "faults": faults, "io_chunk": rng.choice([16, 64, 256]), "list_seed": rng.randrange(1000)}


def sample(s, i, salt):
    v = lib.value(i, "dict" if s["kind"] in ("flip", "list") else s["kind"], s["base"], salt)
    if s["kind"] == "flip":
        return {"x": v["i"], "y": v["b"], "z": v["v"]}
    if s["kind"] == "list":
        return [v["i"], v["b"], v["v"]]
    return v


def publish(ctx, w):
    """Writes the sources and returns [(location, samples)]."""
    from litdata.streaming.cache import Cache
    made = []
    for k, s in enumerate(w["src"]):
        if s["same"] is not None:
            made.append(made[s["same"]])
            continue
        name = "src%d" % k if w["odd"] != "nested" or k == 0 else "src0/sub%d" % k
        path = ctx.path(*name.split("/"))
        os.makedirs(path, exist_ok=True)
        c = Cache(path, chunk_size=s["chunk"], compression=s["compression"])
        vals = [sample(s, i, k + 1) for i in range(s["n"])]
        for i, v in enumerate(vals):
            c[i] = v
        c.done()
        c.merge()
        loc = path
        if s["place"] != "local":
            loc = f"{s['place']}://bucket/{name}"
            lib.to_cloud(ctx, path, loc)
        else:
            ctx.fs.classes.append((path + "/", "source"))
        if w["odd"] == "noindex" and k == len(w["src"]) - 1:
            if s["place"] == "local":
                os.remove(os.path.join(path, "index.json"))
            else:
                from .. import stubs
                del stubs.cloud().objects["bucket/" + name + "/index.json"]
        made.append((loc, vals))
    return made


def snapshot(locs):
    return {loc: plib.listing(loc) for loc in locs}


def run(ctx):
    w = ctx.w
    made = publish(ctx, w)
    locs = sorted({loc for loc, _ in made})
    if w["odd"] == "nested":
        locs = [x for x in locs if "/sub" in x]
    out = ctx.path("merged") if w["out"] == "local" else f"{w['out']}://bucket/merged"
    ctx.fs.classes.append((ctx.path("merged") + "/", "out"))
    prior = prepare(ctx, w, out)
    before = snapshot(locs)
    watch = plib.IndexWatch(ctx, out) if w["prior"] != "index" else None
    import random
    r = random.Random(("lat", ctx.scn.get("seed", 0)).__repr__())
    if w["lat"]:
        for key in (("s3.put", "s3"), ("open", "source"), ("create", "out")):
            ctx.fs.latency[key] = lambda: w["lat"] * r.random()
    args = [loc + "/" if w["trail"] and "://" in loc else loc for loc, _ in made]

    def main():
        from litdata.processing.functions import merge_datasets
        merge_datasets(args, out, max_workers=w["threads"])
    crash = plib.Crash(ctx)
    ctx.arm()
    p = ctx.spawn("merge", main, host="node0")
    if w["crash"]:
        crash.arm(p, w["crash"])
    ctx.join([p])
    ctx.disarm()
    failed = judge(ctx, w, p, made, out, before, watch, bool(ctx.scn["faults"]) or w["crash"], prior)
    if failed and w["odd"] is None and w["prior"] != "index" and plib.load(out)("index.json") is None:
        # a second merge isn't held back by what the first one left
        p = ctx.spawn("again", main, host="node0")
        ctx.join([p])
        if judge(ctx, w, p, made, out, before, watch, False, prior):
            raise Violation("again-failed", "the merge after a failed one failed without any fault")
        ctx.rec["again"] = 1
    ctx.rec["failed"] = int(failed)


def prepare(ctx, w, out):
    """What the destination holds before the merge."""
    if w["prior"] is None or (w["prior"] == "dir" and w["out"] != "local"):
        return None
    tmp = ctx.path("prior")
    # (of the same kind: a chunk counts as decompressed when it lies next to a compressed one)
    lib.build(ctx, tmp, 4, 2, compression=w["src"][0]["compression"])
    if w["prior"] == "chunks":
        os.remove(os.path.join(tmp, "index.json"))
    if w["out"] != "local":
        lib.to_cloud(ctx, tmp, out)
    else:
        os.makedirs(out)
        if w["prior"] != "dir":
            for f in os.listdir(tmp):
                os.rename(os.path.join(tmp, f), os.path.join(out, f))
    return plib.listing(out)


def judge(ctx, w, p, made, out, before, watch, faulty, prior):
    """Whether the merge failed (visibly)."""
    if "tb" in p.box and "HarnessError" in p.box["tb"]:
        raise core.HarnessError(p.box["tb"])
    if snapshot(before) != before:
        raise Violation("source-changed", "a source isn't what it was before the merge")
    if watch is not None:
        watch.check()
    if w["prior"] == "index":
        if "ok" in p.box:
            raise Violation("overwritten", "the merge into a location with a dataset returned")
        if plib.listing(out) != prior:
            raise Violation("overwritten", "the dataset which was at the destination has changed")
        return True
    exc = p.box.get("exc")
    if exc is not None or "ok" not in p.box:
        if plib.load(out)("index.json") is not None and not faulty:
            raise Violation("index-after-failure", f"the merge failed with {exc!r}, but the destination shows an index")
        if exc is not None and plib.load(out)("index.json") is not None and not ctx.scn["faults"]:
            raise Violation("index-after-failure", f"the merge failed with {exc!r}, but the destination shows an index")
        if not faulty and w["odd"] is None:
            raise Violation("error:" + lib.exc_site(exc), p.box["tb"][-2000:])
        if exc is None or plib.load(out)("index.json") is None:
            return True
        # the answer to the upload of the index was lost: what is visible is complete
    got = plib.read_back(ctx, out)
    want = [v for _, vals in made for v in vals]
    if len(got) != len(want):
        raise Violation("count", f"the sources have {len(want)} samples, the merged dataset {len(got)}")
    for k, (a, b) in enumerate(zip(got, want)):
        if not lib.same(a, b):
            raise Violation("content", f"sample {k} of {len(want)} is {a!r:.200}, the source has {b!r:.200}")
    ctx.rec["samples"] = len(want)
    return exc is not None


def on_hang(ctx, outcome):
    return "hang:" + outcome
