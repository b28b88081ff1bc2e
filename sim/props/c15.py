"""C15: append adds, overwrite replaces, no mode refuses; a failed run keeps what was there; neighbours stay untouched."""
import os

from .. import core, lib, plib, stubs, fs as simfs
from ..core import Violation
from .c13 import range_ids

SWAP_RNG = True
MAX_TIME = 900.0
MAX_STEPS = 1_500_000


def gen(rng, tier):
    w = plib.gen(rng, n=rng.choice([1, 2, 3, 5, 6, 8, 9]), src=rng.choice(["values", "values", "values", "copy"]), think=rng.choice([0, 0, 0.01]),
                 lat=rng.choice([0, 0, 0.01]))
    w["page"] = rng.choice([1, 2, 3, 1000])
    w["slash"] = rng.random() < 0.2
    w["base_name"] = rng.choice(["out", "out", "a/out", "out.v1"])
    faulty = rng.random() < 0.45
    steps = [{"op": rng.choice(["new", "new", "new", "append", "overwrite"])}]
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        steps.append({"op": rng.choice(["append", "append", "append", "overwrite", "overwrite", "new"])})
    for s in steps:
        s["workers"] = rng.choice([w["workers"], w["workers"], 1, 2, 3])
        if s["op"] == "append" and rng.random() < 0.12:
            s["mismatch"] = rng.choice(["compression", "kind"])
        if faulty and rng.random() < 0.5:
            s["crash"] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 17, 20, 25, 30])
        elif faulty and rng.random() < 0.4:
            s["fail"] = True
    w["steps"] = steps
    if rng.random() < 0.2:
        w["nodes"] = 2
        w["late"] = [rng.choice([0, 0, 0.3]), rng.choice([0, 0.3])]
    faults = []
    if faulty and rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2])):
            if w["out"] == "dir":
                f = {"op": rng.choice(["create", "write", "rename", "remove", "open", "list", "rmdir"]), "cls": rng.choice(["out", "out", "chunks"]), "nth": rng.randrange(1, 16),
                     "effect": rng.choice(["EIO", "ENOSPC", "EACCES"])}
            else:
                f = {"op": rng.choice(["s3.put", "s3.head", "s3.head", "s3.list", "s3.list", "s3.del", "s3.get", "s3.get"]), "nth": rng.randrange(1, 9),
                     "count": rng.choice([1, 1, 2]), "effect": rng.choice(["cloud_500", "cloud_503", "cloud_conn"])}
            faults.append(f)
    return {"w": w, "sched": lib.gen_sched(rng), "faults": faults, "io_chunk": rng.choice([64, 256, 4096]), "list_seed": rng.randrange(1000)}


def neighbours(ctx, w):
    """Things next to the target that nobody asked to change: {name: bytes}."""
    n = w["base_name"]
    names = [n + "2/index.json", n + "2/chunk-0-0.bin", n + "-old/chunk-0-0.bin", n + "-old/.checkpoints/config.json", n[:-1] + "/index.json", n + ".bin", n + ".json",
             "index.json", "chunk-0-0.bin", "0-index.json", ".checkpoints/config.json"]
    if "/" in n:
        d = n.rsplit("/", 1)[0]
        names += [d + "/chunk-0-0.bin", d + "/index.json", d + "x/" + n.rsplit("/", 1)[1] + "/chunk-0-0.bin"]
    return {x: b"neighbour " + x.encode() for x in names}


def place(ctx, w, things):
    for name, b in things.items():
        if w["out"] == "dir":
            p = ctx.path("store/" + name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with simfs.R["open"](p, "wb") as f:
                f.write(b)
        else:
            stubs.cloud().objects["bucket/store/" + name] = b


def check_neighbours(ctx, w, things, where):
    get = plib.load(ctx.path("store") if w["out"] == "dir" else "s3://bucket/store")
    for name, b in things.items():
        got = get(name)
        if got != b:
            raise Violation("neighbour", f"{where}: store/{name} next to store/{w['base_name']} " + ("was removed" if got is None else "was changed"))


def state_of(ctx, out, w):
    """Samples visible to a reader, None without an index."""
    if plib.load(out)("index.json") is None:
        return None
    f = plib.index_fault(out)
    if f:
        raise Violation("false-index", f)
    return plib.ids_of(plib.read_back(ctx, out), w, w["salt"], "read back")


def matches(got, old, want):
    """got == old followed by all groups of want."""
    if got is None:
        return old is None and not want
    old = old or []
    if got[:len(old)] != old:
        return "the earlier samples changed"
    try:
        plib.compare(got[len(old):], want, "new samples")
    except Violation as v:
        return f"{v.cls}: {v.detail}"
    return True


def run(ctx):
    w = ctx.w
    jobs = []
    for k, st in enumerate(w["steps"]):
        w2 = dict(w, workers=st["workers"])
        ids = range_ids(w, k)
        if st.get("fail"):
            w2["fail"] = ids[(k + w["salt"]) % len(ids)]
        jobs.append(plib.Job(ctx, w2, tag=str(k), ids=ids, salt=w["salt"]))
        while st["op"] != "append" and not plib.expected(w2, ids):
            jobs[-1].ids = ids = ids + [ids[-1] + 1]
    for j in jobs:
        j.make_inputs()
    jobs[0].set_latency()
    jobs[0].classes()
    ctx.fs.classes.append((ctx.path("store/" + w["base_name"]) + "/", "out"))
    out = ctx.path("store/" + w["base_name"]) if w["out"] == "dir" else f"{w['out']}://bucket/store/{w['base_name']}"
    things = neighbours(ctx, w)
    place(ctx, w, things)
    if "://" in out:
        stubs.cloud().page = w["page"]
    arg = out + "/" if w["slash"] else out
    crash = plib.Crash(ctx)
    state = None
    for k, st in enumerate(w["steps"]):
        job, op = jobs[k], st["op"]
        mismatch = st.get("mismatch") if state is not None else None
        if mismatch == "compression":
            job.w["compression"] = None if w["compression"] else "zstd"
        elif mismatch:
            job.w["kind"] = "int" if w["kind"] != "int" else "tuple"
        want = plib.expected(job.w, job.ids)
        before = plib.listing(out)
        plib.clear_broadcast(core.SIM)
        fired = sum(core.SIM.faults_fired.values())
        ctx.arm()
        job.start(arg, mode=None if op == "new" else op)
        if st.get("crash"):
            crash.arm(job.procs[-1 if k % 2 else 0], st["crash"])
        stuck = w["nodes"] > 1 and (st.get("crash") or st.get("fail") or ctx.scn["faults"] or state)
        job.join(120 if stuck else None)
        crash.arm(None, 0)
        for p in job.procs:
            if p.alive and stuck:
                plib.kill_tree(p)
        core.SIM.sleep(30)
        for q in core.SIM.procs:
            if q.alive and q.parent is not None and q is not core.SIM.driver:
                core.SIM.kill_proc(q)
        ctx.disarm()
        errs = job.errors()
        where = f"step {k} ({op})"
        check_neighbours(ctx, w, things, where)
        touched = sum(core.SIM.faults_fired.values()) > fired or crash.hit
        crash.hit = False
        new = state_of(ctx, out, w)
        if op == "new" and state is not None:
            if len(errs) < w["nodes"] and not touched:
                raise Violation("not-refused", f"{where} on an existing dataset returned")
            if plib.listing(out) != before:
                raise Violation("refused-but-changed", f"{where} refused but changed {diff(before, plib.listing(out))}")
            continue
        base = state if op == "append" else None
        done = matches(new, base, want)
        if mismatch:
            if not errs:
                raise Violation("mixed", f"{where} with another {mismatch} returned")
            if new != state:
                raise Violation("lost", f"{where} with another {mismatch} failed and changed the dataset")
            continue
        if not errs:
            if done is not True:
                raise Violation("wrong-content", f"{where} returned, had {size(state)}, now {size(new)}, wanted {len([1 for g in want for _ in g])} new: {done}")
        else:
            if not touched and not st.get("fail") and not mismatch:
                if not (op == "append" and not want):
                    plib.Job.raise_errors(job)
            if done is not True:
                if op == "append" and new != state:
                    raise Violation("append-lost", f"{where} failed ({errs[0][1]!r:.200}); before {size(state)}, now {size(new)}: {done}")
                if op == "overwrite" and new is not None and new != state:
                    raise Violation("overwrite-mixed", f"{where} failed; before {size(state)}, now {size(new)}: {done}")
                if op == "new" and new is not None:
                    raise Violation("new-partial", f"{where} failed but an index of {size(new)} is visible")
        state = new
        ctx.rec[f"state{k}"] = size(state)


def size(s):
    return "nothing" if s is None else f"{len(s)} samples"


def diff(a, b):
    return sorted(x for x in set(a) | set(b) if a.get(x) != b.get(x))[:5]


def on_hang(ctx, outcome):
    if ctx.w["nodes"] > 1 and core.SIM.faults_fired:
        return None
    return "hang:" + outcome
