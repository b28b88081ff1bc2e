"""C26: walk lists every folder once, with exactly its files and folders, or fails."""
import os

from .. import core, lib
from ..core import Violation
from ..engine import classify_exc

MAX_TIME = 2000.0
SWAP_RNG = True


def gen(rng, tier):
    folders = [""]
    for k in range(rng.choice([0, 1, 2, 5, 9, 14, 25, 60])):
        base = rng.choice(folders[-3:] if rng.random() < 0.4 else folders)
        folders.append(os.path.join(base, rng.choice(["a", "sub", "x.y", "d-{}".format(k), "d{}".format(k), "é"]) + str(k)))
    files = []
    for k in range(rng.choice([0, 1, 4, 12, 40])):
        files.append(os.path.join(rng.choice(folders), rng.choice(["f{}", "f{}.txt", "{}.bin", ".h{}"]).format(k)))
    w = {"folders": folders[1:], "files": files, "threads": rng.choice([1, 1, 2, 3, 5, 8]), "lat": rng.choice([0, 0.01, 0.2, 3.0]),
         "think": rng.choice([0, 0, 0.05, 1.0]), "walkers": rng.choice([1, 1, 2])}
    faults = []
    if rng.random() < 0.25:
        faults.append({"op": rng.choice(["list", "list", "stat"]), "cls": "tree", "nth": rng.choice([1, 2, 3, 5, 9, 20]), "count": rng.choice([1, 1, 3]),
                       "effect": rng.choice(["EIO", "EACCES", "delay"]), "delay": rng.choice([0.5, 9.0])})
        if faults[0]["op"] == "stat" and faults[0]["effect"] != "delay":
            faults[0]["op"] = "list"       # os.path.isfile takes an error for 'no file', as os.walk does
    return {"w": w, "sched": lib.gen_sched(rng), "faults": faults, "list_seed": rng.randrange(1 << 30)}


def run(ctx):
    w = ctx.w
    root = ctx.path("tree")
    os.makedirs(root)
    want = {root: [set(), set()]}
    for d in w["folders"]:
        p = os.path.join(root, d)
        os.makedirs(p, exist_ok=True)
        want[p] = [set(), set()]
    for f in w["files"]:
        with open(os.path.join(root, f), "wb") as fh:
            fh.write(b"x")
    for p in list(want):
        if p != root:
            want[os.path.dirname(p)][0].add(os.path.basename(p))
    for f in w["files"]:
        p = os.path.join(root, f)
        want[os.path.dirname(p)][1].add(os.path.basename(p))
    ctx.fs.classes.append((root, "tree"))
    if w["lat"]:
        import random
        r = random.Random(repr(("lat", ctx.scn.get("seed", 0))))
        ctx.fs.latency[("list", "tree")] = lambda: w["lat"] * r.random()
    boxes = []

    def main():
        from litdata import walk
        got = []
        boxes.append(got)
        for folder, dirs, names in walk(root, max_workers=w["threads"]):
            got.append((folder, list(dirs), list(names)))
            if len(got) > 3 * len(want) + 5:
                raise Violation("endless", f"{len(got)} folders of {len(want)}")
            if w["think"]:
                core.SIM.sleep(w["think"])
        return "end"
    ctx.arm()
    procs = [ctx.spawn(f"walker{k}", main) for k in range(w["walkers"])]
    ctx.join(procs)
    ctx.disarm()
    failed = 0
    for p in procs:
        if "exc" in p.box:
            exc = p.box["exc"]
            if isinstance(exc, Violation):
                raise exc
            if classify_exc(exc)[0]:
                raise core.HarnessError(p.box["tb"])
            if isinstance(exc, OSError) and [f for f in ctx.scn["faults"] if f["effect"] != "delay"]:
                failed += 1
                continue
            raise Violation("error:" + lib.exc_site(exc), p.box["tb"][-1500:])
    if failed:
        ctx.rec["failed"] = failed
        return
    for got in boxes:
        seen = [f for f, _, _ in got]
        for f in want:
            if seen.count(f) != 1:
                raise Violation("lost" if f not in seen else "twice", f"{os.path.relpath(f, root)} was listed {seen.count(f)} times, of {len(want)} folders {len(seen)}")
        for f, dirs, names in got:
            if f not in want:
                raise Violation("unexpected", f"{f} isn't a folder of the tree")
            if sorted(dirs) != sorted(want[f][0]) or sorted(names) != sorted(want[f][1]):
                raise Violation("content", f"{os.path.relpath(f, root)}: got {sorted(dirs)} {sorted(names)}, there are {sorted(want[f][0])} {sorted(want[f][1])}")
    ctx.rec["folders"] = len(want) * len(boxes)


def shrink(scn):
    w = scn["w"]
    for k in range(len(w["files"])):
        yield dict(scn, w=dict(w, files=w["files"][:k] + w["files"][k + 1:]))
    for d in reversed(w["folders"]):
        if not any(x != d and x.startswith(d + "/") for x in w["folders"] + w["files"]):
            yield dict(scn, w=dict(w, folders=[x for x in w["folders"] if x != d]))
