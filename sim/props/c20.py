"""C20: a cache filled by concurrent writers (ranks, loader workers) reads back as everything written."""
import json

from .. import core, lib, plib
from ..core import Violation

MAX_TIME = 1500.0
MAX_STEPS = 1_200_000
SWAP_RNG = True


def gen(rng, tier):
    w = {
        "mode": rng.choice(["cache", "loader", "loader"]),
        "world": rng.choice([1, 1, 2, 2, 3]),
        "workers": rng.choice([0, 1, 2, 2, 3]),
        "n": rng.choice([1, 2, 3, 5, 8, 12, 17, 24, 31, 40]),
        "chunk_size": rng.choice([1, 2, 3, 4, 7]),
        "chunk_bytes": None,
        "kind": rng.choice(["dict", "bytes", "int", "var", "tuple"]),
        "base": rng.choice([8, 40]),
        "compression": rng.choice([None, None, "zstd"]),
        "batch": rng.choice([1, 2, 2, 3, 5, None]),
        "own": rng.random() < 0.3,            # the dataset uses its own Cache
        "think": rng.choice([0, 0, 0, 0.02, 0.4]),
        "watch": rng.random() < 0.7,          # another process reads as soon as the cache is said to be filled
        "left": None,                         # the first attempt is left after so many batches
        "again": rng.random() < 0.5,          # ... and the next epoch is read by the same loader
        "crash": None,
        "seed": rng.randrange(100),
    }
    if w["mode"] == "cache":
        w["world"] = rng.choice([1, 2, 3, 3, 5, 12])
        w["workers"] = 0
        if rng.random() < 0.3:
            w["chunk_bytes"], w["chunk_size"] = rng.choice([60, 200]), None
    elif rng.random() < 0.15:
        w["world"], w["workers"] = 1, rng.choice([11, 12])
    if w["mode"] == "loader" and rng.random() < 0.35:
        # several ranks would have to leave together before the cache is filled by those which went on
        w["left"], w["world"] = rng.choice([1, 1, 2, 3]), 1
    if rng.random() < 0.35:
        w["crash"] = [rng.randrange(w["world"]), rng.choice([1, 2, 3, 5, 8, 13])]
    faults = []
    if rng.random() < 0.2:
        faults.append({"op": rng.choice(["create", "write", "rename"]), "cls": "cache", "nth": rng.choice([1, 2, 3, 5, 8]),
                       "effect": rng.choice(["EIO", "ENOSPC"])})
    sched = lib.gen_sched(rng)
    if rng.random() < 0.4:
        sched.update(stall_p=0.02, max_stalls=6, stall_lens=[0.05, 1.0, 9.0])
    return {"w": w, "sched": sched, "faults": faults, "io_chunk": rng.choice([16, 64, 256])}


class Items:
    """The user's dataset."""

    def __init__(self, w):
        self.w = w

    def __len__(self):
        return self.w["n"]

    def __getitem__(self, i):
        if self.w["think"]:
            core.SIM.sleep(self.w["think"])
        return lib.value(i, self.w["kind"], self.w["base"])


class OwnCache(Items):
    """A dataset which fills the cache itself and reads from it once it is filled."""

    def __init__(self, w, path):
        super().__init__(w)
        from litdata.streaming.cache import Cache
        self.cache = Cache(path, chunk_size=w["chunk_size"], compression=w["compression"])

    def __getitem__(self, index):
        if self.cache.filled:
            return self.cache[index]
        v = super().__getitem__(index)
        self.cache[index] = v
        return v


class Fill:
    def __init__(self, ctx):
        self.ctx, self.w = ctx, ctx.w
        self.path = ctx.path("cache")
        import os
        os.makedirs(self.path, exist_ok=True)

    def ids(self, vals, where):
        w = self.w
        return [lib.check_value(v, w["kind"], w["base"], 0, w["n"], where) for v in vals]

    def cache(self):
        from litdata.streaming.cache import Cache
        w = self.w
        return Cache(self.path, chunk_size=w["chunk_size"], chunk_bytes=w["chunk_bytes"], compression=w["compression"])

    def part(self, rank):
        """Contiguous parts; with few items some ranks have none."""
        w = self.w
        k, r = divmod(w["n"], w["world"])
        a = rank * k + min(rank, r)
        return range(a, a + k + (rank < r))

    def loader(self):
        from litdata.streaming.dataloader import CacheDataLoader
        w = self.w
        if w["own"]:
            ds, kw = OwnCache(w, self.path), {}
        else:
            ds, kw = Items(w), {"cache_dir": self.path, "compression": w["compression"], "chunk_bytes": None if w["batch"] else 200}
        return CacheDataLoader(ds, num_workers=w["workers"], batch_size=w["batch"], collate_fn=lib.collate, **kw)

    def read_all(self, who):
        c = self.cache()
        w = self.w
        if len(c) != w["n"]:
            raise Violation("wrong-length", f"{who}: the filled cache has {len(c)} items, {w['n']} were written")
        for i in range(w["n"]):
            got = self.ids([c[i]], f"{who} at {i}")[0]
            if got != i:
                raise Violation("wrong-index", f"{who}: index {i} gives the sample written at {got}")

    def main(self, rank, attempt, out):
        import numpy as np
        w = self.w
        if w["mode"] == "cache":
            c = self.cache()
            if not c.filled:
                for i in self.part(rank):
                    if w["think"]:
                        core.SIM.sleep(w["think"])
                    c[i] = lib.value(i, w["kind"], w["base"])
                c.done()
                c.merge(1)
            if not c.filled:
                raise Violation("not-filled", f"rank {rank}: merge returned, but the cache isn't filled")
        else:
            dl = self.loader()
            if w["left"] and attempt == 0:
                it = iter(dl)
                for _, b in zip(range(w["left"]), it):
                    self.ids(b, f"rank {rank}, left epoch")
                del it
                if not w["again"]:
                    return
            np.random.seed(w["seed"])
            first = [self.ids(b, f"rank {rank}") for b in dl]
            out["first"] = first
            if not dl._cache.filled:
                raise Violation("not-filled", f"rank {rank}: the epoch ended, but the cache isn't filled")
            # like a user who has the ranks synchronised before the next epoch
            core.SIM.sleep(1)
            dl2 = self.loader()
            np.random.seed(w["seed"])
            out["second"] = [self.ids(b, f"rank {rank}, second epoch") for b in dl2]
        self.read_all(f"rank {rank}")

    def watcher(self):
        c = self.cache()
        while not c.filled:
            core.SIM.sleep(0.03)
        self.read_all("watcher")

    def attempt(self, k, crash=None):
        w = self.w
        self.out = [{} for _ in range(w["world"])]
        self.procs = []
        for r in range(w["world"]):
            env = {"WORLD_SIZE": w["world"], "GLOBAL_RANK": r, "NNODES": 1} if w["world"] > 1 else {}
            self.procs.append(self.ctx.spawn(f"rank{r}", self.main, r, k, self.out[r], env=env, host="node0"))
        return self.procs

    def raise_errors(self, procs, tolerate=False):
        errs = 0
        for p in procs:
            e = p.box.get("exc")
            if isinstance(e, Violation):
                raise e
            if e is not None and "HarnessError" in p.box["tb"]:
                raise core.HarnessError(p.box["tb"])
            if e is not None:
                errs += 1
                if not tolerate:
                    raise Violation("error:" + lib.exc_site(e), f"{p.name}: {p.box['tb'][-2500:]}")
        return errs


def per_process_globals(ctx):
    """Module state which CacheDataLoader replaces in its own process only."""
    import torch.utils.data._utils.worker as tw
    from torch.utils.data.dataloader import _DatasetKind
    import litdata.streaming.dataloader as dl
    orig = tw._worker_loop

    def reload(m):
        assert m is tw
        m._worker_loop = orig
        return m
    dl.reload = reload
    ctx.sim.globals_registry += [(tw, "_worker_loop", orig), (_DatasetKind, "create_fetcher", _DatasetKind.create_fetcher)]


def restart(ctx):
    """The machine is restarted: nothing of the last attempt is left running."""
    for q in list(core.SIM.procs):
        if q.alive and q.parent is not None and q is not core.SIM.driver:
            plib.kill_tree(q)


def run(ctx):
    w = ctx.w
    per_process_globals(ctx)
    f = Fill(ctx)
    ctx.fs.classes.append((f.path + "/", "cache"))
    watch = plib.IndexWatch(ctx, f.path)
    crash = plib.Crash(ctx)
    faulty = bool(ctx.scn["faults"])
    ctx.arm()
    watcher = None
    if w["watch"] and not faulty:
        watcher = ctx.spawn("watcher", f.watcher, host="node0")
    if w["crash"] or faulty:
        procs = f.attempt(0)
        if w["crash"]:
            crash.arm(procs[w["crash"][0]], w["crash"][1])
        # the other ranks wait for one which failed
        ctx.join(procs, 200 if w["world"] == 1 else 4)
        crash.arm(None, 0)
        f.raise_errors(procs, tolerate=faulty)
        ok = all("ok" in p.box for p in procs)
        if w["world"] == 1 and procs[0].alive:
            raise Violation("hang", f"a single writer didn't end: {core.SIM.dump_stacks() if hasattr(core.SIM, 'dump_stacks') else ''}")
        for p in procs:
            if p.alive:
                plib.kill_tree(p)
        if watcher is not None:
            core.SIM.sleep(2)
            f.raise_errors([watcher])
        restart(ctx)
        watch.check()
        watcher = ctx.spawn("watcher", f.watcher, host="node0") if w["watch"] else None
        ctx.rec["attempt_ok"] = int(ok)
        ctx.arm_schedule()
    elif w["left"] and not w["again"]:
        procs = f.attempt(0)
        ctx.join(procs)
        f.raise_errors(procs)
    procs = f.attempt(0 if w["left"] and w["again"] else 1)
    ctx.join(procs)
    f.raise_errors(procs)
    watch.check()
    if watcher is not None:
        ctx.join([watcher], 30)
        f.raise_errors([watcher])
        if watcher.alive:
            raise Violation("not-visible", "the cache is filled, but another process waits for it")
    total = sum(c["chunk_size"] for c in json.loads(plib.load(f.path)("index.json"))["chunks"])
    if total != w["n"]:
        raise Violation("wrong-length", f"the index counts {total} items, {w['n']} were written")
    if w["mode"] == "loader":
        for key in ("first", "second"):
            seen = sorted(i for o in f.out for b in o.get(key, []) for i in b)
            if seen != list(range(w["n"])):
                raise Violation("epoch-" + key, f"the {key} epoch delivered {seen} instead of every one of {w['n']} items once")
    ctx.rec["samples"] = w["n"] * w["world"]
    ctx.rec["index_checks"] = watch.checked


def on_hang(ctx, outcome):
    return "hang:" + outcome

