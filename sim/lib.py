"""Shared pieces of the scenarios: sample values, dataset builders, streaming workloads, oracles."""
from __future__ import annotations

import json
import os

from . import core, fs as simfs
from .core import Violation


# ------------------------------------------------------------------------------------------------ samples
def pat(i, n, salt=0):
    """n bytes that depend on every bit of i and salt and on their position."""
    x = (i * 2654435761 + salt * 40503 + 12345) & 0xFFFFFFFF
    out = bytearray(n)
    for k in range(n):
        x = (x * 1664525 + 1013904223) & 0xFFFFFFFF
        out[k] = x >> 24
    return bytes(out)


def size_of(i, kind, base):
    if kind == "var":
        return base + (i * 37) % (base * 2 + 1)
    return base


def value(i, kind="dict", base=24, salt=0):
    """The sample written at position i."""
    if kind == "int":
        return i + 1000000 * salt
    if kind == "bytes":
        return i.to_bytes(4, "big") + salt.to_bytes(2, "big") + pat(i, base, salt)
    if kind == "var":
        return {"i": i, "b": pat(i, size_of(i, "var", base), salt), "v": salt}
    if kind == "tuple":
        return (i, "s%d" % i, salt, pat(i, base, salt))
    if kind == "np":
        import numpy as np
        return {"i": i, "v": salt, "a": np.frombuffer(pat(i, base, salt), dtype=np.uint8).copy()}
    if kind == "tensor":
        import torch
        import numpy as np
        return {"i": i, "v": salt, "a": torch.from_numpy(np.frombuffer(pat(i, base, salt), dtype=np.uint8).copy())}
    return {"i": i, "b": pat(i, base, salt), "v": salt}


def index_of(v, kind="dict"):
    if kind == "int":
        return v % 1000000
    if kind == "bytes":
        return int.from_bytes(v[:4], "big")
    if kind == "tuple":
        return v[0]
    return v["i"]


def salt_of(v, kind="dict"):
    if kind == "int":
        return v // 1000000
    if kind == "bytes":
        return int.from_bytes(v[4:6], "big")
    if kind == "tuple":
        return v[2]
    return v["v"]


def same(a, b):
    import numpy as np
    import torch
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        return isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    if isinstance(a, np.integer) and isinstance(b, int):   # litdata's integer serializer returns numpy integers
        return int(a) == b
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def collate(items):
    """Module level, so that it crosses process boundaries."""
    return list(items)


def check_value(v, kind, base, salt=None, n=None, where=""):
    """The value must be exactly one that was written; returns its index."""
    try:
        i = index_of(v, kind)
        s = salt_of(v, kind) if salt is None else salt
        i = int(i)
        s = int(s)
        ok = i >= 0 and (n is None or i < n) and same(v, value(i, kind, base, s))
    except Exception as e:  # noqa: BLE001  a garbled value may fail in any way
        raise Violation("wrong-data", f"{where}: unreadable sample {v!r:.200} ({e!r})")
    if not ok:
        raise Violation("wrong-data", f"{where}: delivered {v!r:.300}, which was never written")
    return i


# ------------------------------------------------------------------------------------------------ datasets
def build(ctx, path, n, chunk_items=None, chunk_bytes=None, kind="dict", base=24, salt=0, compression=None, start=0, enc=None):
    """Writes a dataset with litdata's own writer (default schedule) and returns its index."""
    from litdata.streaming.cache import Cache
    os.makedirs(path, exist_ok=True)
    c = Cache(path, chunk_size=chunk_items, chunk_bytes=chunk_bytes, compression=compression, encryption=encryption(enc))
    for i in range(n):
        c[i] = value(start + i, kind, base, salt)
    c.done()
    c.merge()
    return read_index(path)


def encryption(level):
    """litdata's Fernet encryption with a fixed key (deriving one from a password takes long and isn't of interest here)."""
    if not level:
        return None
    import base64
    from cryptography.fernet import Fernet
    from litdata.utilities.encryption import FernetEncryption
    e = FernetEncryption.__new__(FernetEncryption)
    e.password, e.level, e.salt = "password", level, b"s" * 16
    e.key = base64.urlsafe_b64encode(bytes(range(32)))
    e.fernet = Fernet(e.key)
    return e


def read_index(path):
    with simfs.R["open"](os.path.join(path, "index.json"), "rb") as f:
        return json.loads(f.read())


def build_tokens(ctx, path, n_tokens_per_item, chunk_tokens, block, compression=None, dtype=None):
    """Token dataset; item k holds tokens k*1000 + position."""
    import torch
    from litdata.streaming.cache import Cache
    from litdata.streaming.item_loader import TokensLoader
    os.makedirs(path, exist_ok=True)
    c = Cache(path, chunk_size=chunk_tokens, compression=compression, item_loader=TokensLoader(block))
    pos = 0
    for i, m in enumerate(n_tokens_per_item):
        c._add_item(i, torch.arange(pos, pos + m, dtype=dtype or torch.int32))
        pos += m
    c.done()
    c.merge()
    return read_index(path)


def to_cloud(ctx, path, url):
    """Publish a local folder under s3://bucket/prefix in the object store stub."""
    from . import stubs
    c = stubs.cloud()
    name = url.split("://", 1)[1].rstrip("/")
    for r, _, files in os.walk(path):
        for f in files:
            p = os.path.join(r, f)
            rel = os.path.relpath(p, path)
            with simfs.R["open"](p, "rb") as fh:
                c.objects[f"{name}/{rel}"] = fh.read()


# ------------------------------------------------------------------------------------------------ schedules
def gen_sched(rng, horizon=3000, lines=True):
    """One swarm configuration of the scheduler."""
    mode = rng.choice(["random", "random", "random", "pct", "pct", "rr"])
    s = {"mode": mode, "seed": rng.randrange(1 << 30), "idseed": rng.randrange(1 << 16)}
    if mode == "random":
        s["p"] = rng.choice([0.02, 0.1, 0.3, 0.7])
    if mode == "pct":
        s["depth"] = rng.choice([1, 2, 3, 5])
        s["horizon"] = rng.choice([300, 1500, horizon])
    if rng.random() < 0.35:
        s["stall_p"] = rng.choice([0.002, 0.01, 0.05])
        s["max_stalls"] = rng.choice([1, 3, 10])
        s["stall_lens"] = rng.choice([[0.05, 0.3], [0.5, 2.0], [0.01, 7.0]])
    if lines and rng.random() < 0.3:
        s["line_p"] = rng.choice([0.005, 0.03])
    return s


# ------------------------------------------------------------------------------------------------ streaming workload
def gen_stream(rng, **over):
    """Random streaming configuration (JSON-able)."""
    w = {
        "n": rng.choice([6, 10, 13, 17, 24, 31, 40]),
        "chunk_items": rng.choice([1, 2, 3, 4, 5, 7]),
        "kind": rng.choice(["dict", "bytes", "var", "tuple", "np", "int"]),
        "base": rng.choice([8, 40, 200]),
        "compression": rng.choice([None, None, None, "zstd"]),
        "workers": rng.choice([0, 1, 2, 2, 3]),
        "ranks": rng.choice([1, 1, 1, 2, 2, 3]),
        "nodes": 1,
        "batch": rng.choice([1, 2, 3, 4]),
        "shuffle": rng.random() < 0.6,
        "drop_last": rng.choice([None, True, False]),
        "epochs": rng.choice([1, 1, 2, 3]),
        "seed": rng.randrange(100),
        "remote": rng.choice(["none", "dir", "dir", "s3", "s3", "gs"]),
        "cache": rng.choice(["big", "tiny", "tiny", "mid"]),
        "pre": rng.choice([1, 2, 2, 4]),
        "lat": rng.choice([0, 0, 0.02, 0.3, 3.0]),
        "prefetch": rng.choice([None, 1, 4]),
        "persistent": rng.random() < 0.3,
        "part": rng.choice([64, 300, 4000]),
    }
    w.update(over)
    if w["ranks"] > 1 and "nodes" not in over and rng.random() < 0.3:
        w["nodes"] = w["ranks"]
    if w["ranks"] > 1 and w["workers"] > 2:
        w["workers"] = 2
    return legal(w)


def legal(w):
    """Keeps the configuration out of the regions of the known findings KF-gs-partial, KF-multinode-shuffle and KF-pre1-stall
    (there the chunks come by forced downloads, which aren't counted: another process may evict them)."""
    if w["pre"] == 1 and w["cache"] != "big" and w["ranks"] * max(1, w["workers"]) > w["nodes"]:
        w["pre"] = 2
    if w["workers"] == 0:
        w["prefetch"] = None
        w["persistent"] = False
    if w["remote"] == "gs" and (w["compression"] or w["ranks"] > w["nodes"]):
        w["remote"] = "s3"
    if w["nodes"] > 1 and w["shuffle"] and w["epochs"] > 1:
        align(w)
    return w


def align(w):
    """Makes no chunk shared between two workers: every worker gets the same number of whole chunks, whole batches."""
    W = max(1, w["workers"]) * w["ranks"]
    per = max(1, round(w["n"] / W / w["chunk_items"]))
    while (per * w["chunk_items"]) % w["batch"]:
        per += 1
    w["n"] = W * per * w["chunk_items"]


class Stream:
    """Runs the streaming workload of `w` on simulated ranks and records every batch."""

    def __init__(self, ctx, w, tag="a", salt=0, name=""):
        self.ctx = ctx
        self.w = w
        self.tag = tag
        self.salt = salt
        self.src = ctx.path("src" + name)
        self.url = f"{w['remote']}://bucket/ds{name}"
        self.out = {}        # (rank, epoch) -> list of batches of indices
        self.raw = {}        # (rank, epoch) -> list of batches of values
        self.errors = {}     # rank -> exception
        self.finished = {}   # rank -> epochs completed
        self.lens = {}       # (rank, epoch) -> announced length
        self.maxgap = {}     # rank -> longest wait for a batch
        self.cache_dirs = []

    # -- storage
    def publish(self):
        w, ctx = self.w, self.ctx
        self.index = build(ctx, self.src, w["n"], w["chunk_items"], None, w["kind"], w["base"], self.salt, w.get("compression"),
                           enc=w.get("enc"))
        ctx.fs.classes.append((self.src + "/", "remote"))
        if w["remote"] in ("s3", "gs"):
            from . import stubs
            stubs.cloud().part = w.get("part", 300)
            to_cloud(ctx, self.src, self.url)
        return self

    def chunk_bytes(self):
        return [c["chunk_bytes"] for c in self.index["chunks"]]

    def file_sizes(self):
        return [os.path.getsize(os.path.join(self.src, c["filename"])) for c in self.index["chunks"]]

    def set_latency(self):
        """Storage latency from the workload; deterministic function of the seed."""
        w, ctx = self.w, self.ctx
        if not w.get("lat"):
            return
        import random
        r = random.Random(("lat", ctx.scn.get("seed", 0)).__repr__())
        mx = w["lat"]

        def lat():
            x = r.random()
            return 0.0 if x < 0.4 else mx * x
        ctx.fs.latency[("s3.get", "s3")] = lat
        ctx.fs.latency[("open", "remote")] = lat

    def cache_size(self):
        b = self.chunk_bytes()
        c = self.w["cache"]
        if c == "big":
            return "1GB"
        if c == "tiny":
            return max(1, min(b))
        if c == "mid":
            return max(b) * 3
        if c == "half":
            return sum(b) // 2
        return c

    def input_dir(self, host):
        from litdata.streaming.resolver import Dir
        w = self.w
        if w["remote"] == "none":
            return self.src
        cache = self.ctx.path("cache", self.tag, host)
        os.makedirs(cache, exist_ok=True)
        if cache not in self.cache_dirs:
            self.cache_dirs.append(cache)
        if w["remote"] == "dir":
            return Dir(path=cache, url=self.src)
        return Dir(path=cache, url=self.url)

    def dataset(self, host="node0"):
        from litdata.streaming.dataset import StreamingDataset
        w = self.w
        kw = {k: v for k, v in (("subsample", w.get("sub")), ("encryption", encryption(w.get("enc")))) if v}
        ds = StreamingDataset(self.input_dir(host), shuffle=w["shuffle"], drop_last=w["drop_last"], seed=w["seed"],
                              max_cache_size=self.cache_size(), max_pre_download=w["pre"], **kw)
        if w.get("split"):
            from litdata import train_test_split
            ds = train_test_split(ds, splits=list(w["split"]), seed=w["seed"])[self.part]
        return ds

    part = 0    # which part of a split dataset

    def wanted(self):
        """The samples of the dataset (or of its part) as it lists them: {index: how often}. Default schedule."""
        box = {}

        def main():
            ds = self.dataset("list")
            starts, a = {}, 0
            for c in self.index["chunks"]:
                starts[c["filename"]] = a
                a += c["chunk_size"]
            ids = box["ids"] = {}
            box["order"] = []
            for f, (lo, hi) in zip(ds.subsampled_files, ds.region_of_interest):
                for i in range(starts[f] + lo, starts[f] + hi):
                    ids[i] = ids.get(i, 0) + 1
                    box["order"].append(i)
            box["len"] = len(ds)
        p = self.ctx.spawn("list", main, host="list")
        self.ctx.join([p])
        if "exc" in p.box:
            raise core.HarnessError(p.box["tb"])
        self.order = box["order"]      # the sample at each index
        return box["ids"]

    def loader(self, ds):
        from litdata.streaming.dataloader import StreamingDataLoader
        w = self.w
        kw = {}
        if w["workers"]:
            if w.get("prefetch"):
                kw["prefetch_factor"] = w["prefetch"]
            kw["persistent_workers"] = bool(w.get("persistent"))
        return StreamingDataLoader(ds, batch_size=w["batch"], num_workers=w["workers"], collate_fn=collate, **kw)

    def rank_env(self, rank):
        w = self.w
        return {"WORLD_SIZE": w["ranks"], "GLOBAL_RANK": rank, "NNODES": w["nodes"], "RANK": rank,
                "LOCAL_RANK": rank % max(1, w["ranks"] // w["nodes"])}

    def host(self, rank):
        return "node%d" % (rank // max(1, self.w["ranks"] // self.w["nodes"]))

    def rank_main(self, rank, epochs):
        s = core.SIM
        ds = self.dataset(self.host(rank))
        dl = self.loader(ds)
        for k in self.w.get("leave") or []:      # passes that are left early
            if k is not None:
                for j, batch in enumerate(dl):
                    if j + 1 >= k:
                        break
        for e in range(epochs):
            self.peek(ds, rank, e)
            rec = self.out.setdefault((rank, e), [])
            raw = self.raw.setdefault((rank, e), [])
            if self.w.get("lens", True):
                self.lens[(rank, e)] = len(dl)
            t0 = s.now
            for batch in dl:
                self.maxgap[rank] = max(self.maxgap.get(rank, 0.0), s.now - t0)
                rec.append([check_value(v, self.w["kind"], self.w["base"], self.salt, self.w["n"],
                                        f"rank {rank} epoch {e}") for v in batch])
                raw.append(batch)
                think = self.w.get("think", 0)
                if think:
                    s.sleep(think)
                t0 = s.now
            self.maxgap[rank] = max(self.maxgap.get(rank, 0.0), s.now - t0)
            self.finished[rank] = e + 1
        self.peek(ds, rank, epochs)

    def peek(self, ds, rank, e):
        """Samples read by their index before, between and after the epochs."""
        s = core.SIM
        for when, i in self.w.get("peeks") or []:
            if when == e:
                t0 = s.now
                v = check_value(ds[i], self.w["kind"], self.w["base"], self.salt, self.w["n"], f"rank {rank} ds[{i}] before epoch {e}")
                self.maxgap[rank] = max(self.maxgap.get(rank, 0.0), s.now - t0)
                if v != i:
                    raise Violation("wrong-data", f"rank {rank}: ds[{i}] gave sample {v} before epoch {e}")

    def run(self, epochs=None, join=True):
        w = self.w
        epochs = epochs or w["epochs"]
        procs = []
        for r in range(w["ranks"]):
            procs.append(self.ctx.spawn(f"rank{r}", self.rank_main, r, epochs, env=self.rank_env(r), host=self.host(r)))
        self.procs = procs
        if join:
            self.ctx.join(procs)
            self.collect()
        return self

    def collect(self):
        for r, p in enumerate(self.procs):
            if "exc" in p.box:
                e = p.box["exc"]
                if isinstance(e, Violation):
                    raise e
                self.errors[r] = (e, p.box.get("tb", ""))

    def raise_errors(self):
        """Fault free runs: any error of a rank is a violation (or ours)."""
        for r, (e, tb) in self.errors.items():
            from .engine import classify_exc
            h, cls = classify_exc(e)
            if h:
                raise core.HarnessError(tb)
            raise Violation("error:" + exc_site(e), f"rank {r}: {tb[-1800:]}")

    def epoch_items(self, e):
        """All indices delivered in epoch e, per rank."""
        return {r: [i for b in self.out.get((r, e), []) for i in b] for r in range(self.w["ranks"])}


def exc_site(e):
    """Type plus litdata function: a stable class for a failure. Exceptions of loader workers arrive as text."""
    import re
    import traceback
    name = type(e).__name__
    site = ""
    for f in traceback.extract_tb(e.__traceback__):
        if "/litdata/" in f.filename:
            site = f.name
    m = re.findall(r'/litdata/\S+", line \d+, in (\w+)', str(e))
    if m:
        site = m[-1]
    return f"{name}@{site}"


def effective_drop_last(w):
    if w["ranks"] > 1:
        return w["drop_last"] is not False
    return bool(w["drop_last"])


def cover_counts(items_by_rank, want, w, where=""):
    """cover_check for a dataset in which samples are left out or repeated (subsample); want: {index: how often}."""
    import collections
    got = collections.Counter(i for x in items_by_rank.values() for i in x)
    more = {i: c for i, c in got.items() if c > want.get(i, 0)}
    if more:
        raise Violation("duplicate", f"{where}: samples delivered more often than the dataset has them: {dict(list(more.items())[:10])}, "
                                     f"of {want}")
    n, have = sum(want.values()), sum(got.values())
    if not effective_drop_last(w):
        if have < n:
            raise Violation("lost", f"{where}: {have} of {n} samples were delivered, without {sorted((collections.Counter(want) - got).elements())[:10]}")
        return
    counts = {r: len(x) for r, x in items_by_rank.items()}
    if len(set(counts.values())) > 1:
        raise Violation("uneven", f"{where}: ranks received different numbers of samples {counts}")
    if n - have >= w["ranks"] * max(1, w["workers"]) * w["batch"]:
        raise Violation("lost", f"{where}: {n - have} of {n} samples left out")


def cover_check(items_by_rank, n, w, where=""):
    """Exactly-once (drop_last off) or at-most-once with the documented bound (drop_last on)."""
    seen = {}
    for r, items in items_by_rank.items():
        for i in items:
            if i in seen:
                raise Violation("duplicate", f"{where}: sample {i} delivered to rank {seen[i]} and rank {r}")
            seen[i] = r
    W = max(1, w["workers"])
    if not effective_drop_last(w):
        miss = sorted(set(range(n)) - set(seen))
        if miss:
            raise Violation("lost", f"{where}: samples {miss[:10]} of {n} were never delivered")
    else:
        counts = {r: len(x) for r, x in items_by_rank.items()}
        if len(set(counts.values())) > 1:
            raise Violation("uneven", f"{where}: ranks received different numbers of samples {counts}")
        left = n - len(seen)
        bound = w["ranks"] * W * w["batch"]
        if left >= bound:
            raise Violation("lost", f"{where}: {left} of {n} samples left out, a global round has {bound}")
    return seen


# ------------------------------------------------------------------------------------------------ faults while streaming
def gen_read_faults(rng, w, k=None, effects=("err", "delay")):
    """Transient storage faults for a streaming workload; every fault fires `count` times and then storage is healthy."""
    out = []
    for _ in range(k if k is not None else rng.choice([1, 1, 2, 3])):
        what = rng.choice(effects)
        nth = rng.choice([1, 1, 2, 3, 4, 6, 9, 14])
        count = rng.choice([1, 1, 1, 2, 5])
        if what == "delay":
            d = rng.choice([0.5, 3.0, 12.0])
            if w["remote"] == "dir":
                out.append({"op": rng.choice(["open", "read"]), "cls": "remote", "nth": nth, "count": count, "effect": "delay", "delay": d})
            else:
                out.append({"op": rng.choice(["s3.get", "s3.chunk"]), "nth": nth, "count": count, "effect": "delay", "delay": d})
        elif what == "cache":
            op, eff = rng.choice([("write", "ENOSPC"), ("write", "short_ENOSPC"), ("rename", "EIO"), ("create", "ENOSPC"),
                                  ("read", "EIO"), ("open", "EIO")])
            out.append({"op": op, "cls": "cache", "nth": nth, "count": count, "effect": eff})
        elif w["remote"] == "dir":
            op = rng.choice(["open", "read"])
            out.append({"op": op, "cls": "remote", "nth": nth, "count": count,
                        "effect": rng.choice(["EIO", "ETIMEDOUT", "ECONNRESET"])})
        else:
            out.append({"op": "s3.get", "nth": nth, "count": count,
                        "effect": rng.choice(["cloud_500", "cloud_503", "cloud_conn", "cloud_partial"]), "frac": rng.choice([0.1, 0.5, 0.9])})
    return out


def storage_epoch(st):
    """A string naming where an error of a rank comes from (used by oracles that allow errors)."""
    return {r: exc_site(e) for r, (e, tb) in st.errors.items()}


def reraise_harness(st):
    from .engine import classify_exc
    for r, (e, tb) in st.errors.items():
        if classify_exc(e)[0]:
            raise core.HarnessError(tb)


def reference_epochs(ctx, w, epochs, tag="ref", salt=0, src=None):
    """The batches of each rank and epoch of an undisturbed run: default schedule, own cold cache that is big enough."""
    rw = dict(w, cache="big", lat=0, think=0)
    st = Stream(ctx, rw, tag, salt)
    if src is not None:
        st.src = src
    with_default = ctx.sim.mode
    st.index = read_index(st.src)
    st.run(epochs)
    st.raise_errors()
    ctx.sim.mode = with_default
    return st


class Borrow:
    """Watches litdata's per chunk reader counts: a reader that gives back a count its own prefetch thread takes only
    later (known finding KF-borrowed-count) can make another reader's chunk disappear."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.val = {}       # path -> last value
        self.bal = {}       # (proc, path) -> increments - decrements
        self.owed = set()   # (proc, path) gone negative
        self.borrowed = set()
        self.taken = []         # (chunk, remover, users): chunks removed while another live process had asked for them
        ctx.fs.observers.append(self.see)

    def see(self, kind, path):
        if kind not in ("write", "remove"):
            return
        t = self.ctx.sim.current()
        if t is None:
            return
        if not path.endswith(".cnt"):
            k = path + ".cnt"
            if kind == "remove" and self.bal and not any(p == k for _, p in self.owed):
                live = {p.pid for p in self.ctx.sim.procs if p.alive}
                users = [q for (q, p), n in self.bal.items() if p == k and n > 0 and q != t.proc.pid and q in live]
                if users:
                    self.taken.append((path, t.proc.pid, users))
            return
        new = 0
        if kind == "write":
            try:
                with simfs.R["open"](path) as f:
                    new = int(f.read())
            except (OSError, ValueError):
                return
        old = self.val.get(path, 0)
        self.val[path] = new
        k = (t.proc.pid, path)
        b = self.bal.get(k, 0)
        if new > old:
            b += 1
            if k in self.owed and b <= 0:
                self.borrowed.add(path)
        else:
            b -= 1
            if b < 0:
                self.owed.add(k)
        self.bal[k] = b
