"""C08: the chunks in a cache directory stay within the configured size plus the prefetch windows of its readers."""
import os

from .. import fs as simfs
from .. import lib
from ..core import Violation

SIDE = (".cnt", ".lock", "index.json", ".tmb")


def gen(rng, tier):
    w = lib.gen_stream(rng, kind=rng.choice(["dict", "var"]), base=rng.choice([40, 200]), n=rng.choice([17, 24, 31, 40, 60]),
                       remote=rng.choice(["none", "dir", "dir", "dir", "s3", "s3"]), cache=rng.choice(["tiny", "tiny", "mid", "half"]),
                       epochs=rng.choice([1, 2, 3]), lat=rng.choice([0, 0, 0.02, 0.3, 3.0]))
    w["think"] = rng.choice([0, 0, 0.05, 0.7])
    if w["pre"] == 1:      # KF-pre1-stall
        w["pre"] = rng.choice([2, 3])
    w["leave"] = None      # KF-abandoned-counts
    return {"w": w, "sched": lib.gen_sched(rng), "faults": []}


class Usage:
    """Bytes of chunk data below the cache directories, after every operation that changes them."""

    def __init__(self, ctx, st):
        self.st = st
        self.peak = {}
        # the payload of a chunk is what its index counts; the offsets in front of it are not part of the configured size
        self.map = {c["filename"].replace(".zstd", ""): c["chunk_bytes"] for c in st.index["chunks"]}
        self.at = {}
        ctx.fs.observers.append(self.see)

    def see(self, kind, path):
        if kind not in ("write", "rename", "create", "remove", "copy", "truncate"):
            return
        for d in self.st.cache_dirs:
            if path.startswith(d + "/"):
                n = self.size(d)
                if n > self.peak.get(d, 0):
                    self.peak[d] = n
                    self.at[d] = self.files(d)

    def files(self, d):
        out = {}
        with simfs.R["scandir"](d) as it:
            for e in it:
                if e.name.endswith(SIDE) or e.name.startswith("index.json"):
                    continue
                try:
                    out[e.name] = self.map.get(e.name) or e.stat().st_size
                except FileNotFoundError:
                    pass
        return out

    def size(self, d):
        return sum(self.files(d).values())


def snapshot(path):
    out = {}
    for r, _, fs in os.walk(path):
        for f in fs:
            p = os.path.join(r, f)
            with simfs.R["open"](p, "rb") as fh:
                out[os.path.relpath(p, path)] = fh.read()
    return out


def run(ctx):
    w = ctx.w
    st = lib.Stream(ctx, w).publish()
    st.set_latency()
    before = snapshot(st.src)
    use = Usage(ctx, st)
    ledger = lib.Borrow(ctx)
    ctx.arm()
    st.run()
    st.raise_errors()
    after = snapshot(st.src)
    for f, b in before.items():
        if f not in after:
            raise Violation("source-deleted", f"{f} of the {'local dataset' if w['remote'] == 'none' else 'remote source'} is gone after reading it")
        if after[f] != b:
            raise Violation("source-changed", f"{f} was changed by reading it")
    if ledger.taken:
        f, who, users = ledger.taken[0]
        raise Violation("in-use-removed", f"process {who} removed {os.path.basename(f)} while processes {users} had asked for it "
                                          "and not finished with it")
    if w["remote"] != "none":
        limit = st.cache_size()
        readers = max(1, w["workers"]) * max(1, w["ranks"] // w["nodes"])
        big = max(max(st.chunk_bytes()), max(st.file_sizes()))
        window = w["pre"] + 2 + bool(w["compression"])
        for d, p in use.peak.items():
            over = (p - limit) / big / readers
            ctx.rec["peak_over_limit"] = round(max(ctx.rec.get("peak_over_limit", -99), over - w["pre"]), 2)
            if over > window:
                raise Violation("cache-size", f"{p} bytes of chunks in the cache, limit {limit}, {readers} reader(s) prefetching {w['pre']} "
                                              f"chunk(s) of at most {big} bytes: {use.at[d]}")
    ctx.rec["samples"] = sum(len(b) for x in st.out.values() for b in x)
