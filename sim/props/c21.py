"""C21: token blocks stay valid and complete however chunks come and go."""
import os

from .. import core, lib, plib
from ..core import Violation

MAX_TIME = 3000.0
DTYPES = ["int32", "int64", "int16", "uint8"]


def gen(rng, tier):
    w = lib.gen_stream(rng, kind="int", base=0, think=rng.choice([0, 0, 0.05, 1.0, 12.0]), drop_last=rng.choice([None, False, True]))
    w.update(
        items=[rng.choice([0, 1, 3, 7, 10, 25, 40]) for _ in range(rng.choice([2, 4, 9, 16]))],
        block=rng.choice([1, 2, 4, 5, 8]), dtype=rng.choice(DTYPES), numpy=rng.random() < 0.25,
        how=rng.choice(["loader", "loader", "loader", "iter", "index"]), collate=rng.choice(["list", "list", "stack", "nest"]),
        hold=rng.choice(["all", "all", "last", "none"]))
    w["chunk_tokens"] = w["block"] * rng.choice([1, 2, 3, 5]) + rng.choice([0, 0, 1, w["block"] - 1])
    w["items"][0] = max(w["items"][0], w["block"])
    if w["dtype"] == "uint8" or w["dtype"] == "int16":
        w["numpy"] = w["numpy"] and w["dtype"] == "int16"
    if w["how"] != "loader":
        w["workers"], w["ranks"], w["nodes"] = 0, 1, 1
        w["batch"] = 1
    if w["how"] == "index":
        # random access relies on forced downloads when chunks are evicted (30 s each, not counted): see DESIGN.md
        w["cache"] = "big"
    if w["numpy"] and w["collate"] == "stack":
        w["collate"] = "list"
    if w["remote"] == "gs":
        w["remote"] = "s3"
    lib.legal(w)
    if w["nodes"] > 1 and w["shuffle"]:
        w["shuffle"] = False
    if w["think"] * w["epochs"] * (sum(w["items"]) // w["block"] + w["n"]) > 1000:
        w["think"] = 0.05
    faults = lib.gen_read_faults(rng, w, effects=("delay",)) if w["remote"] != "none" and rng.random() < 0.25 else []
    return {"w": w, "sched": lib.gen_sched(rng), "faults": faults}


def token(p, dtype):
    m = {"uint8": 251, "int16": 30011}.get(dtype, 2 ** 31 - 1)
    return (p * 2654435761 + 12345) % m


def stack(items):
    import torch
    return torch.stack(items)


def nest(items):
    return {"x": list(items), "n": len(items)}


def unpack(batch, how):
    if how == "stack":
        return list(batch)
    if how == "nest":
        if batch["n"] != len(batch["x"]):
            raise Violation("wrong-data", "a batch isn't what collate made")
        return batch["x"]
    return batch


class Tokens(lib.Stream):
    def publish(self):
        w, ctx = self.w, self.ctx
        import numpy as np
        import torch
        from litdata.streaming.cache import Cache
        from litdata.streaming.item_loader import TokensLoader
        os.makedirs(self.src, exist_ok=True)
        c = Cache(self.src, chunk_size=w["chunk_tokens"], compression=w["compression"], item_loader=TokensLoader(w["block"]))
        pos = 0
        k = 0
        self.items = []
        for m in w["items"]:
            if not m:
                continue
            a = np.array([token(p, w["dtype"]) for p in range(pos, pos + m)], dtype=w["dtype"])
            c._add_item(k, a if w["numpy"] else torch.from_numpy(a))
            self.items.append(m)
            pos += m
            k += 1
        c.done()
        c.merge()
        self.index = lib.read_index(self.src)
        ctx.fs.classes.append((self.src + "/", "remote"))
        # the blocks of every chunk: their first token and the index of the block
        self.blocks, at = [], 0
        if sum(ch["dim"] for ch in self.index["chunks"]) != pos:
            raise Violation("lost", f"the index has {[ch['dim'] for ch in self.index['chunks']]} tokens, {pos} were written")
        for ch in self.index["chunks"]:
            self.blocks += [at + b * w["block"] for b in range(ch["dim"] // w["block"])]
            at += ch["dim"]
        self.at = {}
        for b, first in enumerate(self.blocks):
            self.at.setdefault(self.want(b), []).append(b)
        if w["remote"] in ("s3", "gs"):
            lib.to_cloud(ctx, self.src, self.url)
            from .. import stubs
            stubs.cloud().part = w.get("part", 300)
        return self

    def want(self, b):
        p = self.blocks[b]
        return tuple(token(q, self.w["dtype"]) for q in range(p, p + self.w["block"]))

    def dataset(self, host="node0"):
        from litdata.streaming.dataset import StreamingDataset
        from litdata.streaming.item_loader import TokensLoader
        w = self.w
        return StreamingDataset(self.input_dir(host), item_loader=TokensLoader(w["block"]), shuffle=w["shuffle"], drop_last=w["drop_last"],
                                seed=w["seed"], max_cache_size=self.cache_size(), max_pre_download=w["pre"])

    def loader(self, ds):
        from litdata.streaming.dataloader import StreamingDataLoader
        w = self.w
        kw = {}
        if w["workers"]:
            if w.get("prefetch"):
                kw["prefetch_factor"] = w["prefetch"]
            kw["persistent_workers"] = bool(w.get("persistent"))
        fn = {"stack": stack, "nest": nest}.get(w["collate"], lib.collate)
        return StreamingDataLoader(ds, batch_size=w["batch"], num_workers=w["workers"], collate_fn=fn, **kw)

    def check(self, x, where):
        """The block must be one of those written, with their type; returns its content."""
        w = self.w
        dt = str(x.dtype).replace("torch.", "")
        got = tuple(int(v) for v in x)
        if dt != w["dtype"] or got not in self.at:
            raise Violation("wrong-data", f"{where}: the block {got[:12]} ({dt}) was never written")
        return got

    def see(self, rank, e, x, where):
        """Also looks at the blocks delivered earlier."""
        w = self.w
        got = self.check(x, where)
        for k, (y, g) in enumerate(self.held[rank]):
            if tuple(int(v) for v in y) != g:
                raise Violation("changed", f"{where}: the block {g[:8]} which was delivered before ({k} of {len(self.held[rank])}) "
                                           f"has become {[int(v) for v in y][:8]}")
        if w["hold"] == "all" or (w["hold"] == "last" and not self.held[rank]):
            self.held[rank].append((x, got))
        elif w["hold"] == "last":
            self.held[rank][0] = (x, got)
        self.got.setdefault((rank, e), []).append(got)

    def rank_main(self, rank, epochs):
        w = self.w
        self.held = self.__dict__.setdefault("held", {})
        self.got = self.__dict__.setdefault("got", {})
        self.held[rank] = []
        ds = self.dataset(self.host(rank))
        if w["how"] == "loader":
            dl = self.loader(ds)
            for e in range(epochs):
                self.got.setdefault((rank, e), [])
                for j, batch in enumerate(dl):
                    for x in unpack(batch, w["collate"]):
                        self.see(rank, e, x, f"rank {rank} epoch {e} batch {j}")
                    self.pause()
        elif w["how"] == "iter":
            for e in range(epochs):
                for j, x in enumerate(ds):
                    self.see(rank, e, x, f"epoch {e} block {j}")
                    self.pause()
        else:
            import random
            order = list(range(len(self.blocks)))
            r = random.Random(w["seed"])
            for e in range(epochs):
                if w["shuffle"]:
                    r.shuffle(order)
                for b in order:
                    x = ds[b]
                    self.see(rank, e, x, f"index {b}")
                    if self.got[(rank, e)][-1] != self.want(b):
                        raise Violation("wrong-index", f"index {b} gives another block")
                    self.pause()
        if len(ds) < 0:
            raise AssertionError
        del ds
        for y, g in self.held[rank]:
            if tuple(int(v) for v in y) != g:
                raise Violation("changed", f"the block {g[:8]} has become {[int(v) for v in y][:8]} after the dataset was given up")

    def pause(self):
        if self.w["think"]:
            core.SIM.sleep(self.w["think"])


def run(ctx):
    w = ctx.w
    st = Tokens(ctx, w)
    st.publish()
    st.set_latency()
    core.SIM.poll_stretch = 0.2
    ctx.arm()
    st.run()
    ctx.disarm()
    st.raise_errors()
    import collections
    want = collections.Counter(st.want(b) for b in range(len(st.blocks)))
    W = max(1, w["workers"])
    for e in range(w["epochs"]):
        seen = collections.Counter()
        counts = []
        for r in range(w["ranks"]):
            g = st.got.get((r, e), [])
            seen.update(g)
            counts.append(len(g))
        more = seen - want
        if more:
            raise Violation("duplicate", f"epoch {e}: {sum(more.values())} blocks too many, e.g. {next(iter(more))[:8]}")
        miss = sum((want - seen).values())
        if not lib.effective_drop_last(w) or w["how"] == "index":
            if miss:
                raise Violation("lost", f"epoch {e}: {miss} of {len(st.blocks)} blocks were never delivered, e.g. {next(iter(want - seen))[:8]}")
        else:
            if len(set(counts)) > 1:
                raise Violation("uneven", f"epoch {e}: the ranks got {counts} blocks")
            if miss >= w["ranks"] * W * w["batch"]:
                raise Violation("lost", f"epoch {e}: {miss} of {len(st.blocks)} blocks left out")
    ctx.rec["blocks"] = sum(len(g) for g in st.got.values())
    ctx.rec["held"] = sum(len(h) for h in st.held.values())


def on_hang(ctx, outcome):
    return "hang:" + outcome
