"""Shared by C05 and C06: streaming over a combined dataset."""
from .. import lib
from ..core import Violation


def gen(rng, **over):
    w = lib.gen_stream(rng, kind=rng.choice(["dict", "bytes"]), base=8, epochs=rng.choice([1, 1, 2]), workers=rng.choice([0, 1, 2, 2, 3]),
                       ranks=rng.choice([1, 1, 1, 2]), **over)
    m = rng.choice([2, 2, 3])
    w["members"] = [rng.choice([3, 6, 9, 13, 20, 30]) for _ in range(m)]
    w["mode"] = rng.choice(["all", "weighted"])
    w["method"] = rng.choice(["stratified", "stratified", "per_stream"])
    w["mix_seed"] = rng.randrange(50)
    if w["mode"] == "weighted":
        ws = [rng.choice([1, 1, 2, 5, 0.3]) for _ in range(m)]
        if rng.random() < 0.3:
            ws[rng.randrange(m)] = 0
        w["weights"] = ws
    else:
        w["weights"] = None
    legal(w)
    w["n"] = sum(w["members"])
    if w["n"] > 25 * w["chunk_items"]:     # KF-pre1-stall makes these runs last hours of simulated time
        w["pre"] = max(w["pre"], 2)
    if w["nodes"] > 1 and w["shuffle"]:
        w["nodes"] = 1
    lib.legal(w)
    return w


def legal(w):
    """Outside the regions of the known findings KF-perstream-all and KF-persistent-combined."""
    if w["mode"] == "all" and w["method"] == "per_stream":
        unit = w["batch"] * max(1, w["workers"]) * w["ranks"]
        w["members"] = [unit * max(1, round(n / unit)) for n in w["members"]]
    if w["epochs"] > 1 and (w["mode"] == "weighted" or w["method"] == "per_stream"):
        w["persistent"] = False


def tag_collate(items):
    import torch
    info = torch.utils.data.get_worker_info()
    return {"w": info.id if info else 0, "items": list(items)}


class Combo(lib.Stream):
    """A combined dataset of several members, one remote folder and one cache folder each."""

    def publish(self):
        w = self.w
        self.subs = []
        for m, n in enumerate(w["members"]):
            s = lib.Stream(self.ctx, dict(w, n=n), f"{self.tag}{m}", m + 1, name=str(m))
            s.publish()
            self.subs.append(s)
        return self

    def like(self, tag, **over):
        """Another run over the same published members with its own caches."""
        o = type(self)(self.ctx, dict(self.w, **over), tag)
        o.subs = []
        for m, s in enumerate(self.subs):
            x = lib.Stream(self.ctx, dict(s.w, **over), f"{tag}{m}", s.salt, name=str(m))
            x.index = s.index
            o.subs.append(x)
        return o

    def caches(self):
        return [d for s in self.subs for d in s.cache_dirs]

    def dataset(self, host="node0"):
        from litdata.streaming.combined import CombinedStreamingDataset
        w = self.w
        return CombinedStreamingDataset([s.dataset(host) for s in self.subs], seed=w["mix_seed"], weights=w["weights"],
                                        iterate_over_all=w["mode"] == "all", batching_method=w["method"])

    def loader(self, ds):
        from litdata.streaming.dataloader import StreamingDataLoader
        w = self.w
        kw = {}
        if w["workers"]:
            if w.get("prefetch"):
                kw["prefetch_factor"] = w["prefetch"]
            kw["persistent_workers"] = bool(w.get("persistent"))
        return StreamingDataLoader(ds, batch_size=w["batch"], num_workers=w["workers"], collate_fn=tag_collate, **kw)

    def ids(self, batch, where):
        """(worker, [(member, index)])"""
        w = self.w
        out = []
        for v in batch["items"]:
            try:
                m = int(lib.salt_of(v, w["kind"])) - 1
                n = w["members"][m]
            except Exception as e:  # noqa: BLE001
                raise Violation("wrong-data", f"{where}: unreadable sample {v!r:.200} ({e!r})")
            out.append((m, lib.check_value(v, w["kind"], w["base"], m + 1, n, where)))
        return (batch["w"], out)

    def rank_main(self, rank, epochs):
        ds = self.dataset(self.host(rank))
        dl = self.loader(ds)
        for e in range(epochs):
            rec = self.out.setdefault((rank, e), [])
            for b in dl:
                rec.append(self.ids(b, f"rank {rank} epoch {e}"))
                if len(rec) > 500:
                    raise Violation("endless", f"rank {rank} epoch {e}: more than 500 batches of {self.w['members']} samples")
            self.finished[rank] = e + 1


def streams(batches, member=None):
    """worker -> sequence of (member, index)"""
    out = {}
    for k, items in batches:
        out.setdefault(k, []).extend(x for x in items if member is None or x[0] == member)
    return out
