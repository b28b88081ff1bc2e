"""C25: a loader yields as many batches as it announces, full ones but for the last of a worker."""
from .. import core, lib
from ..core import Violation


def gen(rng, tier):
    w = lib.gen_stream(rng, leave=None, think=rng.choice([0, 0, 0.05, 1.0]))
    # every worker's items fill whole batches; chunks are cut wherever
    w["even"] = rng.random() < 0.75
    if w["even"]:
        w["n"] = w["ranks"] * max(1, w["workers"]) * w["batch"] * rng.choice([1, 1, 2, 3])
        while w["n"] > 60 and w["batch"] > 1:
            w["n"] //= w["batch"]
            w["batch"] = 1
    if rng.random() < 0.4:
        w["leave"] = [rng.choice([1, 1, 2, 3]) for _ in range(rng.choice([1, 1, 2]))]
    w["ask"] = [rng.choice(["before", "first", "never", "ds"]) for _ in range(4)]   # when the length is asked for
    lib.legal(w)
    if w["nodes"] > 1 and w["shuffle"]:      # KF-multinode-shuffle: the length after an epoch may be that of the next one
        lib.align(w)
    per = w["n"] / (w["ranks"] * max(1, w["workers"]))
    w["even"] = per == int(per) and per % w["batch"] == 0 or (w["n"] % w["batch"] == 0 and w["ranks"] * max(1, w["workers"]) == 1)
    faults = lib.gen_read_faults(rng, w, effects=("delay",)) if w["remote"] != "none" and rng.random() < 0.3 else []
    return {"w": w, "sched": lib.gen_sched(rng), "faults": faults}


class Lens(lib.Stream):
    """Asks for the length at various moments."""

    def rank_main(self, rank, epochs):
        w = self.w
        ds = self.dataset(self.host(rank))
        dl = self.loader(ds)
        self.asked = self.__dict__.setdefault("asked", {})
        for k in w["leave"] or []:
            for j, batch in enumerate(dl):
                if j + 1 >= k:
                    break
        for e in range(epochs):
            rec = self.out.setdefault((rank, e), [])
            ask = self.asked.setdefault((rank, e), [])
            how = w["ask"][e % 4]
            if how == "before":
                ask.append(("before", len(dl)))
            if how == "ds":
                ask.append(("items", len(ds)))
            for batch in dl:
                rec.append([lib.check_value(v, w["kind"], w["base"], self.salt, w["n"], f"rank {rank} epoch {e}") for v in batch])
                if how == "first" and len(rec) == 1:
                    ask.append(("during", len(dl)))
                if w["think"]:
                    core.SIM.sleep(w["think"])
            ask.append(("after", len(dl)))
            self.finished[rank] = e + 1


def run(ctx):
    w = ctx.w
    st = Lens(ctx, w)
    st.publish()
    st.set_latency()
    ctx.arm()
    st.run()
    ctx.disarm()
    st.raise_errors()
    W = max(1, w["workers"])
    total = 0
    for (r, e), got in sorted(st.out.items()):
        where = f"rank {r} epoch {e}"
        sizes = [len(b) for b in got]
        total += len(got)
        for k, m in enumerate(sizes):
            if m > w["batch"] or m < 1:
                raise Violation("batch-size", f"{where}: batch {k} has {m} items, {w['batch']} are configured")
        short = [k for k, m in enumerate(sizes) if m < w["batch"]]
        if len(short) > W:
            raise Violation("batch-size", f"{where}: {len(short)} batches of {W} workers aren't full: {sizes}")
        for k in short:
            # the worker of a batch which isn't full has no further one: the others take at least one turn less each
            if len(sizes) - k - 1 > 0 and sum(1 for m in sizes[k + 1:]) and W == 1:
                raise Violation("batch-size", f"{where}: the batch {k} of {len(sizes)} has {sizes[k]} items of {w['batch']}")
        if not w["even"]:
            continue
        if short:
            raise Violation("batch-size", f"{where}: the items fill whole batches, but the sizes are {sizes}")
        for when, n in st.asked[(r, e)]:
            have = sum(sizes) if when == "items" else len(sizes)
            if n != have:
                raise Violation("length", f"{where}: the length announced {when} the epoch was {n}, {have} were delivered")
        want = w["n"] // w["ranks"] // w["batch"]
        if len(got) != want:
            raise Violation("length", f"{where}: {len(got)} batches, the items of this rank make {want}")
    ctx.rec["batches"] = total


def on_hang(ctx, outcome):
    return "hang:" + outcome
