"""C06: a loader over a combined dataset resumes exactly where its saved state stopped."""
import pickle
import shutil

from .. import core, lib, plib
from ..core import Violation
from . import combo

MAX_TIME = 4000.0
MAX_STEPS = 800_000


def gen(rng, tier):
    w = combo.gen(rng)
    w["epochs"] = rng.choice([1, 1, 2])
    w["stop_epoch"] = rng.randrange(w["epochs"])
    w["stops"] = [rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 12]) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.3:
        w["stops"][-1] = -rng.choice([1, 2, 3])     # so many batches before the end
    w["cold"] = [rng.random() < 0.4 for _ in w["stops"]]
    w["end"] = [rng.choice(["break", "break", "exit", "kill", "over"]) for _ in w["stops"]]
    if rng.random() < 0.25:
        w["reuse"] = rng.choice([1, 2, 5])
    if rng.random() < 0.15:
        w["resave"] = True
    if rng.random() < 0.1 and w["stop_epoch"] == 0:
        w["stops"][0] = 0       # saved before the first batch
    if rng.random() < 0.3:
        w["same_mem"] = True      # states saved during the epoch must not change later
    combo.legal(w)
    return {"w": w, "sched": lib.gen_sched(rng), "faults": []}


class Phase(combo.Combo):
    def phase_main(self, rank, state, skip, take, end):
        dl = self.loader(self.dataset(self.host(rank)))
        if state is not None:
            state = pickle.loads(state)
            if self.w.get("reuse") is not None:      # another loader is resumed from the same object first
                other = self.loader(self.dataset(self.host(rank)))
                other.load_state_dict(state)
                for j, b in enumerate(other):
                    if j + 1 >= self.w["reuse"]:
                        break
            dl.load_state_dict(state)
            if self.w.get("resave"):       # interrupted again before the first batch
                state = pickle.loads(pickle.dumps(dl.state_dict()))
                dl = self.loader(self.dataset(self.host(rank)))
                dl.load_state_dict(state)
        self.saved.pop(rank, None)
        for _ in range(skip):
            for b in dl:
                pass
        got = self.got[rank] = []
        if take is None:
            for b in dl:
                got.append(self.ids(b, f"rank {rank}"))
                if len(got) > 500:
                    raise Violation("endless", f"rank {rank}: more than 500 batches")
            return
        it = iter(dl)
        early = []
        for _ in range(take):
            try:
                got.append(self.ids(next(it), f"rank {rank}"))
            except StopIteration:
                raise Violation("short", f"rank {rank}: the epoch ended after {len(got)} batches of this part, at least {take} were left")
            if self.w.get("same_mem") and len(got) < take:
                early.append((dl.state_dict(), pickle.dumps(dl.state_dict())))
        self.saved[rank] = pickle.dumps(dl.state_dict())
        for obj, blob in early:
            if obj != pickle.loads(blob):
                raise Violation("state-mutated", f"rank {rank}: a state saved earlier changed after more batches were read: "
                                                 f"{pickle.loads(blob)} became {obj}")
        if end == "over":
            for _ in range(2):
                next(it, None)
        if end == "exit":
            self.keep = it
        if end == "kill":
            plib.kill_tree(core.SIM.current().proc)     # the machine is gone, not just one process of it

    def phase(self, states, skip, take, end):
        self.procs = [self.ctx.spawn(f"rank{r}", self.phase_main, r, states.get(r), skip, k, end,
                                     env=self.rank_env(r), host=self.host(r)) for r, k in take.items()]
        self.ctx.join(self.procs)
        self.collect()
        self.raise_errors()
        return dict(self.saved)


def run(ctx):
    w = ctx.w
    st = Phase(ctx, w).publish()
    st.got, st.saved = {}, {}
    e0 = w["stop_epoch"]
    ref = st.like("ref", cache="big", lat=0).run(e0 + 1)
    ref.raise_errors()
    st.set_latency()
    ranks = range(w["ranks"])
    full = {r: len(ref.out[(r, e0)]) for r in ranks}
    ctx.arm()
    done = dict.fromkeys(ranks, 0)
    states = {}
    for j, (k, cold, end) in enumerate(zip(w["stops"], w["cold"], w["end"])):
        # a state saved after the last batch starts the next epoch; only earlier states are resumed here
        take = {r: min(k, full[r] - 1 - done[r]) if k >= 0 else max(1, full[r] - 1 - done[r] + k) for r in ranks if full[r] - 1 > done[r]}
        if not take:
            break
        states.update(st.phase(states, e0 if not states else 0, take, end))
        for r, kr in take.items():
            compare(st.got[r], ref.out[(r, e0)][done[r]:done[r] + kr], r, f"after {done[r]} batches")
            done[r] += kr
        if cold:
            for d in st.caches():
                if w["remote"] != "none":
                    shutil.rmtree(d, ignore_errors=True)
    if not states:
        return
    st.phase(states, 0, {r: None for r in ranks if r in states}, None)
    for r in ranks:
        if r in states:
            compare(st.got[r], ref.out[(r, e0)][done[r]:], r, f"resumed after {done[r]} batches of epoch {e0}")
    ctx.rec["samples"] = sum(len(b) for g in st.got.values() for _, b in g)
    ctx.rec["resumes"] = len(w["stops"])


def compare(got, want, r, where):
    # the worker that reads a batch is part of the contract only through the data
    got = [b for _, b in got]
    want = [b for _, b in want]
    if got != want:
        raise Violation("resume", f"rank {r} {where}: got {got}, the uninterrupted run {want}")
