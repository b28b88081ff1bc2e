"""C04: a loader state saved after any number of batches resumes exactly where it stopped."""
import pickle
import shutil

from .. import core, lib, plib
from ..core import Violation

MAX_TIME = 4000.0
MAX_STEPS = 800_000


def gen(rng, tier):
    w = lib.gen_stream(rng, kind=rng.choice(["dict", "bytes", "int"]), base=8, epochs=rng.choice([1, 2, 2, 3]))
    w["stop_epoch"] = rng.randrange(w["epochs"])
    w["stops"] = [rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 12]) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.3:
        w["stops"][-1] = -rng.choice([1, 2, 3])     # so many batches before the end
    w["cold"] = [rng.random() < 0.4 for _ in w["stops"]]
    w["end"] = [rng.choice(["break", "break", "exit", "kill", "over"]) for _ in w["stops"]]
    w["same_mem"] = rng.random() < 0.3
    # epochs left early: before the save, and after the restore
    w["skip_k"] = rng.choice([None, None, 1, 2, 4])
    w["rest_k"] = rng.choice([None, None, None, 1, 2])
    if rng.random() < 0.2:
        w["reuse"] = rng.choice([1, 2, 5])
    if rng.random() < 0.15:
        w["resave"] = True
    if rng.random() < 0.1 and (w["skip_k"] is None or w["stop_epoch"] == 0):
        w["stops"][0] = 0       # saved before the first batch
    sched = lib.gen_sched(rng)
    if rng.random() < 0.12 and w["nodes"] == 1:
        w["sub"] = rng.choice([0.4, 0.7, 1.6, 2.0])
    return {"w": legal(w), "sched": sched, "faults": []}


def legal(w):
    """Outside the regions of the known findings of C04."""
    return w


class Phase(lib.Stream):
    """One process per rank: loads a state, takes some batches, saves the state."""

    def phase_main(self, rank, state, skip, take, end, rest):
        """skip: whole epochs to run first; take: batches before saving (None: run to the end of all epochs)."""
        w = self.w
        ds = self.dataset(self.host(rank))
        dl = self.loader(ds)
        if state is not None:
            state = pickle.loads(state)
            if w.get("reuse") is not None:      # another loader is resumed from the same object first
                other = self.loader(self.dataset(self.host(rank)))
                other.load_state_dict(state)
                for j, b in enumerate(other):
                    if j + 1 >= w["reuse"]:
                        break
            dl.load_state_dict(state)
            if w.get("resave"):       # interrupted again before the first batch
                state = pickle.loads(pickle.dumps(dl.state_dict()))
                dl = self.loader(self.dataset(self.host(rank)))
                dl.load_state_dict(state)
        got = self.got[rank] = []
        self.saved.pop(rank, None)
        for _ in range(skip):
            got.append(self.drain(dl, rank, w["skip_k"]))
        if take is None:
            while sum(len(x) > 0 for x in got) < rest:
                got.append(self.drain(dl, rank, w["rest_k"]))
                if len(got) > rest + 2:
                    raise Violation("empty-epochs", f"rank {rank}: {len(got)} passes gave only {[len(x) for x in got]} batches")
            return
        cur = []
        got.append(cur)
        early = []
        it = iter(dl)
        for _ in range(take):
            try:
                cur.append(self.idx(next(it), rank))
            except StopIteration:
                raise Violation("short", f"rank {rank}: the epoch ended after {len(cur)} batches of this part, at least {take} were left")
            if w.get("same_mem") and len(cur) < take:
                early.append((dl.state_dict(), pickle.dumps(dl.state_dict())))
        sd = dl.state_dict()
        self.saved[rank] = pickle.dumps(sd)
        for obj, blob in early:
            if obj != pickle.loads(blob):
                raise Violation("state-mutated", f"rank {rank}: a state saved earlier changed after more batches were read: "
                                                 f"{pickle.loads(blob)} became {obj}")
        if end == "over":      # the process goes on for a while after the save
            for _ in range(2):
                try:
                    self.idx(next(it), rank)
                except StopIteration:
                    break
        if end == "exit":
            self.keep = it     # not closed by the rank itself
        if end == "kill":
            plib.kill_tree(core.SIM.current().proc)     # the machine is gone, not just one process of it

    def idx(self, batch, rank):
        return [lib.check_value(v, self.w["kind"], self.w["base"], self.salt, self.w["n"], f"rank {rank}") for v in batch]

    def drain(self, dl, rank, k=None):
        out = []
        for b in dl:
            out.append(self.idx(b, rank))
            if k is not None and len(out) >= k:
                break
        return out

    def phase(self, states, skip, take, end, rest):
        self.procs = [self.ctx.spawn(f"rank{r}", self.phase_main, r, states.get(r), skip, k, end, rest.get(r),
                                     env=self.rank_env(r), host=self.host(r)) for r, k in take.items()]
        self.ctx.join(self.procs)
        self.collect()
        self.raise_errors()
        return dict(self.saved)


def run(ctx):
    w = ctx.w
    st = Phase(ctx, w).publish()
    st.got, st.saved = {}, {}
    ref = lib.reference_epochs(ctx, w, w["epochs"])
    st.set_latency()
    e0 = w["stop_epoch"]
    ranks = range(w["ranks"])
    full = {r: len(ref.out[(r, e0)]) for r in ranks}
    if min(full.values()) == 0:
        return
    ctx.arm()
    done = dict.fromkeys(ranks, 0)
    states = {}
    first = True
    for k, cold, end in zip(w["stops"], w["cold"], w["end"]):
        take = {r: min(k, full[r] - done[r]) if k >= 0 else max(1, full[r] - done[r] + k) for r in ranks if full[r] > done[r]}
        if not take:
            break
        states.update(st.phase(states, e0 if first else 0, take, end, {}))
        for r, kr in take.items():
            want = [ref.out[(r, e)][:w["skip_k"]] for e in range(e0)] if first else []
            compare(st.got[r], want + [ref.out[(r, e0)][done[r]:done[r] + kr]], r, f"after {done[r]} batches")
            done[r] += kr
        first = False
        if cold and w["remote"] != "none":
            for d in st.cache_dirs:
                shutil.rmtree(d, ignore_errors=True)
    rest = {r: [x[:w["rest_k"]] for x in [ref.out[(r, e0)][done[r]:]] + [ref.out[(r, e)] for e in range(e0 + 1, w["epochs"])] if x]
            for r in ranks}
    st.phase(states, 0, dict.fromkeys(ranks), None, {r: len(rest[r]) for r in ranks})
    for r in range(w["ranks"]):
        compare([x for x in st.got[r] if x], rest[r], r, f"resumed after {done[r]} batches of epoch {e0}")
    ctx.rec["samples"] = sum(len(b) for g in st.got.values() for x in g for b in x)
    ctx.rec["resumes"] = len(w["stops"])


def compare(got, want, r, where):
    if got != want:
        cls = "resume"
        flat = [i for e in got for b in e for i in b]
        if len(set(map(len, got))) and sorted(flat) == sorted(i for e in want for b in e for i in b):
            cls = "resume-order"
        raise Violation(cls, f"rank {r} {where}: got {got}, the uninterrupted run {want}")
