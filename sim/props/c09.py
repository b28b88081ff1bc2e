"""C09: a failing storage ends in recovery or in an error within a bounded time; never in wrong, missing or repeated data."""
from .. import core, lib
from ..core import Violation

MAX_TIME = 20000.0
MAX_WAIT = 120.0    # litdata's own limit for a chunk


def gen(rng, tier):
    w = lib.gen_stream(rng, kind=rng.choice(["dict", "bytes", "var"]), base=rng.choice([40, 200]), remote=rng.choice(["dir", "dir", "s3", "s3"]),
                       lat=rng.choice([0, 0, 0.02, 0.3]), epochs=rng.choice([1, 1, 2]))
    if w["pre"] == 1:      # KF-pre1-stall
        w["pre"] = 2
    w["mode"] = rng.choice(["transient", "transient", "permanent"])
    w["again"] = rng.random() < 0.6
    faults = lib.gen_read_faults(rng, w, effects=("err", "err", "delay", "cache"))
    if w["mode"] == "permanent":
        f = rng.choice(faults)
        f["count"] = 1_000_000
        if f["effect"] == "delay":
            w["mode"] = "transient"
            f["count"] = 3
    return {"w": w, "sched": lib.gen_sched(rng), "faults": faults, "io_chunk": rng.choice([256, 4096])}


class Timed(lib.Stream):
    """Records when each rank last got something and when its error reached it."""

    def rank_main(self, rank, epochs):
        t0 = core.SIM.now
        try:
            super().rank_main(rank, epochs)
        except BaseException:
            self.silent[rank] = core.SIM.now - self.last.get(rank, t0)
            raise

    def loader(self, ds):
        dl = super().loader(ds)
        st, rank = self, int(core.SIM.current().proc.env.get("GLOBAL_RANK", 0))

        class Watched:
            def __len__(self):
                return len(dl)

            def __iter__(self):
                st.last[rank] = core.SIM.now
                for b in dl:
                    st.last[rank] = core.SIM.now
                    yield b
                    st.last[rank] = core.SIM.now
        return Watched()


def compare(st, ref, w, where, must_finish):
    for r in range(w["ranks"]):
        failed = r in st.errors
        for e in range(w["epochs"]):
            got, want = st.out.get((r, e)), ref.out[(r, e)]
            if got is None:
                continue
            done = st.finished.get(r, 0) > e
            if done and got != want:
                raise Violation("silent-loss", f"{where}: rank {r} epoch {e} ended normally with {got}, the data is {want}")
            if got != want[:len(got)]:
                raise Violation("silent-skip", f"{where}: rank {r} epoch {e} delivered {got} before its error, the data is {want}")
        if not failed and st.finished.get(r) != w["epochs"]:
            raise Violation("no-error", f"{where}: rank {r} stopped after {st.finished.get(r, 0)} of {w['epochs']} epochs without an error")
    if must_finish:
        st.raise_errors()


def run(ctx):
    w = ctx.w
    st = Timed(ctx, w).publish()
    st.silent, st.last = {}, {}
    ref = lib.reference_epochs(ctx, w, w["epochs"])
    st.set_latency()
    ctx.fs.classes.append((ctx.path("cache", "a") + "/", "cache"))
    ctx.arm()
    st.run()
    lib.reraise_harness(st)
    compare(st, ref, w, "with faults", not ctx.sim.faults_fired)
    delays = sum(f.get("delay", 0) * f.get("count", 1) for f in ctx.scn["faults"])
    chunks = len(st.index["chunks"])
    bound = MAX_WAIT + 60 + delays + (chunks + 4) * (2 * w["lat"] + 16)
    for r, t in list(st.silent.items()) + list(st.maxgap.items()):
        if t > bound:
            raise Violation("late", f"rank {r} waited {t:.0f} s before it got its error or the next batch, bound {bound:.0f} s")
    ctx.rec["errors_reported"] = len(st.errors)
    ctx.rec["recovered_ranks"] = w["ranks"] - len(st.errors)
    if w["again"]:
        # storage is healthy again: what the failures left in the cache must not spoil a new run
        ctx.disarm()
        st2 = Timed(ctx, w)
        st2.index = st.index
        st2.silent, st2.last = {}, {}
        st2.run()
        compare(st2, ref, w, "after storage recovered", True)
        ctx.rec["second_runs"] = 1
    ctx.rec["samples"] = sum(len(b) for x in st.out.values() for b in x)
