"""C03: the order of samples is a function of dataset, seed, epoch and topology only."""
from .. import lib
from ..core import Violation

MAX_TIME = 4000.0


def gen(rng, tier):
    w = lib.gen_stream(rng, kind=rng.choice(["dict", "bytes", "int"]), base=8)
    w["past"] = rng.choice(["cold", "cold", "warm", "partial", "other"])
    w["past_k"] = rng.choice([1, 2, 3, 5])
    faults = lib.gen_read_faults(rng, w) if w["remote"] != "none" and rng.random() < 0.4 else []
    scn = {"w": w, "sched": lib.gen_sched(rng), "faults": faults}
    if rng.random() < 0.12 and w["nodes"] == 1 and w["n"] >= 13:
        w["sub"] = rng.choice([0.4, 0.7, 1.6, 2.0])
    return scn


def run(ctx):
    w = ctx.w
    st = lib.Stream(ctx, w).publish()
    ref = lib.reference_epochs(ctx, w, w["epochs"])
    # what earlier processes left behind in the cache
    if w["past"] != "cold":
        pw = dict(w, ranks=1, nodes=1)
        if w["past"] == "other":
            pw.update(seed=w["seed"] + 1, shuffle=not w["shuffle"], batch=1)
        prev = lib.Stream(ctx, pw, st.tag)
        prev.index = st.index

        def past():
            ds = prev.dataset("node0")
            dl = prev.loader(ds)
            for k, _ in enumerate(dl):
                if w["past"] == "partial" and k >= w["past_k"]:
                    break
        p = ctx.spawn("past", past, env=prev.rank_env(0), host="node0")
        ctx.join([p])
    st.set_latency()
    ctx.arm()
    st.run()
    lib.reraise_harness(st)
    faulty = any(f["effect"] != "delay" for f in ctx.scn["faults"])
    for key, batches in st.out.items():
        want = ref.out.get(key, [])
        complete = key[0] not in st.errors
        if complete and batches != want or not complete and batches != want[:len(batches)]:
            raise Violation("order", f"rank {key[0]} epoch {key[1]}: got {batches}, the undisturbed run {want}")
    if st.errors and not faulty:
        st.raise_errors()
    for r in range(w["ranks"]):
        eps = [[i for b in ref.out[(r, e)] for i in b] for e in range(w["epochs"])]
        if w["shuffle"]:
            # different epochs use different orders; rank 0 of a single node run sees a new permutation each time
            if len(eps) > 1 and w["ranks"] == 1 and w["n"] >= 13 and w["chunk_items"] > 1 and not lib.effective_drop_last(w) \
                    and not w.get("sub"):
                for a in range(len(eps)):
                    for b in range(a):
                        if eps[a] == eps[b]:
                            raise Violation("same-order", f"epochs {b} and {a} of a shuffled dataset have the same order {eps[a]}")
        elif w["ranks"] == 1 and w["workers"] <= 1:
            for e in eps:
                if e != list(range(len(e))) and not w.get("sub", 0) > 1:
                    raise Violation("not-storage-order", f"unshuffled single worker order {e}")
        else:
            for a in range(1, len(eps)):
                if eps[a] != eps[0]:
                    raise Violation("unstable-order", f"rank {r}: unshuffled epochs differ: {eps[0]} then {eps[a]}")
    ctx.rec["samples"] = sum(len(b) for x in st.out.values() for b in x)


def on_hang(ctx, outcome):
    # permanent waiting after an injected error is C09's subject
    if any(f["effect"] != "delay" for f in ctx.scn["faults"]):
        return None
    return "hang:" + outcome
