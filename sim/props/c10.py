"""C10: indexing and slicing give the sample written at that index under any history of accesses."""
from .. import lib
from ..core import Violation

MAX_TIME = 8000.0


def gen_ops(rng, n, k):
    ops = []
    for _ in range(k):
        x = rng.random()
        if x < 0.45:
            ops.append(["get", rng.randrange(n)])
        elif x < 0.55:
            i = rng.randrange(n)
            ops += [["get", i], ["get", max(0, i - rng.choice([0, 1, 5]))], ["get", i]]
        elif x < 0.65:
            a, b = rng.randrange(n), rng.randrange(n + 1)
            ops.append(["slice", min(a, b), max(a, b), rng.choice([1, 1, 2, 3])])
        elif x < 0.75:
            ops.append(["iter"])
        elif x < 0.9:
            ops.append(["next", rng.choice([1, 2, 3, 6])])
        elif x < 0.95:
            ops.append(["epoch"])
        else:
            ops.append(["new"])
    return ops


def gen(rng, tier):
    w = lib.gen_stream(rng, ranks=1, nodes=1, workers=0, epochs=1, cache=rng.choice(["big", "big", "tiny", "mid", "half"]),
                       kind=rng.choice(["dict", "bytes", "var", "np", "tensor", "int"]), lat=rng.choice([0, 0, 0.02, 0.3]))
    w["procs"] = rng.choice([1, 1, 1, 2, 3])
    w["ops"] = [gen_ops(rng, w["n"], rng.choice([2, 4, 8, 16])) for _ in range(w["procs"])]
    if w["remote"] == "gs" and w["procs"] > 1:      # KF-gs-partial
        w["remote"] = "s3"
    if w["pre"] == 1 and w["cache"] != "big":       # KF-pre1-stall
        w["pre"] = 2
    sched = lib.gen_sched(rng)
    x = rng.random()
    if x < 0.2:
        w["enc"] = rng.choice(["sample", "chunk"])
    elif x < 0.35:      # a part of the dataset, or one with repeated samples
        w["sub"] = rng.choice([0.5, 0.8, 1.6, 2.0])
        m = int(w["n"] * (w["sub"] % 1)) + w["n"] * int(w["sub"])
        if m >= 2:
            w["ops"] = [gen_ops(rng, m, rng.choice([2, 4, 8, 16])) for _ in range(w["procs"])]
        else:
            del w["sub"]
    return {"w": w, "sched": sched, "faults": []}


def shrink(scn):
    import copy
    for p, ops in enumerate(scn["w"]["ops"]):
        for k in range(len(ops)):
            c = copy.deepcopy(scn)
            del c["w"]["ops"][p][k]
            yield c
    if len(scn["w"]["ops"]) > 1:
        for p in range(len(scn["w"]["ops"])):
            c = copy.deepcopy(scn)
            del c["w"]["ops"][p]
            c["w"]["procs"] -= 1
            yield c


def user(st, j, ops):
    w = st.w
    ds = st.dataset()
    it, seen = None, []
    for op in ops:
        st.ctx.sim.probe("op_" + op[0])
        if op[0] == "get":
            check(w, ds[op[1]], st.order[op[1]], f"user {j} [{op[1]}]")
        elif op[0] == "slice":
            a, b, s = op[1:]
            got = ds[a:b:s]
            if len(got) != len(range(a, b, s)):
                raise Violation("slice-length", f"user {j}: [{a}:{b}:{s}] has {len(got)} samples")
            for i, v in zip(range(a, b, s), got):
                check(w, v, st.order[i], f"user {j} [{a}:{b}:{s}]")
        elif op[0] == "iter":
            it, seen = iter(ds), []
        elif op[0] == "next" and it is not None:
            for _ in range(op[1]):
                try:
                    v = next(it)
                except StopIteration:
                    it = None
                    whole(st, seen, j)
                    break
                take(st, v, seen, j)
        elif op[0] == "epoch":
            it, seen = None, []
            for v in ds:
                take(st, v, seen, j)
            whole(st, seen, j)
        elif op[0] == "new":
            ds = st.dataset()
            it = None
        st.count += 1


def check(w, v, i, where):
    got = lib.check_value(v, w["kind"], w["base"], 0, w["n"], where)
    if got != i:
        raise Violation("wrong-sample", f"{where}: got the sample written at {got}")


def take(st, v, seen, j):
    w = st.w
    i = lib.check_value(v, w["kind"], w["base"], 0, w["n"], f"user {j} iterating")
    if seen.count(i) >= st.order.count(i):
        raise Violation("duplicate", f"user {j}: iteration delivered {i} twice")
    if not w["shuffle"] and i != st.order[len(seen)]:
        raise Violation("wrong-sample", f"user {j}: iteration delivered {i} at position {len(seen)}")
    seen.append(i)


def whole(st, seen, j):
    w = st.w
    if sorted(seen) != sorted(st.order):
        raise Violation("lost", f"user {j}: an epoch interleaved with random access delivered {len(seen)} of {w['n']} samples")


def run(ctx):
    w = ctx.w
    st = lib.Stream(ctx, w).publish()
    st.set_latency()
    st.count = 0
    st.order = list(range(w["n"]))
    if w.get("sub"):
        st.wanted()
    ctx.arm()
    procs = [ctx.spawn(f"user{j}", user, st, j, ops) for j, ops in enumerate(w["ops"])]
    ctx.join(procs)
    st.procs = procs
    st.collect()
    st.raise_errors()
    ctx.rec["operations"] = st.count
