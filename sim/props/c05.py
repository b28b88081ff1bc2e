"""C05: a combined dataset delivers, mixes and ends as configured."""
from .. import lib
from ..core import Violation
from . import combo

MAX_TIME = 4000.0
MAX_STEPS = 800_000


def gen(rng, tier):
    w = combo.gen(rng)
    return {"w": w, "sched": lib.gen_sched(rng), "faults": []}


class Alone(lib.Stream):
    """One member streamed on its own, with the worker that read each batch."""

    def loader(self, ds):
        return combo.Combo.loader(self, ds)

    def rank_main(self, rank, epochs):
        dl = self.loader(self.dataset(self.host(rank)))
        for e in range(epochs):
            rec = self.out.setdefault((rank, e), [])
            for b in dl:
                rec.append((b["w"], [lib.check_value(v, self.w["kind"], self.w["base"], self.salt, self.w["n"], "alone")
                                     for v in b["items"]]))


def run(ctx):
    w = ctx.w
    st = combo.Combo(ctx, w).publish()
    quiet = dict(cache="big", lat=0)
    ref = st.like("ref", **quiet).run()
    ref.raise_errors()
    own = []
    for m, s in enumerate(st.subs):
        a = Alone(ctx, dict(s.w, **quiet), f"own{m}", s.salt, name=str(m))
        a.index = s.index
        a.run()
        a.raise_errors()
        own.append(a)
    st.set_latency()
    ctx.arm()
    st.run()
    st.raise_errors()
    for e in range(w["epochs"]):
        for r in range(w["ranks"]):
            got = st.out[(r, e)]
            where = f"rank {r} epoch {e}"
            if got != ref.out[(r, e)]:
                raise Violation("order", f"{where}: got {got}, the undisturbed run {ref.out[(r, e)]}")
            for m in range(len(w["members"])):
                mine = combo.streams(own[m].out[(r, e)])
                for k, seq in combo.streams(got, m).items():
                    full = mine.get(k, [])
                    seq = [i for _, i in seq]
                    if seq != full[:len(seq)]:
                        raise Violation("member-order", f"{where} worker {k}: member {m} delivered {seq}, its own order is {full}")
                    if w["mode"] == "all" and seq != full:
                        raise Violation("member-lost", f"{where} worker {k}: member {m} delivered {seq} of {full}")
                    if w["weights"] and w["weights"][m] == 0 and seq:
                        raise Violation("zero-weight", f"{where}: {len(seq)} samples of member {m}, whose weight is 0")
            if w["method"] == "per_stream":
                for k, items in got:
                    if len({m for m, _ in items}) > 1:
                        raise Violation("mixed-batch", f"{where}: batch {items} of worker {k} mixes members")
            if w["mode"] == "weighted":
                check_weighted(w, got, own, r, e, where)
        if w["mode"] == "all":
            for m, n in enumerate(w["members"]):
                items = {r: [i for _, b in st.out[(r, e)] for mm, i in b if mm == m] for r in range(w["ranks"])}
                lib.cover_check(items, n, dict(w, n=n), f"epoch {e} member {m}")
    ctx.rec["samples"] = sum(len(b) for x in st.out.values() for _, b in x)


def check_weighted(w, got, own, r, e, where):
    """Every worker goes on until a member it draws from is exhausted, and draws in proportion to the weights."""
    s = sum(w["weights"])
    for k in range(max(1, w["workers"])):
        seq = combo.streams(got).get(k, [])
        left = []
        for m, a in enumerate(own):
            full = combo.streams(a.out[(r, e)]).get(k, [])
            left.append(len(full) - sum(1 for x in seq if x[0] == m))
        need = [m for m in range(len(own)) if w["weights"][m] > 0]
        if not any(left[m] == 0 for m in need):
            raise Violation("early-end", f"{where} worker {k}: ended with {left} samples left in the members")
        n = len(seq)
        if n >= 12 and w["method"] == "stratified":
            for m in need:
                p = w["weights"][m] / s
                c = sum(1 for x in seq if x[0] == m)
                if abs(c - n * p) > 5 * (n * p * (1 - p)) ** 0.5 + 4:
                    raise Violation("proportion", f"{where} worker {k}: {c} of {n} samples from member {m} of weight share {p:.2f}")
