"""C24: credentials are renewed before they expire and reused until then."""
import pickle

from .. import core, lib, stubs
from ..core import Violation

MAX_TIME = 400_000.0
MAX_STEPS = 1_000_000
SWAP_RNG = True
SLACK = 30.0        # what a stalled thread may lose between two lines


def gen(rng, tier):
    mode = rng.choice(["client", "client", "stream", "stream", "download", "provider"])
    gaps = [0, 0.1, 1, 60, 600, 1600, 3000, 3299, 3301, 3400, 7000, 50_000]
    w = {"mode": mode}
    if mode == "stream":
        w.update(lib.gen_stream(rng, remote="s3", think=rng.choice([1, 200, 900, 3000, 3400, 5000]), epochs=rng.choice([1, 1, 2]), lat=rng.choice([0, 0.3, 20.0]),
                                n=rng.choice([6, 10, 13, 17, 24]), persistent=rng.random() < 0.5))
        w["peek"] = rng.random() < 0.4         # the dataset is used before the loader's workers get it
        w["wait"] = rng.choice([0, 0, 100, 3500])
    else:
        w.update(procs=rng.choice([1, 1, 2]), threads=rng.choice([1, 2, 3]), interval=rng.choice([3300, 600, 60]) if mode == "client" else 3300,
                 gaps=[[rng.choice(gaps) for _ in range(rng.choice([2, 4, 7]))] for _ in range(3)],
                 copy=rng.choice([None, None, "pickle", "fork"]), lat=rng.choice([0, 0, 0.5, 5.0]), size=rng.choice([10, 3000]))
    faults = []
    if rng.random() < 0.25:
        faults.append({"op": "s3.client", "nth": rng.choice([1, 2, 3]), "count": 1, "effect": "delay", "delay": rng.choice([1.0, 9.0])})
    if mode == "download" and rng.random() < 0.3:
        faults.append({"op": "s3.get", "nth": rng.choice([1, 2, 5]), "count": rng.choice([1, 2]), "effect": rng.choice(["cloud_503", "cloud_conn", "cloud_500"])})
    sched = lib.gen_sched(rng)
    return {"w": w, "sched": sched, "faults": faults}


class Watch:
    """Every client handed out by litdata's S3Client: its age, and whether a younger one would have done."""

    def __init__(self, ctx):
        from litdata.streaming.client import S3Client
        self.taken = {}         # (proc, S3Client) -> [(returned, client)]
        self.count = self.renewed = 0
        self.fault = None
        self.oldest = 0.0
        fget = S3Client.client.fget
        watch = self

        def client(obj):
            s = core.SIM
            t0 = s.now
            c = fget(obj)
            watch.see(obj, t0, s.now, c)
            return c
        S3Client.client = property(client)
        self.undo = lambda: setattr(S3Client, "client", property(fget))

    def see(self, obj, t0, t1, c):
        s = core.SIM
        self.count += 1
        ttl = obj._refetch_interval
        age = t1 - c.created
        self.oldest = max(self.oldest, age)
        if age > ttl + SLACK and not self.fault:
            self.fault = ("old", f"a client of {age:.0f} s was handed out, they are to be renewed after {ttl} s")
        k = (s.current().proc.pid, id(obj))
        had = self.taken.setdefault(k, [])
        if c.created >= t0 and c not in [x for _, x, _ in had]:
            for r, x, o in had:
                if r < t0 and t0 - x.created < ttl - SLACK and x is not c and not self.fault:
                    self.fault = ("recreated", f"a client of {t0 - x.created:.0f} s was there, but another one was created (interval {ttl} s)")
            if had:
                self.renewed += 1
        had.append((t1, c, obj))

    def check(self):
        if self.fault:
            raise Violation(*self.fault)


def run(ctx):
    w = ctx.w
    watch = Watch(ctx)
    try:
        core.SIM.cred_ttl = 3600
        core.SIM.poll_stretch = 0.2
        (stream if w["mode"] == "stream" else direct)(ctx, w, watch)
        watch.check()
    finally:
        watch.undo()
    ctx.rec["clients_handed_out"] = watch.count
    ctx.rec["renewals"] = watch.renewed
    ctx.rec["oldest_client_s"] = int(watch.oldest)


class Peek(lib.Stream):
    def dataset(self, host="node0"):
        ds = super().dataset(host)
        if self.w["peek"]:
            lib.check_value(ds[0], self.w["kind"], self.w["base"], self.salt, self.w["n"], "peek")
            core.SIM.sleep(self.w["wait"])
        return ds


def stream(ctx, w, watch):
    st = Peek(ctx, w)
    st.publish()
    st.set_latency()
    ctx.arm()
    st.run()
    ctx.disarm()
    watch.check()
    st.raise_errors()
    for e in range(w["epochs"]):
        lib.cover_check(st.epoch_items(e), w["n"], w, f"epoch {e}")


def direct(ctx, w, watch):
    from litdata.streaming.client import S3Client
    objs = stubs.cloud().objects
    for k in range(40):
        objs[f"bucket/d/{k}.bin"] = lib.pat(k, w["size"])
    if w["lat"]:
        import random
        r = random.Random(repr(("lat", ctx.scn.get("seed", 0))))
        ctx.fs.latency[("s3.client", "s3")] = lambda: w["lat"] * r.random()
        ctx.fs.latency[("s3.get", "s3")] = lambda: w["lat"] * r.random()
    path = ctx.path("dl")
    import os
    os.makedirs(path)
    use = user(w, path)

    def work(obj, t, tag):
        for k, g in enumerate(w["gaps"][t % 3]):
            core.SIM.sleep(g)
            use(obj, k, f"{tag}-{t}")

    def main(obj, tag):
        import threading
        ths = [threading.Thread(target=guard, args=(errs, work, obj, t, tag)) for t in range(w["threads"])]
        for t in ths:
            t.start()
        for t in ths:
            t.join()

    errs = []

    def guard(errs, fn, *args):
        try:
            fn(*args)
        except Exception as e:  # noqa: BLE001
            import traceback
            errs.append((e, traceback.format_exc()))

    def first():
        obj = make(w, path)
        if w["copy"]:
            use(obj, 0, "pre")
            core.SIM.sleep(w["gaps"][0][0])
        if w["copy"] == "pickle":
            obj = pickle.loads(pickle.dumps(obj))
        for p in range(w["procs"] - 1):
            q = ctx.spawn(f"other{p}", main, obj if w["copy"] == "fork" else make(w, path), f"other{p}", host="node0")
            procs.append(q)
        main(obj, "first")
    procs = []
    ctx.arm()
    procs.append(ctx.spawn("first", first, host="node0"))
    ctx.join(procs)
    for p in list(procs):
        ctx.join([p])
    watch.check()
    tolerated = bool(ctx.scn["faults"])
    for p in procs:
        if "exc" in p.box:
            errs.append((p.box["exc"], p.box["tb"]))
    for e, tb in errs:
        if isinstance(e, Violation):
            raise e
        if "HarnessError" in tb:
            raise core.HarnessError(tb)
        if "expired" in str(e):
            raise Violation("expired", tb[-1500:])
        if not tolerated:
            raise Violation("error:" + lib.exc_site(e), tb[-2000:])


def make(w, path):
    if w["mode"] == "client":
        from litdata.streaming.client import S3Client
        return S3Client(w["interval"]) if w["interval"] != 3300 else S3Client()
    if w["mode"] == "provider":
        from litdata.streaming.fs_provider import _get_fs_provider
        return _get_fs_provider("s3://bucket/d", {})
    from litdata.streaming.downloader import get_downloader
    return get_downloader("s3://bucket/d", path, [], {})


def user(w, path):
    """One access."""
    import os

    def use(obj, k, tag):
        if w["mode"] == "client":
            obj.client.head_object(Bucket="bucket", Key="d/1.bin")
        elif w["mode"] == "provider":
            if k % 3 == 0:
                if not obj.exists(f"s3://bucket/d/{k}.bin"):
                    raise Violation("missing", f"object {k} is said not to exist")
            elif k % 3 == 1:
                p = os.path.join(path, f"{tag}-{k}.bin")
                obj.download_file(f"s3://bucket/d/{k}.bin", p)
                with open(p, "rb") as f:
                    if f.read() != lib.pat(k, w["size"]):
                        raise Violation("content", f"object {k} wasn't downloaded as it is")
            elif obj.is_empty("s3://bucket/d"):
                raise Violation("missing", "the directory is said to be empty")
        else:
            p = os.path.join(path, f"{tag}-{k}.bin")
            obj.download_file(f"s3://bucket/d/{k}.bin", p)
            with open(p, "rb") as f:
                if f.read() != lib.pat(k, w["size"]):
                    raise Violation("content", f"object {k} wasn't downloaded as it is")
    return use


def on_hang(ctx, outcome):
    return "hang:" + outcome
