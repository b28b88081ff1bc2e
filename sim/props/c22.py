"""C22: parquet datasets are indexed and streamed completely and in a fixed order."""
import os

from .. import core, fs as simfs, lib, pq
from ..core import Violation

MAX_TIME = 6000.0
pq.install()
SCHEMES = ["none", "dir", "s3", "s3", "hf", "hf", "hf"]


def gen(rng, tier):
    w = lib.gen_stream(rng, remote="dir", compression=None, think=rng.choice([0, 0, 0.05, 1.0]))
    w["remote"] = rng.choice(SCHEMES)
    files = rng.choice([1, 2, 3, 5, 8, 12])
    w["rows"] = [rng.choice([1, 2, 3, 5, 8]) for _ in range(files)]
    w["groups"] = rng.choice([None, 1, 2, 3, "uneven", "uneven"])
    w["names"] = rng.choice(["part-{}", "{}", "train-{:05d}-of-00012", "b{}.x"])
    w["low"] = rng.random() < 0.6
    w["preload"] = rng.random() < 0.4
    w["num_workers"] = rng.choice([1, 2, 4, 4])
    w["order"] = rng.sample(range(files), files)
    w["junk"] = rng.random() < 0.4
    w["again"] = rng.random() < 0.6
    w["glob"] = rng.choice([None, None, None, "*.parquet", "*1*.parquet"]) if w["remote"] in ("none", "hf") else None
    w["subdir"] = rng.random() < 0.3
    if w["remote"] == "gs":
        w["remote"] = "s3"
    lib.legal(w)
    if w["nodes"] > 1 and w["shuffle"]:
        w["shuffle"] = False
    scn = {"w": w, "sched": lib.gen_sched(rng), "faults": [], "list_seed": rng.randrange(1 << 30)}
    w["fail"] = rng.choice([None, None, "index", "stream", "kill"])
    if w["fail"] == "index":
        op = rng.choice(["s3.get", "s3.get", "s3.list", "s3.put"]) if w["remote"] in ("s3", "hf") else rng.choice(["open", "read", "write", "rename"])
        eff = rng.choice(["cloud_500", "cloud_conn", "cloud_partial"]) if op.startswith("s3") else rng.choice(["EIO", "ENOSPC"])
        scn["faults"].append({"op": op, "nth": rng.choice([1, 1, 2, 3, 5, 9]), "count": rng.choice([1, 1, 3]), "effect": eff, "proc": "indexer"})
    elif w["fail"] == "kill":
        op = rng.choice(["open", "write", "create", "rename", "s3.get", "s3.put"])
        scn["faults"].append({"op": op, "nth": rng.choice([1, 1, 2, 3, 5]), "count": 1, "effect": rng.choice(["kill", "torn_kill"]), "proc": "indexer"})
    elif w["fail"] == "stream" and w["remote"] != "none":
        fw = dict(w, remote="dir" if w["remote"] == "dir" else "s3")
        scn["faults"] = lib.gen_read_faults(rng, fw)
    return scn


def row(i):
    return {"i": i, "name": "n%d" % (i * 7919 % 1000), "w": i / 8.0, "b": lib.pat(i, 5 + i % 3, 3)}


class Parquet(lib.Stream):
    def publish(self):
        import io
        import pyarrow as pa
        from pyarrow import parquet as realpq
        import random
        w, ctx = self.w, self.ctx
        r = random.Random(w["seed"])
        os.makedirs(self.src, exist_ok=True)
        self.files = {}          # name -> (first row, rows)
        at = 0
        data = {}
        for k in w["order"]:     # the content of the files doesn't follow their names
            m = w["rows"][k]
            t = pa.Table.from_pylist([row(i) for i in range(at, at + m)])
            sink = io.BytesIO()
            with realpq.ParquetWriter(sink, t.schema) as pw:
                o = 0
                while o < m:
                    g = w["groups"]
                    g = m if g is None else (r.choice([1, 2, 3]) if g == "uneven" else g)
                    pw.write_table(t.slice(o, g), row_group_size=g)
                    o += g
            name = w["names"].format(k) + ".parquet"
            self.files[name] = (at, m)
            data[name] = sink.getvalue()
            at += m
        self.n = at
        self.data = dict(data)
        if w["junk"]:
            data["README.md"] = b"hello"
            data["x.parquet.tmp"] = b"no"
            data["parquet"] = b""
        if w["subdir"]:
            data["sub/other.txt"] = b"1"
        for name, b in data.items():
            p = os.path.join(self.src, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)
        ctx.fs.classes.append((self.src + "/", "remote"))
        if w["remote"] == "s3":
            lib.to_cloud(ctx, self.src, self.url)
        if w["remote"] == "hf":
            self.url = "hf://datasets/org/repo/data"
            lib.to_cloud(ctx, self.src, self.url)
        from .. import stubs
        stubs.cloud().part = w.get("part", 300)
        sizes = [len(b) for b in self.data.values()]
        self.index = {"chunks": [{"chunk_bytes": s} for s in sizes]}
        return self

    def where(self):
        """What the user passes to the indexer."""
        return self.src if self.w["remote"] in ("none", "dir") else self.url

    def home(self, host):
        h = self.ctx.path("home-" + host)
        os.makedirs(h, exist_ok=True)
        return h

    def rank_env(self, rank):
        return dict(super().rank_env(rank), HOME=self.home(self.host(rank)))

    def make_index(self):
        from litdata.streaming.writer import index_parquet_dataset
        from litdata.utilities.hf_dataset import index_hf_dataset
        if self.w["remote"] == "hf":
            return index_hf_dataset(self.url)
        return index_parquet_dataset(self.where(), num_workers=self.w["num_workers"])

    def read_index(self, host="node0"):
        import json
        from .. import stubs
        if self.w["remote"] == "s3":
            b = stubs.cloud().objects.get(self.url.split("://", 1)[1] + "/index.json")
        else:
            p = os.path.join(self.src, "index.json")
            if self.w["remote"] == "hf":
                import hashlib
                p = os.path.join(self.home(host), ".cache", "litdata-cache-index-pq", hashlib.sha256(self.url.encode()).hexdigest(), "index.json")
            if not os.path.exists(p):
                return None
            with simfs.R["open"](p, "rb") as f:
                b = f.read()
        if b is None:
            return None
        try:
            return json.loads(b)
        except ValueError:
            raise Violation("torn-index", f"the published index is not complete: {b[-80:]!r}")

    def check_index(self, idx, where):
        names = [c["filename"] for c in idx["chunks"]]
        if sorted(names) != sorted(self.files):
            raise Violation("index-files", f"{where}: the index lists {names}, the folder has {sorted(self.files)}")
        for c in idx["chunks"]:
            m = self.files[c["filename"]][1]
            if c["chunk_size"] != m:
                raise Violation("index-rows", f"{where}: {c['filename']} has {m} rows, the index says {c['chunk_size']}")
            if c["chunk_bytes"] != len(self.data[c["filename"]]):
                raise Violation("index-bytes", f"{where}: {c['filename']} has {len(self.data[c['filename']])} bytes, the index says {c['chunk_bytes']}")
        if idx["config"]["data_format"] != ["int64", "string", "double", "binary"]:
            raise Violation("index-types", f"{where}: {idx['config']['data_format']}")
        old = self.__dict__.setdefault("first_order", names)
        if old != names:
            raise Violation("index-order", f"{where}: the order of the chunks is {names}, it was {old}")
        return names

    def dataset(self, host="node0"):
        from litdata.streaming.dataset import StreamingDataset
        from litdata.streaming.item_loader import ParquetLoader
        w = self.w
        kw = dict(shuffle=w["shuffle"], drop_last=w["drop_last"], seed=w["seed"], max_cache_size=self.cache_size(), max_pre_download=w["pre"])
        if w["remote"] != "hf" or not w["low"] or w["preload"] or w["seed"] % 2:
            kw["item_loader"] = ParquetLoader(pre_load_chunk=w["preload"], low_memory=w["low"])
        if w["remote"] == "hf":
            d = self.ctx.path("cache", self.tag, host)
            os.makedirs(d, exist_ok=True)
            return StreamingDataset(self.url + ("/" + w["glob"] if w["glob"] else ""), cache_dir=d, **kw)
        if w["remote"] == "none":
            return StreamingDataset(self.src + ("/" + w["glob"] if w["glob"] else ""), **kw)
        return StreamingDataset(self.input_dir(host), **kw)

    def expected(self, names):
        import fnmatch
        out = []
        for nm in names:
            if self.w["glob"] is None or fnmatch.fnmatch(nm, self.w["glob"]):
                a, m = self.files[nm]
                out += range(a, a + m)
        return out

    def rank_main(self, rank, epochs):
        w = self.w
        ds = self.dataset(self.host(rank))
        dl = self.loader(ds)
        for e in range(epochs):
            rec = self.out.setdefault((rank, e), [])
            for batch in dl:
                ids = []
                for x in batch:
                    i = x.get("i") if isinstance(x, dict) else None
                    if i is None or not 0 <= i < self.n or x != row(i):
                        raise Violation("wrong-data", f"rank {rank} epoch {e}: the row {x!r:.200} was never written")
                    ids.append(i)
                rec.append(ids)
                if w["think"]:
                    core.SIM.sleep(w["think"])
            self.finished[rank] = e + 1


def run(ctx):
    w = ctx.w
    st = Parquet(ctx, w)
    st.publish()
    if w["glob"] and not st.expected(list(st.files)):
        w["glob"] = st.w["glob"] = None
    st.set_latency()
    core.SIM.poll_stretch = 0.2
    env = {"HOME": st.home("node0")}
    (ctx.arm if w["fail"] in ("index", "kill") else ctx.arm_schedule)()
    # indexing, possibly failing or interrupted
    fails = w["fail"] in ("index", "kill")
    if w["remote"] != "hf" or fails:
        p = ctx.spawn("indexer", st.make_index, env=env, host="node0")
        ctx.join([p])
        ctx.rec["interrupted"] = int("ok" not in p.box)
        if "ok" not in p.box and not (fails and sum(core.SIM.faults_fired.values())):
            e = p.box.get("exc")
            if isinstance(e, Violation):
                raise e
            raise Violation("error:" + (lib.exc_site(e) if e else "?"), f"indexing failed: {p.box.get('tb', '')[-1500:]}")
        idx = st.read_index()
        if idx is not None:
            st.check_index(idx, "after an interrupted attempt" if "ok" not in p.box else "indexed")
        elif "ok" in p.box:
            raise Violation("no-index", "indexing succeeded without an index")
        if fails:
            ctx.disarm()
            ctx.arm_schedule()
    for k in range(2 if w["again"] else 1):
        if w["remote"] == "hf":
            break
        if k == 0 and not fails:
            continue
        p = ctx.spawn("indexer%d" % k, st.make_index, env=env, host="node0")
        ctx.join([p])
        if "ok" not in p.box:
            raise Violation("error:" + lib.exc_site(p.box["exc"]), f"indexing failed: {p.box.get('tb', '')[-1500:]}")
        st.check_index(st.read_index(), "indexed again")
    if w["fail"] == "stream":
        ctx.disarm()
        ctx.arm()
    st.run()
    ctx.disarm()
    fired = w["fail"] == "stream" and sum(v for f, v in core.SIM.faults_fired.items() if "delay" not in f)
    lib.reraise_harness(st)
    if not fired:
        st.raise_errors()
    for host in sorted({st.host(r) for r in range(w["ranks"])}):
        if w["remote"] == "hf":
            idx = st.read_index(host)
            if idx is None:
                if not fired:
                    raise Violation("no-index", f"{host}: there is no index after streaming")
                continue
        else:
            idx = st.read_index()
        names = st.check_index(idx, host)
    if st.errors:
        ctx.rec["errors"] = len(st.errors)
        names = sorted(st.files)
    exp = st.expected(names)
    want = {i: k for k, i in enumerate(exp)}
    for e in range(w["epochs"]):
        items = {r: [want.get(i, -1) for i in x] for r, x in st.epoch_items(e).items()}
        for r, x in items.items():
            if -1 in x:
                raise Violation("not-selected", f"rank {r}: a row of a file that wasn't asked for")
        if st.errors:
            seen = set()
            for r, x in items.items():
                if len(set(x)) < len(x) or seen & set(x):
                    raise Violation("duplicate", f"epoch {e}: rank {r} got {x}")
                seen |= set(x)
            continue
        lib.cover_check(items, len(exp), w, f"epoch {e}")
        if not w["shuffle"] and w["ranks"] == 1 and w["workers"] <= 1:
            flat = items[0]
            if flat != sorted(flat):
                raise Violation("order", f"epoch {e}: not in the order of the index: {flat}")
    ctx.rec["rows"] = sum(len(b) for v in st.out.values() for b in v)


def on_hang(ctx, outcome):
    return "hang:" + outcome
