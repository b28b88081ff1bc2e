"""Shared pieces of the processing scenarios (optimize, map, merge): user functions, inputs, runs on simulated nodes,
chunk decoder, watchers of the output location, oracles."""
from __future__ import annotations

import json
import os
import random

from . import core, lib, fs as simfs, stubs
from .core import Violation, HarnessError

K = 100   # sample number = input * K + position among the samples of that input


# ------------------------------------------------------------------------------------------------ user functions
def outputs_of(spec, i):
    """How many samples input i yields."""
    o = spec["outs"]
    if o == "one":
        return 1
    if o == "some":
        return 0 if (i * 7 + spec["salt"]) % 4 == 1 else 1
    return (i * 5 + spec["salt"]) % 4          # generator: 0..3


def note(kind, i):
    s = core.SIM
    s.calls.append((kind, s.current().proc.pid, s.current().proc.env.get("DATA_OPTIMIZER_NODE_RANK", "0"), i, s.now))


def input_bytes(i, spec):
    return b"IN" + i.to_bytes(3, "big") + lib.pat(i, spec["isize"], spec["isalt"])


def read_inputs(item, spec):
    """The id of the input; every file belonging to it must be complete."""
    if spec["src"] == "values":
        return item
    if spec["src"] == "loader":
        return lib.check_value(item, "dict", 8, spec["isalt"], 10 ** 6, "the function's input")
    if spec["src"] == "pairs":
        if not isinstance(item, tuple) or item[1] != f"k{item[0]}":
            raise Violation("input-altered", f"the function got {item!r} for an input pair")
        return item[0]
    paths = item if isinstance(item, (list, tuple)) else [item]
    i = None
    for p in paths:
        try:
            with open(p, "rb") as f:
                b = f.read()
        except FileNotFoundError as e:
            raise Violation("input-missing", f"{p} of {item} is not there") from e
        if os.path.basename(p) == "common.dat":
            j = 999
        else:
            j = int(os.path.basename(p)[1:].split(".")[0])
            i = j
        if b != input_bytes(j, spec):
            raise Violation("input-incomplete", f"{p} has {len(b)} bytes, the source {len(input_bytes(j, spec))}")
    return i


class Fn:
    """Base: pickled into the workers; records its calls in the simulator."""

    def __init__(self, spec):
        self.spec = spec

    def enter(self, item):
        sp = self.spec
        if sp["batch"]:
            ids = [self.enter1(x) for x in item]
            return ids
        return [self.enter1(item)]

    def enter1(self, item):
        sp = self.spec
        try:
            i = read_inputs(item, sp)
        except Violation as v:
            core.SIM.fn_violations.append(v)
            raise RuntimeError(str(v)) from v
        note("call", i)
        if sp["think"]:
            core.SIM.sleep(sp["think"])
        if sp.get("fail") is not None and i == sp["fail"]:
            core.SIM.fired("fn_raises")
            if sp.get("fail_exit") is not None:
                raise SystemExit(sp["fail_exit"])
            raise ValueError(f"user function failed on {i}")
        return i

    def leave(self, item):
        for x in (item if self.spec["batch"] else [item]):
            try:
                i = read_inputs(x, self.spec)
            except Violation as v:
                core.SIM.fn_violations.append(v)
                raise RuntimeError(str(v)) from v
            note("done", i)

    def sample(self, i, k):
        return lib.value(i * K + k, self.spec["kind"], self.spec["base"], self.spec["salt"])


class OptOne(Fn):
    def __call__(self, item):
        ids = self.enter(item)
        self.leave(item)
        i = ids[0]
        return self.sample(i, 0) if outputs_of(self.spec, i) else None


class OptGen(Fn):
    def __call__(self, item):
        ids = self.enter(item)
        for i in ids:
            for k in range(outputs_of(self.spec, i)):
                yield self.sample(i, k)
                if self.spec["think"]:
                    core.SIM.sleep(self.spec["think"] / 3)
        self.leave(item)


class MapFn(Fn):
    def __call__(self, item, output_dir):
        for i in self.enter(item):
            for k in range(1 + outputs_of(self.spec, i)):
                p = os.path.join(output_dir, map_name(self.spec, i, k))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(map_bytes(self.spec, i, k))
        self.leave(item)


def map_name(spec, i, k):
    if spec.get("names") == "odd":
        return [f"o{i}_{k}.bin", f".checkpoints/checkpoint-{i}-{k}.json", f"a.b/x {i}_{k}", f"my.checkpoints/{i}/{k}-0123456789012345678901234567890123456789.json",
                f"chunks/index-{i}-{k}.json"][(i + k) % 5]
    return f"o{i}_{k}.bin" if k % 2 == 0 else f"sub{i % 2}/deep/o{i}_{k}.bin"


def map_bytes(spec, i, k):
    return b"OUT%d_%d:" % (i, k) + lib.pat(i * K + k, spec["base"], spec["salt"])


def map_expected(spec, ids):
    out = {}
    for i in ids:
        for k in range(1 + outputs_of(spec, i)):
            out[map_name(spec, i, k)] = map_bytes(spec, i, k)
    return out


# ------------------------------------------------------------------------------------------------ workload
def gen(rng, **over):
    w = {
        "n": rng.choice([1, 2, 3, 5, 6, 8, 9, 12, 14, 17]),
        "workers": rng.choice([0, 1, 1, 2, 2, 3, 4]),
        "nodes": 1,
        "downloaders": rng.choice([None, 1, 2, 3]),
        "uploaders": rng.choice([None, 1, 2, 3]),
        "src": rng.choice(["values", "values", "pairs", "copy", "s3"]),
        "outs": rng.choice(["one", "one", "some", "gen", "gen"]),
        "chunk_size": rng.choice([1, 2, 2, 3, 4, 7]),
        "chunk_bytes": None,
        "kind": rng.choice(["dict", "bytes", "var", "tuple", "np", "int"]),
        "base": rng.choice([8, 40, 200]),
        "compression": rng.choice([None, None, "zstd"]),
        "batch": rng.choice([None, None, None, 2, 3]),
        "reorder": rng.random() < 0.5,
        "weights": rng.random() < 0.15,
        "out": rng.choice(["dir", "dir", "s3", "s3", "gs"]),
        "lat": rng.choice([0, 0, 0.01, 0.1]),
        "think": rng.choice([0, 0, 0.01, 0.08]),
        "salt": rng.randrange(50),
        "isize": rng.choice([5, 60, 700]),
        "shared": False,
    }
    w.update(over)
    if rng.random() < 0.3:
        w["chunk_size"], w["chunk_bytes"] = None, rng.choice([64, 150, 600, 2000])
    if w["src"] != "values" or "map" in over:
        pass
    return legal(w)


def legal(w):
    if w["src"] != "values":
        w["weights"] = False if w["batch"] else w["weights"]
    if w["weights"] and w["batch"]:
        w["batch"] = None
    if w["batch"] and w["outs"] != "gen" and not w.get("map"):
        # one sample per batch: the sample of its first input
        pass
    while not expected(w):
        w["salt"] += 1
    return w


def use_loader(rng, w):
    """The inputs are the batches of a StreamingDataLoader; they have to divide into equal parts for the workers."""
    w.update(src="loader", outs="gen", weights=False, batch=rng.choice([1, 1, 2, 3]))
    w["n"] = max(1, w["workers"]) * w["nodes"] * w["batch"] * rng.choice([1, 2, 3, 4])
    w["loader"] = {"chunk_items": rng.choice([1, 2, 3, 5]), "remote": rng.random() < 0.5, "shuffle": rng.random() < 0.5,
                   "cache": rng.choice(["100GB", "100GB", 200]), "workers": rng.choice([0, 0, 1, 2])}
    return legal(w)


def spec_of(w, salt=None, **more):
    s = {"outs": w["outs"], "salt": w["salt"] if salt is None else salt, "kind": w["kind"], "base": w["base"], "think": w["think"],
         "batch": w["batch"], "src": w["src"], "isize": w["isize"], "isalt": w.get("isalt", 3), "names": w.get("names")}
    s.update(more)
    return s


def batches(ids, w):
    b = w["batch"]
    return [ids[p:p + b] for p in range(0, len(ids), b)] if b else [[i] for i in ids]


def expected(w, ids=None, salt=None):
    """[(input, position)] every run must produce, grouped per call of the function."""
    sp = spec_of(w, salt)
    ids = list(range(w["n"])) if ids is None else ids
    out = []
    if w["src"] == "loader":       # which inputs come in one batch is up to the loader
        return [[(i, k) for k in range(outputs_of(sp, i))] for i in ids if outputs_of(sp, i)]
    for b in batches(ids, w):
        if w["outs"] == "gen":
            out += [[(i, k) for i in b for k in range(outputs_of(sp, i))]]
        else:
            out += [[(b[0], 0)] if outputs_of(sp, b[0]) else []]
    return [x for x in out if x]


class Job:
    """One optimize (or map) call, on one or several simulated nodes."""

    def __init__(self, ctx, w, tag="", ids=None, salt=None, kind="optimize"):
        self.ctx, self.w, self.tag = ctx, w, tag
        self.ids = list(range(w["n"])) if ids is None else ids
        self.salt = w["salt"] if salt is None else salt
        self.kind = kind
        self.box = {}
        self.in_dir = ctx.path("in" + tag)
        s = core.SIM
        if not hasattr(s, "calls"):
            s.calls, s.fn_violations = [], []
            s.poll_stretch = 0.05
            if w["out"] in ("s3", "gs") or w["src"] == "s3":
                stubs.cloud()

    # -- inputs
    def make_inputs(self):
        w, ctx = self.w, self.ctx
        if w["src"] in ("values", "pairs"):
            self.inputs = [i if w["src"] == "values" else (i, f"k{i}") for i in self.ids]
            self.input_dir = None
            return self
        from litdata.streaming.resolver import Dir
        sp = spec_of(w)
        if w["src"] == "loader":
            lib.build(ctx, self.in_dir, len(self.ids), chunk_items=w["loader"]["chunk_items"], kind="dict", base=8, salt=sp["isalt"])
            if w["loader"]["remote"]:
                lib.to_cloud(ctx, self.in_dir, f"s3://bucket/in{self.tag}")
            self.inputs, self.input_dir = [], None
            self.watch_sources()
            return self
        os.makedirs(self.in_dir, exist_ok=True)
        self.sources = {}

        def put(rel, i):
            p = os.path.join(self.in_dir, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with simfs.R["open"](p, "wb") as f:
                f.write(input_bytes(i, sp))
            if w["src"] == "s3":
                stubs.cloud().objects[f"bucket/in{self.tag}/{rel}"] = input_bytes(i, sp)
            return p
        items = []
        for i in self.ids:
            rel = f"f{i}.dat" if not w.get("nested") else f"d{i % 2}/in{self.tag}/f{i}.dat"
            p = put(rel, i)
            if w.get("outside"):      # a second file per item, in a folder next to the input folder
                q = self.in_dir + ("2" if w["outside"] == "near" else "-labels") + f"/f{i}.dat"
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with simfs.R["open"](q, "wb") as f:
                    f.write(input_bytes(i, sp))
                if w["outside"] == "near" and w["src"] == "s3":
                    stubs.cloud().objects[f"bucket/in{self.tag}2/f{i}.dat"] = input_bytes(i, sp)
                items.append([p, q] if i % 3 or i == self.ids[0] or w["outside"] == "near" else [q])
                continue
            items.append(p if not w.get("shared") else [p, os.path.join(self.in_dir, "common.dat")])
        if w.get("shared"):
            put("common.dat", 999)
        self.inputs = items
        self.input_dir = Dir(path=self.in_dir, url=f"s3://bucket/in{self.tag}" if w["src"] == "s3" else None)
        ctx.fs.classes.append((self.in_dir + "/", "input"))
        self.watch_sources()
        return self

    def watch_sources(self):
        """Inputs may never be changed or removed."""
        self.touched = []

        def seen(kind, path):
            if path.startswith((self.in_dir + "/", self.in_dir + "2/", self.in_dir + "-labels/")) and kind in ("write", "remove", "rename", "truncate", "create"):
                self.touched.append((kind, path))
        self.ctx.fs.observers.append(seen)
        if self.w["src"] == "s3":
            pre = (f"bucket/in{self.tag}/", f"bucket/in{self.tag}2/")
            stubs.cloud().observers.append(lambda op, name: self.touched.append((op, name)) if name.startswith(pre) and op != "get" else None)

    def check_sources(self):
        if self.w["src"] not in ("values", "pairs") and self.touched:
            raise Violation("source-modified", f"inputs were changed: {self.touched[:5]}")

    # -- output
    def out_arg(self, name="out"):
        w = self.w
        return self.ctx.path(name) if w["out"] == "dir" else f"{w['out']}://bucket/{name}"

    def set_latency(self):
        w, ctx = self.w, self.ctx
        if not w["lat"]:
            return
        r = random.Random(repr(("lat", ctx.scn.get("seed", 0))))
        mx = w["lat"]

        def lat():
            x = r.random()
            return 0.0 if x < 0.4 else mx * x
        for op in ("s3.put", "s3.get", "s3.list", "s3.head"):
            ctx.fs.latency[(op, "s3")] = lat
        ctx.fs.latency[("create", "out")] = lat
        ctx.fs.latency[("open", "input")] = lat

    def classes(self):
        """Path classes for faults: out (destination), data (fetched inputs), chunks (written chunks)."""
        c = self.ctx.fs.classes
        c.append((self.ctx.path("out"), "out"))
        for k in range(self.w["nodes"]):
            c.append((self.ctx.path("host%d/data" % k) + "/", "data"))
            c.append((self.ctx.path("host%d/cache" % k) + "/", "chunks"))

    # -- running
    def call(self, out, mode=None, use_checkpoint=False, **kw):
        """The user's script on one node."""
        import litdata
        w = self.w
        if w["src"] == "loader":
            from litdata.streaming.resolver import Dir
            ld = w["loader"]
            src = Dir(path=os.environ["DATA_OPTIMIZER_DATA_CACHE_FOLDER"] + "-in", url=f"s3://bucket/in{self.tag}") if ld["remote"] else self.in_dir
            if ld["remote"]:
                os.makedirs(src.path, exist_ok=True)
            ds = litdata.StreamingDataset(src, shuffle=ld["shuffle"], max_cache_size=ld["cache"])
            loader = litdata.StreamingDataLoader(ds, batch_size=w["batch"], num_workers=ld["workers"], collate_fn=lib.collate)
        spec = spec_of(w, self.salt, **{k: w[k] for k in ("fail", "fail_exit") if w.get(k) is not None})
        common = dict(inputs=list(self.inputs), output_dir=out, input_dir=self.input_dir, num_workers=w["workers"],
                      num_downloaders=w["downloaders"], num_uploaders=w["uploaders"], reorder_files=w["reorder"],
                      batch_size=w["batch"], weights=[1 + i % 3 for i in self.ids] if w["weights"] else None)
        if w["src"] == "loader":
            common.update(inputs=loader, batch_size=None, weights=None)
        if self.kind == "map":
            return litdata.map(fn=MapFn(spec), **common)
        if w["weights"]:
            common.pop("weights")     # accepted by optimize but not used
        fn = (OptGen if w["outs"] == "gen" else OptOne)(spec)
        return litdata.optimize(fn=fn, chunk_size=w["chunk_size"], chunk_bytes=w["chunk_bytes"], compression=w["compression"],
                                mode=mode, use_checkpoint=use_checkpoint, encryption=lib.encryption(w.get("enc")), **common)

    def node_env(self, k):
        root = self.ctx.path("host%d" % k)
        e = {"DATA_OPTIMIZER_CACHE_FOLDER": root + "/cache", "DATA_OPTIMIZER_DATA_CACHE_FOLDER": root + "/data"}
        if self.w["nodes"] > 1:
            e.update(DATA_OPTIMIZER_NUM_NODES=self.w["nodes"], DATA_OPTIMIZER_NODE_RANK=k,
                     LIGHTNING_APP_EXTERNAL_URL="http://public", LIGHTNING_APP_STATE_URL="http://private")
        return e

    def start(self, out=None, **kw):
        out = out or self.out_arg()
        if self.w["nodes"] > 1:
            serve_broadcast(core.SIM)
        self.procs = []
        late = self.w.get("late") or []
        for k in range(self.w["nodes"]):
            def main(k=k):
                if k < len(late) and late[k]:
                    core.SIM.sleep(late[k])
                self.call(out, **kw)
            self.procs.append(self.ctx.spawn(f"{self.tag}node{k}", main, env=self.node_env(k), host="host%d" % k))
        return self

    def merge(self, dirs, out, threads=2, start=False):
        """merge_datasets in one process."""
        def main():
            from litdata import merge_datasets
            merge_datasets(input_dirs=list(dirs), output_dir=out, max_workers=threads)
        self.procs = [self.ctx.spawn(f"{self.tag}merge", main, env=self.node_env(0), host="host0")]
        return self if start else self.join()

    def join(self, timeout=None):
        self.ctx.join(self.procs, timeout)
        return self

    def run(self, out=None, **kw):
        return self.start(out, **kw).join()

    def errors(self):
        """[(node, exception or 'killed', traceback)]"""
        out = []
        for k, p in enumerate(self.procs):
            if "exc" in p.box:
                e = p.box["exc"]
                from .engine import classify_exc
                if isinstance(e, Violation):
                    raise e
                if isinstance(e, HarnessError) or "HarnessError" in p.box["tb"]:
                    raise HarnessError(p.box["tb"])
                out.append((k, e, p.box["tb"]))
            elif "ok" not in p.box:
                out.append((k, "killed" if not p.alive else "running", ""))
        return out

    def raise_errors(self):
        if core.SIM.fn_violations:
            raise core.SIM.fn_violations[0]
        for k, e, tb in self.errors():
            if isinstance(e, str):
                raise Violation("no-return:" + e, f"node {k} {e}")
            raise Violation("error:" + lib.exc_site(e), f"node {k}: {tb[-2500:]}")

    def calls(self, kind="call"):
        return [(pid, i) for k, pid, node, i, t in core.SIM.calls if k == kind]


def hang(ctx, outcome):
    """For on_hang: an error that left litdata's call while its workers live on is the better explanation."""
    return "hang:" + outcome


def clear_broadcast(sim):
    """A new run: the service of the platform starts empty."""
    sim.http = None


def serve_broadcast(sim):
    """The value of rank 0 becomes the value of a key; until then the answer is null."""
    vals = {}

    def http(method, url, kw):
        if not url.endswith("/broadcast"):
            import requests
            raise requests.exceptions.ConnectionError("no network")
        js = kw.get("json") or {}
        if js.get("rank") == "0" and js["key"] not in vals:
            vals[js["key"]] = js["value"]
        return stubs.Resp(200, {"value": vals.get(js["key"])})
    sim.http = http
    return vals


# ------------------------------------------------------------------------------------------------ reading results
def load(out):
    """Accessor for the raw objects of an output location: name -> bytes or None."""
    if "://" in out:
        pre = out.split("://", 1)[1].rstrip("/") + "/"
        return lambda name: stubs.cloud().objects.get(pre + name)

    def get(name):
        try:
            with simfs.R["open"](os.path.join(out, name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None
    return get


def listing(out):
    """name -> content of everything at an output location (without what the readers of this harness leave: counts and locks)."""
    if "://" in out:
        pre = out.split("://", 1)[1].rstrip("/") + "/"
        return {k[len(pre):]: v for k, v in stubs.cloud().objects.items() if k.startswith(pre)}
    r = {}
    for d, _, files in os.walk(out):
        for f in files:
            if f.endswith((".cnt", ".lock")):
                continue
            p = os.path.join(d, f)
            with simfs.R["open"](p, "rb") as h:
                r[os.path.relpath(p, out)] = h.read()
    return r


def chunk_fault(info, raw, compression):
    """None when the chunk is there in full, else what is wrong."""
    import numpy as np
    if raw is None:
        return "missing"
    if compression:
        import zstd
        try:
            raw = zstd.decompress(raw)
        except Exception as e:  # noqa: BLE001
            return f"cannot be decompressed ({len(raw)} bytes, {e!r:.60})"
    if len(raw) != info["chunk_bytes"]:
        return f"has {len(raw)} bytes, the index says {info['chunk_bytes']}"
    n = int(np.frombuffer(raw[:4], np.uint32)[0])
    if n != info["chunk_size"]:
        return f"has {n} items, the index says {info['chunk_size']}"
    off = np.frombuffer(raw[4:4 + 4 * (n + 1)], np.uint32)
    if len(off) != n + 1 or off[-1] != len(raw) or (np.diff(off.astype(np.int64)) < 0).any():
        return "has a broken offset table"
    return None


def index_fault(out, get=None, only=None):
    """None when no index is visible or the index and every chunk it lists are complete."""
    get = get or load(out)
    raw = get("index.json")
    if raw is None:
        return None
    try:
        idx = json.loads(raw)
        chunks = idx["chunks"]
        comp = idx["config"]["compression"] if idx["config"] else None
    except Exception as e:  # noqa: BLE001
        return f"the visible index is not readable: {len(raw)} bytes, {e!r:.80}"
    names = [c["filename"] for c in chunks]
    if len(set(names)) != len(names):
        return f"the index lists a chunk twice: {sorted(x for x in names if names.count(x) > 1)[:2]}"
    for c in chunks:
        if only is not None and c["filename"] != only:
            continue
        f = chunk_fault(c, get(c["filename"]), comp)
        if f:
            return f"the index lists {c['filename']}, which {f if f != 'missing' else 'is missing'}"
    return None


class IndexWatch:
    """Checks at every change of an output location that a visible index is true."""

    def __init__(self, ctx, out):
        self.out, self.get = out, load(out)
        self.fault = None
        self.checked = 0
        if "://" in out:
            self.pre = out.split("://", 1)[1].rstrip("/") + "/"
            stubs.cloud().observers.append(lambda op, name: self.look(name) if op != "get" else None)
        else:
            self.pre = out.rstrip("/") + "/"
            ctx.fs.observers.append(lambda kind, path: self.look(path) if kind not in ("mkdir", "rmdir") else None)

    def look(self, name):
        if self.fault is not None or not name.startswith(self.pre):
            return
        rel = name[len(self.pre):]
        if rel == "index.json" or self.get("index.json") is None:
            only = None
        elif rel.endswith(".bin"):
            only = rel
        else:
            return
        self.checked += 1
        f = index_fault(self.out, self.get, only)
        if f:
            t = core.SIM.current()
            self.fault = f"{f} (seen after {t.proc.name if t else '?'} changed {rel} at {core.SIM.now - core.START_TIME:.3f} s)"

    def check(self):
        if self.fault:
            raise Violation("false-index", self.fault)


def read_back(ctx, out, host="reader", enc=None):
    """All samples of a dataset in storage order, through litdata itself (default schedule, a new process)."""
    box = {}

    def main():
        from litdata.streaming.dataset import StreamingDataset
        from litdata.streaming.resolver import Dir
        d = out
        if "://" in out:
            k = core.SIM.__dict__.setdefault("_reads", 0)
            core.SIM._reads = k + 1
            cache = ctx.path("readcache%d" % k)
            os.makedirs(cache, exist_ok=True)
            d = Dir(path=cache, url=out)
        ds = StreamingDataset(d, encryption=lib.encryption(enc))
        box["v"] = [ds[i] for i in range(len(ds))]
    p = ctx.spawn("reader", main, host=host)
    ctx.join([p])
    if "exc" in p.box:
        if "HarnessError" in p.box["tb"]:
            raise HarnessError(p.box["tb"])
        raise Violation("unreadable", f"reading {os.path.basename(out)} back failed: {p.box['tb'][-1500:]}")
    return box["v"]


def ids_of(values, w, salt, where=""):
    """[(input, position)] of the samples read back; each must be exactly one that was produced."""
    out = []
    for v in values:
        j = lib.check_value(v, w["kind"], w["base"], salt, None, where)
        out.append((j // K, j % K))
    return out


def compare(got, want, where=""):
    """`got` must consist of exactly the groups of `want`, each contiguous and in order."""
    flat = [x for g in want for x in g]
    seen, exp = {}, {}
    for x in got:
        seen[x] = seen.get(x, 0) + 1
    for x in flat:
        exp[x] = exp.get(x, 0) + 1
    lost = [x for x in flat if x not in seen]
    if lost:
        raise Violation("lost", f"{where}: {len(lost)} of {len(flat)} samples are missing, e.g. (input, position) {lost[:6]}")
    extra = [x for x in seen if x not in exp]
    if extra:
        raise Violation("unexpected", f"{where}: samples {extra[:6]} were never produced by this run")
    twice = [x for x in seen if seen[x] > exp[x]]
    if twice:
        raise Violation("duplicate", f"{where}: samples {twice[:6]} are there twice")
    pos = {x: p for p, x in enumerate(got)}
    for g in want:
        p = [pos[x] for x in g]
        if p != list(range(p[0], p[0] + len(g))):
            raise Violation("order", f"{where}: the samples {g[:6]} of one input are at positions {p[:8]}")
    return pos


def tree_of(proc):
    """proc and its descendants."""
    out = [proc]
    for q in core.SIM.procs:
        x = q
        while x is not None and x is not proc:
            x = x.parent
        if x is proc and q is not proc:
            out.append(q)
    return out


def kill_tree(proc):
    s = core.SIM
    t = s.current()
    me = None
    for q in tree_of(proc):
        if not q.alive:
            continue
        if t is not None and t.proc is q:
            me = q
            continue
        s.kill_proc(q)
    if me is not None:
        s.kill_proc(me)


class Crash:
    """Kills a whole node (its process and everything it started) at its k-th durable change."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.proc = None
        self.left = 0
        self.hit = False
        ctx.fs.observers.append(lambda kind, path: self.tick())
        if getattr(core.SIM, "cloud", None) is not None:
            stubs.cloud().observers.append(lambda op, name: self.tick() if op != "get" else None)

    def arm(self, proc, k):
        self.proc, self.left, self.hit = proc, k, False

    def tick(self):
        if self.proc is None or not self.proc.alive:
            return
        t = core.SIM.current()
        if t is None:
            return
        x = t.proc
        while x is not None and x is not self.proc:
            x = x.parent
        if x is None:
            return
        self.left -= 1
        if self.left <= 0:
            p, self.proc, self.hit = self.proc, None, True
            core.SIM.fired("node_crash")
            kill_tree(p)


def on_proc_start(sim, rules):
    """rules: [{"name": substring, "nth": k, "at": mutation count}] kills for processes litdata starts."""
    seen = {}

    def hook(proc):
        for r in rules:
            if r["name"] in proc.name and proc.parent is not None:
                k = id(r)
                seen[k] = seen.get(k, 0) + 1
                if seen[k] == r.get("nth", 1):
                    if "after" in r:
                        sim.call_later(r["after"], lambda: (sim.fired("proc_kill"), sim.kill_proc(proc)) if proc.alive else None, sim.driver)
                    else:
                        proc.kill_at = r["at"]
    sim.on_proc_start = hook
