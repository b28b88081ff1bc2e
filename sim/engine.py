"""Loads litdata under the shims and runs one scenario in a forked child."""
from __future__ import annotations

import gc
import json
import logging
import os
import random
import select
import signal
import struct
import sys
import threading
import time
import traceback
import warnings

from . import core, shims, fs as simfs, mp as simmp
from .core import Sim, Violation, HarnessError

REAL_TIME = time.time
REPO = "/repo"
_globals_registry = []
_line_codes = []
_preloaded = False


def preload():
    global _preloaded, _globals_registry
    if _preloaded:
        return
    _preloaded = True
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("MKL_NUM_THREADS", "1")
    os.environ["HF_HUB_OFFLINE"] = "1"
    os.environ["AWS_EC2_METADATA_DISABLED"] = "true"
    os.environ["CUDA_VISIBLE_DEVICES"] = ""
    os.environ["POLARS_MAX_THREADS"] = "1"
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    shims.install()
    simfs.install()
    simmp.install()
    from . import locks
    locks.install()
    import numpy  # noqa: F401
    import torch
    import torch.utils.data
    torch.set_num_threads(1)
    _globals_registry = simmp.install_torch()
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    import tqdm.auto

    class Bar:
        """A progress bar without display, threads and process-wide locks."""

        def __init__(self, iterable=None, **kw):
            self.iterable = iterable

        def __iter__(self):
            return iter(self.iterable)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def update(self, n=1):
            pass

        set_description = set_postfix = refresh = update

        def close(self):
            pass

    tqdm.tqdm = tqdm.auto.tqdm = Bar
    import requests
    import boto3, botocore  # noqa: F401
    import zstd  # noqa: F401
    import torch.distributed  # noqa: F401
    import importlib
    import pkgutil
    import litdata
    if not litdata.__file__.startswith(REPO + "/src/"):
        raise HarnessError("litdata imported from " + litdata.__file__)
    for m in pkgutil.walk_packages(litdata.__path__, "litdata."):
        if m.name.endswith("__main__") or ".cli" in m.name:
            continue
        importlib.import_module(m.name)
    from . import stubs
    stubs.install()
    logging.disable(logging.CRITICAL)
    _collect_line_codes()
    # warm up lazily imported modules so that no import happens inside a simulation
    for name in ("concurrent.futures.thread", "asyncio", "pickle", "encodings.idna", "multiprocessing.connection",
                 "torch.utils.data.graph_settings", "numpy.random", "filelock", "glob", "fnmatch", "html", "tempfile",
                 "numpy.core.memmap", "numpy.lib.format", "unittest.mock", "torch.utils.data._utils.fetch",
                 "litdata.utilities.encryption", "torch._utils", "inspect", "multiprocessing.spawn", "secrets"):
        try:
            importlib.import_module(name)
        except Exception:
            pass
    try:
        import pyarrow.parquet  # noqa: F401
        import polars  # noqa: F401
    except Exception:
        pass
    gc.collect()
    gc.freeze()


def _collect_line_codes():
    import types
    seen = set()

    def walk(code):
        if code in seen:
            return
        seen.add(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)

    base = os.path.join(REPO, "src", "litdata")
    parts = ("streaming/reader", "streaming/config", "streaming/item_loader", "streaming/downloader",
             "streaming/writer", "streaming/cache", "streaming/client", "processing/data_processor",
             "processing/functions", "utilities/parquet", "utilities/dataset_utilities", "streaming/dataset",
             "utilities/broadcast", "streaming/fs_provider", "processing/utilities")
    for name, mod in list(sys.modules.items()):
        f = getattr(mod, "__file__", None)
        if not name.startswith("litdata") or f is None or not any(p in f for p in parts):
            continue
        for obj in list(vars(mod).values()):
            if isinstance(obj, types.FunctionType) and obj.__code__.co_filename.startswith(base):
                walk(obj.__code__)
            elif isinstance(obj, type):
                for m in list(vars(obj).values()):
                    m = getattr(m, "fget", None) or getattr(m, "__func__", None) or m
                    if isinstance(m, types.FunctionType) and m.__code__.co_filename.startswith(base):
                        walk(m.__code__)
    _line_codes.extend(sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name)))


def _enable_line_events(sim):
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "litdst")

    def cb(code, line):
        sim.line_point()

    mon.register_callback(tool, mon.events.LINE, cb)
    for c in _line_codes:
        mon.set_local_events(tool, c, mon.events.LINE)


class Ctx:
    """What a property's scenario sees."""

    def __init__(self, scn, sim, root):
        self.scn = scn
        self.w = scn["w"]
        self.sim = sim
        self.fs = sim.fs
        self.root = root
        self.rec = {}
        self.samples = {}

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def arm(self):
        """From here on the adversarial schedule and the faults apply."""
        self.sim.mode = self.armed_mode
        self.fs.faults = self.pending_faults
        self.sim.armed_at = self.sim.now

    def arm_schedule(self):
        """The adversarial schedule without any fault."""
        self.sim.mode = self.armed_mode
        self.fs.faults = []

    def disarm(self):
        self.sim.mode = "default" if self.armed_mode != "replay" else "replay"
        self.fs.faults = []

    def violation(self, cls, detail=""):
        raise Violation(cls, detail)

    def spawn(self, name, fn, *args, env=None, host=None):
        sim = self.sim
        cur = sim.current().proc
        e = dict(cur.env)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        proc = sim.new_proc(name, env=e, parent=cur, host=host)
        box = {}
        proc.box = box

        def body():
            try:
                box["value"] = fn(*args)
                box["ok"] = True
            except Exception as ex:
                box["exc"] = ex
                box["tb"] = traceback.format_exc()
                raise

        for k in self.scn.get("kills", []):
            if k["proc"] == name:
                proc.kill_at = k["at"]
        sim.start_proc(proc, body)
        return proc

    def join(self, procs, timeout=None):
        for p in procs:
            self.sim.join_proc(p, timeout)


def classify_exc(e, tb_text=None):
    """(harness?, class string) for an exception that escaped."""
    import traceback as tbm
    seen = []
    x = e
    frames = []
    while x is not None and x not in seen:
        seen.append(x)
        frames = tbm.extract_tb(x.__traceback__)
        x = x.__cause__ or x.__context__
    if isinstance(e, HarnessError):
        return True, "harness"
    fr = tbm.extract_tb(e.__traceback__)
    inner = fr[-1] if fr else None
    if inner is not None and inner.filename.startswith(os.path.dirname(os.path.abspath(__file__)) + os.sep) and not isinstance(e, OSError):
        if "/sim/props/" in inner.filename or "/sim/lib" in inner.filename:
            return True, "harness"
    return False, "exception:%s" % type(e).__name__


def run_scenario(scn, root, want_log=False):
    """Runs in the forked child. Returns a JSON-able result."""
    from . import props
    import importlib
    mod = importlib.import_module("sim.props." + scn["prop"].lower())
    sched = scn.get("sched", {})
    sim = Sim(sched, max_steps=getattr(mod, "MAX_STEPS", 400_000), max_time=getattr(mod, "MAX_TIME", 3600.0),
              swap_rng=getattr(mod, "SWAP_RNG", False))
    sim.globals_registry = list(_globals_registry)
    if want_log:
        sim.log = []
    os.makedirs(root, exist_ok=True)
    for d in ("cwd", "tmp", "home"):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    os.chdir(os.path.join(root, "cwd"))
    import tempfile
    tempfile.tempdir = os.path.join(root, "tmp")
    f = simfs.FS(sim, root)
    sim.fs = f
    f.chunk = scn.get("io_chunk", 256)
    if scn.get("list_seed") is not None:
        f.list_rng = random.Random(scn["list_seed"])
    simfs.R["getcwd"] = lambda: os.path.join(root, "cwd")
    ctx = Ctx(scn, sim, root)
    ctx.armed_mode = sim.mode
    if sim.mode != "replay":
        sim.mode = "default"
    ctx.pending_faults = [dict(x) for x in scn.get("faults", [])]
    random.seed(scn.get("seed", 0))
    import numpy as np
    import torch
    np.random.seed(scn.get("seed", 0) % (2**32))
    torch.manual_seed(scn.get("seed", 0))
    if sched.get("line_p") or any(str(k).startswith("L") for k in sched.get("map", {})):
        _enable_line_events(sim)
    env = {"HOME": os.path.join(root, "home"), "PATH": "/usr/bin:/bin", "TMPDIR": os.path.join(root, "tmp"),
           "DATA_OPTIMIZER_CACHE_FOLDER": os.path.join(root, "opt", "cache"),
           "DATA_OPTIMIZER_DATA_CACHE_FOLDER": os.path.join(root, "opt", "data"),
           "AWS_EC2_METADATA_DISABLED": "true", "HF_HUB_OFFLINE": "1"}
    gc.disable()
    if scn.get("warm_cpu"):
        pass
    res = sim.run(lambda: mod.run(ctx), env=env, wall=None)
    out = {"outcome": sim.outcome, "steps": sim.steps, "sim_s": sim.now - core.START_TIME,
           "faults": sim.faults_fired, "probes": sim.probes, "stats": sim.stats,
           "hash": "%016x" % sim.hash, "ihash": "%016x" % sim.ihash, "verdict": "ok", "cls": "", "detail": "",
           "decisions": {str(k): v for k, v in sim.decisions.items()}, "info": ctx.rec}
    if want_log:
        out["log"] = sim.log
    if sim.harness_exc:
        out.update(verdict="error", detail=sim.harness_exc)
        return out
    if f.escapes:
        out["escapes"] = f.escapes[:5]
    if sim.outcome == "done":
        if "violation" in res:
            v = res["violation"]
            out.update(verdict="violation", cls=v.cls, detail=v.detail)
        elif "exc" in res:
            harness, cls = classify_exc(res["exc"])
            if harness:
                out.update(verdict="error", cls=cls, detail=res["tb"])
            else:
                out.update(verdict="violation", cls=cls, detail=res["tb"][-3000:])
        else:
            for (t, p, e, tb) in sim.task_excs:
                if "HarnessError" in e:
                    out.update(verdict="error", detail=tb)
    else:
        hang = getattr(mod, "on_hang", None)
        detail = "\n".join(sim.stack_dump or [])
        for p in sim.procs:   # an error that is waiting for the exit of child processes
            if getattr(p, "exc_tb", None):
                detail += f"\n{p.name} ended with: {p.exc_tb[-1500:]}"
            elif getattr(p, "box", None) and "tb" in p.box:
                detail += f"\n{p.name} failed with: {p.box['tb'][-1500:]}"
        for (t, p, e, tb) in sim.task_excs:
            if "HarnessError" in e:
                out.update(verdict="error", detail=tb)
                return out
        if hang is not None:
            r = hang(ctx, sim.outcome)
            if r is not None:
                out.update(verdict="violation", cls=r, detail=detail)
        else:
            out.update(verdict="violation", cls="hang:" + sim.outcome, detail=detail)
    out["task_excs"] = [(a, b, c) for a, b, c, d in sim.task_excs][:6]
    if sim.task_excs and out["verdict"] == "violation":
        out["detail"] += "\n--- exceptions in tasks:\n" + "\n".join(x[3][-1500:] for x in sim.task_excs[:3])
    return out


def child_main(scn, root, wfd, want_log):
    try:
        devnull = os.open("/dev/null", os.O_WRONLY)
        if not os.environ.get("SIM_VERBOSE"):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        try:
            res = run_scenario(scn, root, want_log)
        except BaseException:  # noqa: BLE001
            res = {"outcome": "crash", "verdict": "error", "detail": traceback.format_exc(), "cls": "harness"}
        core.SIM = None
        data = json.dumps(res, default=repr).encode()
    except BaseException as e:  # noqa: BLE001
        data = json.dumps({"outcome": "crash", "verdict": "error", "detail": repr(e), "cls": "harness"}).encode()
    try:
        off = 0
        while off < len(data):
            off += os.write(wfd, data[off:])
    finally:
        shims._real["_exit"](0)


class Pool:
    """Forks one child per scenario from this preloaded process."""

    def __init__(self, jobs, wall, scratch):
        self.jobs = jobs
        self.wall = wall
        self.scratch = scratch
        self.active = {}  # rfd -> [pid, scn, tag, t0, bytearray, root]
        self.n = 0
        os.makedirs(scratch, exist_ok=True)

    def submit(self, scn, tag=None, want_log=False):
        self.n += 1
        root = os.path.join(self.scratch, "r%06d" % self.n)
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in self.active:
                try:
                    os.close(fd)
                except OSError:
                    pass
            child_main(scn, root, w, want_log)
        os.close(w)
        self.active[r] = [pid, scn, tag, REAL_TIME(), bytearray(), root]

    def full(self):
        return len(self.active) >= self.jobs

    def poll(self, timeout=0.2):
        """Yields (scn, tag, result) for finished children."""
        done = []
        if not self.active:
            return done
        rl, _, _ = select.select(list(self.active), [], [], timeout)
        for fd in rl:
            data = os.read(fd, 1 << 20)
            a = self.active[fd]
            if data:
                a[4].extend(data)
            else:
                done.append(self._reap(fd, None))
        now = REAL_TIME()
        for fd in list(self.active):
            a = self.active[fd]
            if now - a[3] > self.wall:
                try:
                    os.kill(a[0], signal.SIGKILL)
                except ProcessLookupError:
                    pass
                done.append(self._reap(fd, "wall"))
        return done

    def _reap(self, fd, why):
        pid, scn, tag, t0, buf, root = self.active.pop(fd)
        os.close(fd)
        _, st = os.waitpid(pid, 0)
        import shutil
        shutil.rmtree(root, ignore_errors=True)
        if why == "wall":
            res = {"outcome": "wall", "verdict": "error", "cls": "wall", "detail": "wall clock limit"}
        else:
            try:
                res = json.loads(bytes(buf))
            except ValueError:
                res = {"outcome": "crash", "verdict": "error", "cls": "crash",
                       "detail": f"child died with status {st}, {len(buf)} bytes"}
        res["wall"] = REAL_TIME() - t0
        return scn, tag, res

    def run_one(self, scn, want_log=False):
        self.submit(scn, "one", want_log)
        while True:
            for s, t, r in self.poll(0.5):
                return r

    def close(self):
        for fd in list(self.active):
            try:
                os.kill(self.active[fd][0], signal.SIGKILL)
            except ProcessLookupError:
                pass
            self._reap(fd, "wall")
        import shutil
        shutil.rmtree(self.scratch, ignore_errors=True)
