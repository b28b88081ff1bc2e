"""C14: an optimize with checkpoints, killed at any point and started again, ends with exactly the samples of an uninterrupted run."""
import json
import os

from .. import core, lib, plib, stubs, fs as simfs
from ..core import Violation

SWAP_RNG = True
MAX_TIME = 1800.0
MAX_STEPS = 2_500_000


def gen(rng, tier):
    w = plib.gen(rng, n=rng.choice([1, 2, 3, 5, 6, 8, 9, 12, 17]), outs=rng.choice(["one", "one", "some", "some"]),
                 chunk_size=rng.choice([1, 1, 2, 2, 3, 4]), workers=rng.choice([0, 1, 1, 2, 2, 3]))
    w["page"] = rng.choice([1, 2, 3, 1000])
    w["mode"] = rng.choice([None, None, None, "append", "append", "overwrite"])
    w["cwd_config"] = rng.random() < 0.3
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = {}
        x = rng.random()
        if x < 0.6:
            r["crash"] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 17, 20, 25, 30, 36, 45, 60])
        elif x < 0.75:
            r["fail"] = rng.randrange(w["n"])
        elif x < 0.92:
            r["rule"] = {"name": rng.choice(["DataWorkerProcess", "DataWorkerProcess", "_upload_fn"]), "nth": rng.choice([1, 1, 2])}
            if rng.random() < 0.5:
                r["rule"]["at"] = rng.choice([1, 2, 3, 4, 6, 9, 14])
            else:
                r["rule"]["after"] = rng.choice([0.01, 0.05, 0.1, 0.2, 0.5])
        else:
            r["faulty"] = True
        runs.append(r)
    w["runs"] = runs
    faults = []
    if any(r.get("faulty") for r in runs):
        if w["out"] == "dir":
            f = {"op": rng.choice(["create", "write", "write", "rename", "open"]), "cls": rng.choice(["out", "out", "chunks"]), "nth": rng.randrange(1, 16),
                 "effect": rng.choice(["EIO", "ENOSPC", "short_ENOSPC", "EACCES"])}
            if f["op"] != "write" and f["effect"] == "short_ENOSPC":
                f["effect"] = "ENOSPC"
        else:
            f = {"op": rng.choice(["s3.put", "s3.put", "s3.list", "s3.get"]), "nth": rng.randrange(1, 10),
                 "effect": rng.choice(["cloud_500", "cloud_503", "cloud_conn"])}
        faults.append(f)
    if rng.random() < 0.15:
        w["nodes"] = 2
        w["late"] = [rng.choice([0, 0, 0.3]), rng.choice([0, 0.3])]
    return {"w": w, "sched": lib.gen_sched(rng), "faults": faults, "io_chunk": rng.choice([64, 256, 4096]), "list_seed": rng.randrange(1000)}


class CheckpointWatch:
    """Every visible checkpoint refers only to chunks which are there in full."""

    def __init__(self, ctx, out):
        self.out, self.get, self.fault, self.n = out, plib.load(out), None, 0
        if "://" in out:
            self.pre = out.split("://", 1)[1].rstrip("/") + "/"
            stubs.cloud().observers.append(lambda op, name: self.look(name) if op == "put" else None)
        else:
            self.pre = out.rstrip("/") + "/"
            ctx.fs.observers.append(lambda kind, path: self.look(path) if kind in ("write", "create", "rename") else None)

    def look(self, name):
        if self.fault or not name.startswith(self.pre + ".checkpoints/checkpoint-") or not name.endswith(".json"):
            return
        raw = self.get(name[len(self.pre):])
        if raw is None:
            return
        self.n += 1
        rel = name[len(self.pre):]
        try:
            c = json.loads(raw)
            comp = c["config"]["compression"]
            for info in c["chunks"]:
                f = plib.chunk_fault(info, self.get(info["filename"]), comp)
                if f:
                    self.fault = f"{rel} lists {info['filename']}, which {f}"
                    return
        except Exception as e:  # noqa: BLE001
            self.fault = f"{rel} is not readable: {len(raw)} bytes, {e!r:.80}"

    def check(self):
        if self.fault:
            raise Violation("false-checkpoint", self.fault)


def run(ctx):
    w = ctx.w
    first = None
    if w["mode"] == "append":
        first = plib.Job(ctx, dict(w, nodes=1, src="values"), tag="a", ids=[i + 40 for i in range(3)])
        while not plib.expected(first.w, first.ids):
            first.ids.append(first.ids[-1] + 1)
        first.make_inputs()
    job = plib.Job(ctx, w, tag="b").make_inputs()
    job.classes()
    job.set_latency()
    out = job.out_arg()
    if "://" in out:
        stubs.cloud().page = w["page"]
    if w["cwd_config"]:       # the user's own config.json, in the folder they start from
        with simfs.R["open"](simfs.R["getcwd"]() + "/config.json", "w") as f:
            f.write('{"lr": 1}')
    watch, cwatch = plib.IndexWatch(ctx, out), CheckpointWatch(ctx, out)
    crash = plib.Crash(ctx)
    old = []
    if first is not None:
        first.run(out)
        first.raise_errors()
        old = plib.ids_of(plib.read_back(ctx, out), w, w["salt"])
    old_index = plib.load(out)("index.json")
    done, attempts = False, 0
    for r in w["runs"] + [None]:
        attempts += 1
        plib.clear_broadcast(core.SIM)
        r = r or {}
        w2 = dict(w)
        if r.get("fail") is not None:
            w2["fail"] = job.ids[r["fail"]]
        job.w = w2
        fired = sum(core.SIM.faults_fired.values())
        if r.get("rule"):
            plib.on_proc_start(core.SIM, [dict(r["rule"])])
        if r:
            ctx.arm()
        else:
            ctx.arm_schedule()
        job.start(out, mode=w["mode"], use_checkpoint=True)
        if r.get("crash"):
            crash.arm(job.procs[-1 if attempts % 2 else 0], r["crash"])
        stuck = w["nodes"] > 1 and r
        job.join(120 if stuck else None)
        crash.arm(None, 0)
        core.SIM.on_proc_start = None
        for p in job.procs:
            if p.alive and stuck:
                plib.kill_tree(p)
        if r:
            core.SIM.sleep(30)
            for q in core.SIM.procs:
                if q.alive and q.parent is not None and q is not core.SIM.driver:
                    core.SIM.kill_proc(q)
        ctx.disarm()
        watch.check()
        cwatch.check()
        errs = job.errors()
        if core.SIM.fn_violations:
            raise core.SIM.fn_violations[0]
        now = plib.load(out)("index.json")
        if now is not None and now != old_index:
            done = True       # complete, whatever became of the call
            break
        if not errs:
            raise Violation("no-index", f"attempt {attempts} returned without an index")
        if sum(core.SIM.faults_fired.values()) == fired and not crash.hit and not r.get("fail") is not None:
            job.raise_errors()
        crash.hit = False
    if not done:
        raise Violation("never-done", "the last run, without any fault, left no index")
    got = plib.ids_of(plib.read_back(ctx, out), w, w["salt"], "read back")
    if got[:len(old)] != old:
        raise Violation("lost", "the samples appended to have changed")
    plib.compare(got[len(old):], plib.expected(w), f"after {attempts} attempts")
    ctx.rec["attempts"] = attempts
    ctx.rec["checkpoints"] = cwatch.n
    core.SIM.probes["checkpoints_checked"] = cwatch.n
    core.SIM.probes["attempts"] = attempts


def on_hang(ctx, outcome):
    if ctx.w["nodes"] > 1 and core.SIM.faults_fired:
        return None
    return "hang:" + outcome
