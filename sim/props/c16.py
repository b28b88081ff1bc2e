"""C16: processing ends with an error, in bounded time, when a worker, an input or an upload failed."""
from .. import core, lib, plib
from ..core import Violation
from . import c12, c17

SWAP_RNG = True
MAX_TIME = 600.0
MAX_STEPS = 1_500_000

WHAT = ["fn", "fn", "fn_exit", "worker", "worker", "downloader", "uploader", "remover", "input", "input", "upload", "upload", "upload"]


def gen(rng, tier):
    kind = rng.choice(["optimize", "optimize", "map"])
    w = plib.gen(rng, map=kind == "map")
    w["job"] = kind
    what = rng.choice(WHAT)
    if what in ("input", "downloader") and w["src"] in ("values", "pairs"):
        w["src"] = rng.choice(["copy", "s3"])
    w["what"] = what
    w = plib.legal(w)
    faults, rules = [], []
    if what == "fn":
        w["fail"] = rng.randrange(w["n"])
    elif what == "fn_exit":
        w["fail"] = rng.randrange(w["n"])
        w["fail_exit"] = rng.choice([0, 1, 3])
    elif what in ("worker", "downloader", "uploader", "remover"):
        name = {"worker": "DataWorkerProcess", "downloader": "_download_data_target", "uploader": "_upload_fn", "remover": "_remove_target"}[what]
        for _ in range(rng.choice([1, 1, 2])):
            r = {"name": name, "nth": rng.choice([1, 1, 2, 3])}
            if rng.random() < 0.5:
                r["at"] = rng.choice([1, 2, 3, 4, 6, 9, 14])
            else:
                r["after"] = rng.choice([0.0, 0.001, 0.01, 0.05, 0.1, 0.2, 0.5, 1.0])
            rules.append(r)
    elif what == "input":
        if w["src"] == "s3":
            faults.append({"op": rng.choice(["s3.get", "s3.get", "s3.client"]), "nth": rng.choice([1, 1, 2, 3, 5]), "count": rng.choice([1, 1, 2, 99]),
                           "effect": rng.choice(["cloud_500", "cloud_503", "cloud_conn", "cloud_partial"])})
            if faults[0]["op"] == "s3.client":
                faults[0]["effect"] = "cloud_500"
        else:
            faults.append({"op": rng.choice(["open", "read"]), "cls": "input", "proc": "_download", "nth": rng.choice([1, 1, 2, 3, 5]), "count": rng.choice([1, 1, 99]),
                           "effect": rng.choice(["EIO", "EACCES"])})
        if rng.random() < 0.3:
            faults.append({"op": rng.choice(["create", "write", "rename"]), "cls": "data", "nth": rng.choice([1, 1, 2, 3, 5]),
                           "effect": rng.choice(["EIO", "ENOSPC", "short_ENOSPC"])})
    elif what == "upload":
        if w["out"] == "dir":
            faults.append({"op": rng.choice(["create", "write", "write", "rename", "mkdir"]), "cls": "out", "nth": rng.choice([1, 1, 2, 3, 5, 8]),
                           "count": rng.choice([1, 1, 2, 99]), "effect": rng.choice(["EIO", "ENOSPC", "short_ENOSPC", "EACCES"])})
        else:
            faults.append({"op": "s3.put", "nth": rng.choice([1, 1, 2, 3, 5, 8]), "count": rng.choice([1, 1, 2, 99]),
                           "effect": rng.choice(["cloud_500", "cloud_503", "cloud_conn", "cloud_after"])})
        if rng.random() < 0.3:
            faults.append({"op": rng.choice(["create", "write"]), "cls": "chunks", "nth": rng.choice([1, 1, 2, 3, 5]),
                           "effect": rng.choice(["EIO", "ENOSPC", "short_ENOSPC"])})
    for f in faults:
        if f["op"] != "write" and f["effect"] == "short_ENOSPC":
            f["effect"] = "ENOSPC"
    return {"w": w, "sched": lib.gen_sched(rng), "faults": faults, "rules": rules, "io_chunk": rng.choice([64, 256, 4096]), "list_seed": rng.randrange(1000)}


def run(ctx):
    w = ctx.w
    job = plib.Job(ctx, w, kind=w["job"]).make_inputs()
    out = job.out_arg()
    job.set_latency()
    job.classes()
    plib.on_proc_start(core.SIM, [dict(r) for r in ctx.scn["rules"]])
    ctx.arm()
    t0 = core.SIM.now
    job.run()
    core.SIM.on_proc_start = None
    ctx.disarm()
    took = core.SIM.now - t0
    errs = job.errors()
    ctx.rec["errors"] = len(errs)
    if errs:
        e = errs[0][1]
        if isinstance(e, str):
            raise Violation("no-return:" + e, "the node neither returned nor raised")
        if took > 300:
            raise Violation("slow", f"the error took {took:.0f} s")
        if not core.SIM.faults_fired:
            raise Violation("error:" + lib.exc_site(e), "nothing failed but: " + errs[0][2][-2500:])
        return
    # it returned: then everything must be there
    try:
        (c17 if w["job"] == "map" else c12).judge(ctx, job, out)
    except Violation as v:
        raise Violation("false-success:" + v.cls, v.detail) from v
    if w.get("fail") is not None:
        raise Violation("false-success:fn", "the user function failed but the call returned")
