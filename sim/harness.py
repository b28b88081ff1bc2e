"""Seeded search for one property: runs, failures, minimisation, replay files, evidence."""
from __future__ import annotations

import copy
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import time

from . import engine

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL = engine.REAL_TIME
WALL = 60.0


def scratch_dir(tag):
    """Always of the same length: paths are part of some of the files that are written."""
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    return os.path.join(base, f"litdst-{tag[:12]:_<12}-{os.getpid():07d}")


def known_file():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)


def scn_of(prop, mod, base_seed, i, tier):
    rng = random.Random(f"{prop}-{base_seed}-{i}")
    scn = mod.gen(rng, tier)
    scn["prop"] = prop
    scn["seed"] = base_seed * 1_000_003 + i
    scn.setdefault("faults", [])
    scn.setdefault("kills", [])
    scn.setdefault("sched", {"mode": "default"})
    return scn


class Check:
    def __init__(self, prop, tier, seed, jobs=None, budget=None, max_runs=None, quiet=False):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.mod = importlib.import_module("sim.props." + prop.lower())
        self.jobs = jobs or max(2, min(16, os.cpu_count() or 4))
        b = getattr(self.mod, "BUDGET", {})
        self.budget = budget if budget is not None else b.get(tier, {"quick": 25.0, "thorough": 600.0}[tier])
        self.max_runs = max_runs or {"quick": 6000, "thorough": 200_000}[tier]
        self.quiet = quiet
        self.t0 = REAL()
        self.agg = {"runs": 0, "sim_s": 0.0, "steps": 0, "faults": {}, "probes": {}, "stats": {}}
        self.ih = set()
        self.interesting = set()
        self.samples = []
        self.failures = []
        self.known_hits = {}
        self.errors = []
        self.info_sum = {}
        self.retry = []
        self.pool = engine.Pool(self.jobs, WALL, scratch_dir(prop))

    # ------------------------------------------------------------------ accounting
    def account(self, scn, res):
        a = self.agg
        a["runs"] += 1
        a["sim_s"] += res.get("sim_s", 0.0)
        a["steps"] += res.get("steps", 0)
        for k in ("faults", "probes", "stats"):
            for n, v in (res.get(k) or {}).items():
                a[k][n] = a[k].get(n, 0) + v
        for n, v in (res.get("info") or {}).items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.info_sum[n] = self.info_sum.get(n, 0) + v
        sw = (res.get("stats") or {}).get("switches", 0)
        key = (res.get("ihash"), res.get("hash"))
        self.ih.add(key)
        if sw >= 10 or res.get("faults"):
            self.interesting.add(key)
        if len(self.samples) < 3 and sw >= 10:
            self.samples.append({"seed": scn["seed"], "workload": scn["w"], "sched": scn["sched"], "faults": scn["faults"],
                                 "kills": scn.get("kills", []), "fired": res.get("faults"), "switches": sw,
                                 "steps": res.get("steps"), "sim_s": round(res.get("sim_s", 0), 3), "hash": res.get("hash")})

    def say(self, *a):
        if not self.quiet:
            print(*a, flush=True)

    # ------------------------------------------------------------------ running
    def handle(self, scn, tag, res):
        if res["verdict"] == "error":
            if tag != "retry" and res.get("cls") in ("wall", "crash"):
                self.retry.append(scn)
                return
            if tag == "retry" and res.get("cls") == "wall":
                res = dict(res, verdict="violation", cls="hang:wall",
                           detail="the real code ran for minutes without reaching any blocking call, twice")
            else:
                self.errors.append((scn, res))
                return
        self.account(scn, res)
        if res["verdict"] == "violation":
            k = self.match_known(scn, res)
            if k is not None:
                self.known_hits.setdefault(k["id"], []).append(scn["seed"])
            else:
                self.failures.append((scn, res))

    def match_known(self, scn, res):
        for k in self.known:
            # the function an exception left from may be renamed or split: only its type counts
            if res["cls"].split("@")[0] not in [c.split("@")[0] for c in k["cls"]]:
                continue
            if scn.get("known") == k["id"] or k.get("search"):
                return k
        return None

    def run(self):
        self.known = [k for k in known_file()["open"] if k["property"] == self.prop]
        pool = self.pool
        for k in self.known:
            for s in k["scenarios"]:
                scn = copy.deepcopy(s)
                scn.update(prop=self.prop, known=k["id"])
                scn.setdefault("faults", [])
                scn.setdefault("kills", [])
                scn.setdefault("seed", 0)
                while pool.full():
                    self.drain()
                pool.submit(scn, "known")
        directed = getattr(self.mod, "directed", None)
        nd = 0
        if directed is not None:
            for j, scn in enumerate(directed(self.tier)):
                scn.setdefault("faults", [])
                scn.setdefault("kills", [])
                scn.setdefault("sched", {"mode": "default"})
                scn.update(prop=self.prop, seed=-1 - j, directed=j)
                while pool.full():
                    self.drain()
                pool.submit(scn, "directed")
                nd += 1
        self.directed = nd
        i = 0
        t0 = REAL()
        while i < self.max_runs and not self.failures and (REAL() - t0 < self.budget or i < 60) and len(self.errors) < 5:
            while pool.full():
                self.drain()
            pool.submit(scn_of(self.prop, self.mod, self.seed, i, self.tier), i)
            i += 1
        self.submitted = i
        while pool.active:
            self.drain()
        while self.retry:
            scn = self.retry.pop()
            pool.wall = 150.0
            pool.submit(scn, "retry")
            while pool.active:
                self.drain()
            pool.wall = WALL
        self.search_wall = REAL() - t0
        if self.failures:
            return self.report()
        for k in self.known:
            if k["id"] in self.known_hits:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}", flush=True)
        self.determinism()
        if self.errors:
            scn, res = self.errors[0]
            print(f"HARNESS-ERROR property={self.prop} seed={scn['seed']} {res.get('cls')} {res.get('detail', '')[-2500:]}", flush=True)
            self.evidence(0)
            return 2
        self.evidence(0)
        self.say(f"OK property={self.prop} runs={self.agg['runs']} interleavings={len(self.ih)} "
                 f"sim_s={self.agg['sim_s']:.0f} wall={REAL() - self.t0:.1f}s")
        return 0

    def drain(self):
        for scn, tag, res in self.pool.poll():
            self.handle(scn, tag, res)

    def many(self, scns):
        """Runs scenarios in parallel; results in order."""
        out = [None] * len(scns)
        n = 0
        while n < len(scns) or self.pool.active:
            while n < len(scns) and not self.pool.full():
                self.pool.submit(scns[n], n)
                n += 1
            for s, tag, r in self.pool.poll():
                out[tag] = r
        return out

    def determinism(self):
        """Replays a few of the runs and compares the hash of the whole execution."""
        self.det = {"replayed": 0, "identical": 0}
        if REAL() - self.t0 > 300 and self.tier == "quick":
            return
        idx = [k for k in range(0, max(1, self.submitted), max(1, self.submitted // 4))][:4]
        scns = [scn_of(self.prop, self.mod, self.seed, k, self.tier) for k in idx]
        a = self.many(scns + copy.deepcopy(scns))
        h = len(scns)
        for x, y in zip(a[:h], a[h:]):
            self.det["replayed"] += 1
            self.det["identical"] += int(x.get("hash") == y.get("hash") and x["verdict"] == y["verdict"])

    # ------------------------------------------------------------------ failures
    def same_failure(self, res, cls):
        return res["verdict"] == "violation" and res["cls"] == cls

    def report(self):
        for scn, res in self.failures[:4]:
            if res["cls"] == "hang:wall":
                rep = dict(scn)
                path = self.write_replay(rep, res, scn, res, 0)
                print(f"VIOLATION property={self.prop} replay={path}", flush=True)
                self.evidence(1)
                return 1
            again = self.many([scn, copy.deepcopy(scn)])
            ok = all(self.same_failure(r, res["cls"]) for r in again)
            if not ok:
                self.errors.append((scn, dict(res, cls="nondeterministic", detail=f"{res['cls']} did not reproduce: "
                                              + ", ".join(r["verdict"] + ":" + r["cls"] for r in again))))
                continue
            try:
                m, mres, tries = self.minimise(scn, again[0])
            except Exception as e:  # noqa: BLE001
                self.say("minimisation failed", repr(e))
                m, mres, tries = scn, again[0], 0
            path = self.write_replay(m, mres, scn, res, tries)
            if not self.fresh_replay(path):
                m, mres = scn, again[0]
                path = self.write_replay(m, mres, scn, res, tries)
                self.fresh_replay(path)
            print(f"violated: {mres['cls']}: {mres['detail'][:1500]}", flush=True)
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            self.evidence(1)
            return 1
        scn, res = self.errors[0]
        print(f"HARNESS-ERROR property={self.prop} seed={scn['seed']} {res.get('cls')} {res.get('detail', '')[-2500:]}", flush=True)
        self.evidence(0)
        return 2

    def fresh_replay(self, path):
        r = subprocess.run([sys.executable, os.path.join(VERIF, "replay.py"), path, "--quiet"], cwd=VERIF,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        ok = r.returncode == 1
        if not ok:
            self.say("replay in a fresh interpreter gave", r.returncode, r.stdout[-500:])
        return ok

    def write_replay(self, m, mres, scn, res, tries):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{scn['seed']}.json")
        out = {"property": self.prop, "class": mres["cls"], "hash": mres.get("hash"), "detail": mres["detail"][:6000],
               "scenario": m, "original": {"seed": scn["seed"], "w": scn["w"], "sched": scn["sched"],
                                           "faults": scn["faults"], "kills": scn.get("kills", [])},
               "minimisation_runs": tries, "non_default_decisions": len(m["sched"].get("map", {})),
               "steps": mres.get("steps"), "task_excs": mres.get("task_excs")}
        with open(path, "w") as f:
            json.dump(out, f, indent=1)
        return path

    def minimise(self, scn, res):
        cls = res["cls"]
        limit = REAL() + getattr(self.mod, "MINIMISE_S", 60.0)
        tries = 0
        best, bres = copy.deepcopy(scn), res

        def attempt(cands):
            nonlocal tries
            rs = self.many(cands)
            tries += len(cands)
            for c, r in zip(cands, rs):
                if self.same_failure(r, cls):
                    return c, r
            return None

        # 1. faults and kills
        for key in ("faults", "kills"):
            while best.get(key) and REAL() < limit:
                cands = []
                for j in range(len(best[key])):
                    c = copy.deepcopy(best)
                    del c[key][j]
                    cands.append(c)
                got = attempt(cands)
                if not got:
                    break
                best, bres = got
        # 2. workload
        progress = True
        while progress and REAL() < limit:
            progress = False
            cands = list(self.shrinks(best))
            for b in range(0, len(cands), self.jobs * 2):
                if REAL() > limit:
                    break
                got = attempt(cands[b:b + self.jobs * 2])
                if got:
                    best, bres = got
                    progress = True
                    break
        # 3. the schedule becomes an explicit list of deviations from the default one, then shrinks
        s = dict(best["sched"])
        dec = dict(bres["decisions"])
        base = {"mode": "replay", "seed": s.get("seed", 0), "idseed": s.get("idseed", 0)}
        if any(k.startswith("L") for k in dec):
            base["line_p"] = 0.0

        def with_map(keys):
            c = copy.deepcopy(best)
            c["sched"] = dict(base, map={k: dec[k] for k in keys})
            return c
        keys = list(dec)
        got = attempt([with_map([]), with_map(keys)])
        if got:
            best, bres = got
            keys = list(best["sched"]["map"])
            parts = 2
            while keys and REAL() < limit:
                size = max(1, len(keys) // parts)
                chunks = [keys[k:k + size] for k in range(0, len(keys), size)]
                got = None
                for b in range(0, len(chunks), self.jobs):
                    if REAL() > limit:
                        break
                    cands = [with_map([k for k in keys if k not in set(ch)]) for ch in chunks[b:b + self.jobs]]
                    got = attempt(cands)
                    if got:
                        break
                if got:
                    best, bres = got
                    keys = list(best["sched"]["map"])
                    parts = max(2, parts - 1)
                elif size == 1:
                    break
                else:
                    parts = min(len(keys), parts * 2)
        return best, bres, tries

    LOWER = {"n": 1, "epochs": 1, "workers": 0, "ranks": 1, "batch": 1, "chunk_items": 1, "lat": 0, "base": 8, "pre": 1}

    def shrinks(self, scn):
        fn = getattr(self.mod, "shrink", None)
        if fn is not None:
            yield from fn(scn)
        w = scn["w"]
        for k, lo in self.LOWER.items():
            v = w.get(k)
            if isinstance(v, bool) or not isinstance(v, (int, float)) or v <= lo:
                continue
            for nv in sorted({lo, v // 2 if isinstance(v, int) else 0, v - 1 if isinstance(v, int) else 0}):
                if nv < lo or nv == v:
                    continue
                c = copy.deepcopy(scn)
                c["w"][k] = nv
                if k == "workers" and nv == 0:
                    c["w"]["prefetch"] = None
                    c["w"]["persistent"] = False
                if k == "ranks":
                    c["w"]["nodes"] = min(c["w"].get("nodes", 1), nv)
                    if nv % c["w"]["nodes"]:
                        continue
                yield c
        for k, v in (("compression", None), ("shuffle", False), ("remote", "dir"), ("persistent", False), ("prefetch", None)):
            if k in w and w[k] != v and not (k == "remote" and w[k] in ("none", "dir")):
                c = copy.deepcopy(scn)
                c["w"][k] = v
                yield c

    # ------------------------------------------------------------------ evidence
    def evidence(self, violations):
        a = self.agg
        wall = REAL() - self.t0
        cov = {
            "evaluations": a["runs"],
            "distinct_nontrivial": len(self.interesting),
            "rule": "one evaluation is one whole simulated execution (workload, schedule, faults drawn from the seed); it is "
                    "distinct by the hash of its complete sequence of scheduling decisions and seam events, and non-trivial "
                    "when at least 10 task switches happened or a fault fired",
            "samples": self.samples or [{"note": "no run had 10 task switches"}],
            "runs_per_hour": round(a["runs"] / max(self.search_wall, 1e-9) * 3600),
            "seeds": {"base": self.seed, "searched": self.submitted, "directed": self.directed},
            "distinct_interleavings": len(self.ih),
            "distinct_switch_sequences": len({k[0] for k in self.ih}),
            "simulated_seconds": round(a["sim_s"], 1),
            "scheduler_steps": a["steps"],
            "scheduler": a["stats"],
            "faults_fired": a["faults"],
            "probes": a["probes"],
            "workload_counts": self.info_sum,
            "determinism_replays": getattr(self, "det", None),
            "known_findings_seen": {k: len(v) for k, v in self.known_hits.items()},
            "real_code": "all of src/litdata (unmodified, imported from /repo), torch DataLoader worker and pin loops, "
                         "json/pickle/numpy/zstd, the kernel's file contents and flock on a scratch directory",
            "stubbed": "thread and process start, locks, conditions, queues, sleep and clocks (simulator); filelock.FileLock "
                       "(same flock protocol); boto3 / google-cloud-storage clients and HTTP (in-memory servers); process ids",
        }
        extra = getattr(self.mod, "EVIDENCE", None)
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": ["worker processes are modelled as spawned, not forked",
                              "preemption happens at seam calls (I/O, locks, queues, clock) and, in a share of the runs, "
                              "between source lines of litdata; torn reads inside one bytecode are not modelled"],
              "wall_s": round(wall, 2), "violations": violations}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, f".{self.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        os.replace(tmp, os.path.join(d, f"{self.prop}.json"))
