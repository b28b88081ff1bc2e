"""C23: every node gets the value of the first one through the shared service, or an error."""
from .. import core, lib, stubs
from ..core import Violation

MAX_TIME = 5000.0
MAX_STEPS = 300_000
SWAP_RNG = True

TEXTS = ["s3://bucket/data", "/data/été", "gs://b/日本", "line\nbreak", "back\\slash", "q'\"", "", "emoji 😀", "nul\x00", "%41"]


def make(rng, depth=0):
    """JSON description of an object; `build` makes it."""
    k = rng.choice(["text", "text", "int", "bytes", "dir", "bool", "float"] + (["list", "dict"] if depth < 2 else []))
    if k == "text":
        return ["text", rng.choice(TEXTS)]
    if k == "int":
        return ["int", rng.choice([0, 1, -1, 255, 1 << 40, 1 << 80])]
    if k == "bytes":
        return ["bytes", [rng.randrange(256) for _ in range(rng.choice([0, 1, 5]))]]
    if k == "bool":
        return ["bool", rng.random() < 0.5]
    if k == "float":
        return ["float", rng.choice([0.0, 1.5, -2.25e300])]
    if k == "dir":
        return ["dir", [rng.choice(TEXTS), rng.choice([None] + TEXTS)]]
    if k == "list":
        return ["list", [make(rng, depth + 1) for _ in range(rng.choice([0, 1, 3]))]]
    return ["dict", [[rng.choice(TEXTS), make(rng, depth + 1)] for _ in range(rng.choice([0, 1, 2]))]]


def build(d):
    k, v = d
    if k == "bytes":
        return bytes(v)
    if k == "dir":
        from litdata.streaming.resolver import Dir
        return Dir(path=v[0], url=v[1])
    if k == "list":
        return [build(x) for x in v]
    if k == "dict":
        return {a: build(x) for a, x in v}
    return v


def gen(rng, tier):
    nodes = rng.choice([1, 2, 2, 3, 5, 8])
    keys = rng.sample(["input_dir", "output_dir", "a", "b/c", "ü"], rng.choice([1, 1, 2, 3]))
    w = {
        "nodes": nodes,
        "calls": [[k, [make(rng) for _ in range(nodes)]] for k in keys],
        "late": [rng.choice([0, 0, 0.5, 4.0, 40.0]) for _ in range(nodes)],
        "lat": rng.choice([0, 0.01, 0.5, 5.0]),
        "token": rng.choice([None, None, "good", "good", "bad"]),
        "state_url": rng.random() < 0.93,
        "base": rng.choice(["http://ext", "https://ext/", "https://ext:8443"]),
        "down": [],
    }
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        # host: which address; node: whose requests; from/until: window of its requests (per node and address)
        a = rng.choice([0, 0, 1, 2, 4])
        w["down"].append({"host": rng.choice(["ext", "ext", "int", "both"]), "node": rng.choice([None, None, rng.randrange(nodes)]), "from": a,
                          "until": a + rng.choice([1, 1, 2, 10 ** 6]),
                          "how": rng.choice(["refused", "refused", "lost", "500", "503", "404", "black", "slow", "garbage", "empty", "204"])})
    return {"w": w, "sched": lib.gen_sched(rng, lines=False), "faults": []}


class Service:
    """The shared service: the value of the first node becomes the value of the key."""

    def __init__(self, ctx):
        self.w, self.vals, self.count = ctx.w, {}, {}
        self.hit = {}        # node -> kinds of failures it met
        self.fatal = {}      # node -> the failure which can't be survived
        self.requests = 0
        import random
        self.rng = random.Random(repr(("http", ctx.scn.get("seed", 0))))

    def __call__(self, method, url, kw):
        import requests
        s, w = core.SIM, self.w
        self.requests += 1
        host = url.split("//", 1)[1].split("/")[0].split(":")[0]
        node = int(s.current().proc.env.get("GLOBAL_NODE", 0))
        if w["lat"]:
            s.sleep(w["lat"] * self.rng.random())
        if host == "cloud":
            assert method == "POST" and url.endswith("/v1/auth/login"), url
            if kw["json"] != {"apiKey": "key", "username": "user"}:
                raise Violation("login", f"the login sent {kw['json']}")
            return stubs.Resp(200, {"token": "tok"} if w["token"] == "good" else {"error": "no"})
        if method != "POST" or not url.endswith("/broadcast") or host not in ("ext", "int"):
            raise Violation("request", f"{method} {url}")
        if w["token"] == "good" and kw["headers"].get("Authorization") != "Bearer tok":
            raise Violation("request", f"unauthorised: {kw['headers']}")
        k = self.count.get((node, host), 0)
        self.count[(node, host)] = k + 1
        how = next((d["how"] for d in w["down"] if d["host"] in (host, "both") and d["node"] in (None, node) and d["from"] <= k < d["until"]), None)
        if how is not None:
            self.hit.setdefault(node, []).append((host, how))
            core.SIM.faults_fired["http_" + how] = core.SIM.faults_fired.get("http_" + how, 0) + 1
        if how == "refused":
            raise requests.exceptions.ConnectionError("refused")
        if how in ("500", "503", "404"):
            return stubs.Resp(int(how), {"detail": "down"})
        if how == "black":
            return stubs.BLACK_HOLE
        js = kw["json"]
        if set(js) != {"key", "value", "rank"}:
            raise Violation("request", f"payload {js}")
        if js["rank"] == "0" and js["key"] not in self.vals:
            self.vals[js["key"]] = js["value"]
        if how == "lost":       # the service has taken the value, but the answer doesn't arrive
            raise requests.exceptions.ConnectionError("reset")
        if how == "slow":
            s.sleep(20)
        if how == "garbage":
            return stubs.Resp(200, "<html>")
        if how == "empty":
            return stubs.Resp(200, {})
        if how == "204":
            return stubs.Resp(204, {"value": None})
        return stubs.Resp(200, {"value": self.vals.get(js["key"])})


def main(ctx, node, out):
    w = ctx.w
    s = core.SIM
    from litdata.utilities.broadcast import broadcast_object
    if w["late"][node]:
        s.sleep(w["late"][node])
    for key, objs in w["calls"]:
        obj = build(objs[node])
        t0 = s.now
        try:
            out.append((key, "ok", broadcast_object(key, obj, node), s.now - t0))
        except (core.SimKilled, core.SimAbort):
            raise
        except Exception as e:  # noqa: BLE001
            out.append((key, "error", e, s.now - t0))
            if "HarnessError" in repr(e):
                raise
            return      # the job of this node ends


def run(ctx):
    w = ctx.w
    svc = Service(ctx)
    core.SIM.http = svc
    outs = [[] for _ in range(w["nodes"])]
    ctx.arm()
    procs = []
    for n in range(w["nodes"]):
        env = {"GLOBAL_NODE": str(n), "LIGHTNING_APP_EXTERNAL_URL": w["base"]}
        if w["state_url"]:
            env["LIGHTNING_APP_STATE_URL"] = "http://int"
        if w["token"]:
            env.update(LIGHTNING_CLOUD_URL="https://cloud", LIGHTNING_API_KEY="key", LIGHTNING_USERNAME="user")
        procs.append(ctx.spawn(f"node{n}", main, ctx, n, outs[n], env=env, host=f"host{n}"))
    end = core.SIM.now + 600
    for p in procs:
        ctx.join([p], max(0.1, end - core.SIM.now))
    for p in procs:
        if "exc" in p.box:
            if "Violation" in type(p.box["exc"]).__name__:
                raise p.box["exc"]
            raise core.HarnessError(p.box["tb"])
    judge(ctx, w, svc, outs, procs)


def judge(ctx, w, svc, outs, procs):
    config_error = not w["state_url"] or w["token"] == "bad"
    stopped = None          # index of the call at which node 0 failed: the others never get a value from there on
    for n, (out, p) in enumerate(zip(outs, procs)):
        for k, (key, what, got, took) in enumerate(out):
            want = build(w["calls"][k][1][0])
            if what == "ok":
                if config_error:
                    raise Violation("no-error", f"node {n}: the configuration isn't complete, but {key!r} gave {got!r}")
                if type(got) is not type(want) or got != want:
                    raise Violation("other-value", f"node {n} got {got!r:.200} for {key!r}, node 0 has {want!r:.200}")
                if key not in svc.vals:
                    raise Violation("other-value", f"node {n} got a value for {key!r}, which the service doesn't have")
            else:
                if isinstance(got, Violation):
                    raise got
                hits = svc.hit.get(n, [])
                # answered with an error, an answer nobody can read, or neither address reachable
                bad = [h for h in hits if h[1] not in ("refused", "lost", "slow")]
                away = {h[0] for h in hits if h[1] in ("refused", "lost")}
                if not config_error and not bad and "int" not in away:
                    raise Violation("error:" + lib.exc_site(got), f"node {n}: {key!r} failed with {got!r:.300}, its requests met {hits}")
                if n == 0:
                    stopped = k if stopped is None else stopped
        if n == 0 and p.alive:
            raise Violation("stuck", f"node 0 waits for {w['calls'][len(out)][0]!r}; its requests met {svc.hit.get(0)}")
    for n, (out, p) in enumerate(zip(outs, procs)):
        if p.alive:
            k = len(out)
            if w["calls"][k][0] not in svc.vals and stopped is not None:
                continue        # waits for a value which node 0 will never give: it goes on with none of its own
            raise Violation("stuck", f"node {n} waits for {w['calls'][k][0]!r}; its requests met {svc.hit.get(n)}")
        elif len(out) < len(w["calls"]) and (not out or out[-1][1] == "ok"):
            raise Violation("stuck", f"node {n} ended after {len(out)} calls")
    # once the value is there, a node which isn't disturbed needs one more round
    for n, out in enumerate(outs):
        if not config_error and not svc.hit and not ctx.scn["sched"].get("stall_p"):
            lim = max(w["late"]) + (4 + 3 * w["lat"]) * (len(w["calls"]) + 1) + 5
            for key, what, got, took in out:
                if took > lim:
                    raise Violation("slow", f"node {n}: {key!r} took {took:.1f} s")
    ctx.rec["requests"] = svc.requests
    ctx.rec["values"] = sum(1 for o in outs for x in o if x[1] == "ok")
    ctx.rec["errors"] = sum(1 for o in outs for x in o if x[1] == "error")


def on_hang(ctx, outcome):
    return "hang:" + outcome
