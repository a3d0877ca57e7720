"""Seeded search, minimisation, replay and evidence for one property.

usage: runner.py ID              search (VERIF_SEED, VERIF_TIER)
       runner.py ID --replay F   run one recorded case; exit 1 if it still fails
       runner.py ID --digest N   digests of N items, for determinism tests
"""
import hashlib
import importlib
import json
import faulthandler
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:] = [VERIF] + [p for p in sys.path if os.path.abspath(p or ".") != os.path.join(VERIF, "sim")]

from sim import kernel, api      # noqa: E402

WALL = {"quick": 840, "thorough": 6 * 3600}
STATE_CAP = 400


def prepare():
    """Scratch area and fresh byte code of the tree under test."""
    d = tempfile.mkdtemp(prefix="verif-")
    os.environ["VERIF_SCRATCH"] = d
    sys.pycache_prefix = d + "/pyc"
    sys.dont_write_bytecode = False
    import compileall
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        n = os.open("/dev/null", os.O_WRONLY)
        os.dup2(n, 1)
        os.dup2(n, 2)
        compileall.compile_dir(kernel.REPO + "/tealish", quiet=2, force=True)
        os._exit(0)
    os.waitpid(pid, 0)
    os.close(r)
    os.close(w)
    kernel.warm()
    sys.dont_write_bytecode = True
    return d


class Recorder:
    """What one worker did."""

    def __init__(self, mod, tier):
        self.mod = mod
        self.tier = tier
        self.violation = None
        self.runs = 0
        self.simtime = 0.0
        self.fired = {}
        self.probes = {}
        self.states = set()
        self.nontrivial = set()
        self.digests = []
        self.sample = None

    def run(self, case):
        """Evaluate one case; remembers the first violation."""
        res = self.mod.evaluate(case)
        self.runs += res.get("runs", 1)
        self.simtime += res.get("simtime", 0.0)
        for k, v in res.get("fired", {}).items():
            self.fired[k] = self.fired.get(k, 0) + v
        for k, v in res.get("probes", {}).items():
            self.probes[k] = self.probes.get(k, 0) + v
        for s in res.get("states", ()):
            if len(self.states) < STATE_CAP:
                self.states.add(s)
        if res.get("nontrivial"):
            self.nontrivial.add(res["digest"])
        self.digests.append(res.get("digest", ""))
        if self.sample is None or (res.get("fired") and not self.sample[1]):
            self.sample = (case, bool(res.get("fired")))
        if res["viol"] and self.violation is None:
            self.violation = {"case": case, "class": res["viol"][0][0], "msg": res["viol"][0][1]}
        return res

    @property
    def stop(self):
        return self.violation is not None

    def result(self):
        return {"violation": self.violation, "runs": self.runs, "simtime": self.simtime, "fired": self.fired,
                "probes": self.probes, "states": sorted(self.states), "nontrivial": sorted(self.nontrivial),
                "digests": self.digests, "sample": self.sample[0] if self.sample else None}


def one(mod, seed, i, tier):
    rec = Recorder(mod, tier)
    mod.item(random.Random("%s/%s/%d" % (seed, mod.ID, i)), i, rec)
    return rec.result()


def worker(mod, seed, tier, rfd, wfd):
    faulthandler.register(signal.SIGUSR1)
    try:
        while True:
            m = api.recv(rfd)
            if m is None or m < 0:
                break
            try:
                res = one(mod, seed, m, tier)
            except BaseException:
                res = {"error": traceback.format_exc()}
            b = json.dumps(res)
            api.send(wfd, [m, b])
        if hasattr(mod, "close"):
            mod.close()
        api.REF.close()
    finally:
        os._exit(0)


def search(mod, seed, tier, n, jobs, on_result):
    ws = []
    for _ in range(jobs):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            for q in ws:
                os.close(q["w"])
                os.close(q["r"])
            worker(mod, seed, tier, r1, w2)
        os.close(r1)
        os.close(w2)
        ws.append({"pid": pid, "w": w1, "r": r2, "busy": False})
    nxt, stop = 0, False
    t0 = time.time()
    while True:
        for q in ws:
            if not q["busy"] and not stop and nxt < n:
                api.send(q["w"], nxt)
                nxt += 1
                q["busy"] = True
        busy = [q["r"] for q in ws if q["busy"]]
        if not busy:
            break
        ready, _, _ = select.select(busy, [], [], 5)
        if time.time() - t0 > WALL[tier]:
            raise SystemExit("wall limit: the search did not finish")
        for q in ws:
            if q["r"] in ready:
                m = api.recv(q["r"])
                if m is None:
                    raise RuntimeError("a worker died")
                q["busy"] = False
                if on_result(m[0], json.loads(m[1])):
                    stop = True
    for q in ws:
        os.close(q["w"])
        os.close(q["r"])
        os.waitpid(q["pid"], 0)
    return nxt


# ------------------------------------------------------------- minimisation
def same(mod, case, cls):
    try:
        res = mod.evaluate(case)
    except Exception:
        return None
    for c, m in res["viol"]:
        if c == cls:
            return m
    return None


def minimise(mod, v, budget=120, wall=150):
    """Greedy: take any smaller case the module proposes that fails the same way."""
    case, cls, msg = v["case"], v["class"], v["msg"]
    t0 = time.time()
    used = 0
    again = True
    while again and used < budget:
        again = False
        for cand in mod.shrink(case):
            if used >= budget or time.time() - t0 > wall:
                break
            used += 1
            m = same(mod, cand, cls)
            if m is not None:
                case, msg, again = cand, m, True
                break
    return {"case": case, "class": cls, "msg": msg, "tried": used}


# ---------------------------------------------------------------------- main
def main(argv):
    pid = argv[0]
    mod = importlib.import_module("sim.props." + pid.lower())
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    jobs = int(os.environ.get("VERIF_JOBS", 0)) or max(1, min(16, os.cpu_count() or 1))
    scratch = prepare()
    try:
        if "--replay" in argv:
            return replay(mod, argv[argv.index("--replay") + 1])
        if "--digest" in argv:
            return digest(mod, seed, tier, int(argv[argv.index("--digest") + 1]), jobs)
        return check(mod, seed, tier, jobs)
    finally:
        api.REF.close()
        if hasattr(mod, "close"):
            mod.close()
        shutil.rmtree(scratch, ignore_errors=True)


def digest(mod, seed, tier, n, jobs):
    out = {}

    def on(i, res):
        if "error" in res:
            raise RuntimeError(res["error"])
        out[i] = hashlib.sha256(json.dumps([res["digests"], res["violation"] and res["violation"]["class"]]).encode()).hexdigest()[:16]
    search(mod, seed, tier, n, jobs, on)
    for i in sorted(out):
        print(i, out[i])
    return 0


def replay(mod, path):
    with open(path) as f:
        rec = json.load(f)
    res = mod.evaluate(rec["case"])
    hit = [m for c, m in res["viol"] if c == rec["class"]]
    for c, m in res["viol"]:
        print("%s: %s" % (c, m))
    for line in res.get("log", [])[-60:]:
        print("  " + line)
    if hit:
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        return 1
    print("the recorded case no longer fails (%d other complaints)" % len(res["viol"]))
    return 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return [k for k in json.load(f).get("findings", []) if k["property"] == pid]
    except FileNotFoundError:
        return []


def check(mod, seed, tier, jobs):
    t0 = time.time()
    n = mod.ITEMS[tier]
    print("property=%s tier=%s seed=%d items=%d workers=%d" % (mod.ID, tier, seed, n, jobs), flush=True)
    tot = {"runs": 0, "simtime": 0.0, "fired": {}, "probes": {}, "states": set(), "nontrivial": set()}
    samples = {}
    found = {}
    errors = []

    def on(i, res):
        if "error" in res:
            errors.append((i, res["error"]))
            return True
        tot["runs"] += res["runs"]
        tot["simtime"] += res["simtime"]
        for k in ("fired", "probes"):
            for a, b in res[k].items():
                tot[k][a] = tot[k].get(a, 0) + b
        tot["states"].update(res["states"])
        tot["nontrivial"].update(res["nontrivial"])
        if i < 3 and res["sample"] is not None:
            samples[i] = res["sample"]
        if res["violation"]:
            found[i] = res["violation"]
            return True
        return False
    done = search(mod, seed, tier, n, jobs, on)
    code = 0
    if found:
        i = min(found)
        v = found[i]
        print("item %d: %s: %s" % (i, v["class"], v["msg"]), flush=True)
        small = minimise(mod, v)
        code = report(mod, seed, i, small, v)
    elif errors:
        print("harness error in item %d\n%s" % errors[0])
        code = 2
    wall = time.time() - t0
    evidence(mod, tier, seed, tot, samples, wall, 1 if code == 1 else 0, done)
    if code == 0:
        for k in load_known(mod.ID):
            print("KNOWN-FINDING: property=%s %s" % (mod.ID, k["what"]))
        print("%s holds on %d simulated runs (%d distinct non-trivial), %.1f s" % (
            mod.ID, tot["runs"], len(tot["nontrivial"]), wall))
    return code


def report(mod, seed, i, small, orig):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    rec = {"property": mod.ID, "seed": seed, "item": i, "class": small["class"], "message": small["msg"], "case": small["case"]}
    b = json.dumps(rec, indent=1, sort_keys=True)
    path = os.path.join(d, "%s-%s.json" % (mod.ID, hashlib.sha256(b.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(b + "\n")
    r = fresh_replay(mod, path)
    if r != 1 and small["case"] != orig["case"]:
        rec.update(case=orig["case"], message=orig["msg"])
        with open(path, "w") as f:
            f.write(json.dumps(rec, indent=1, sort_keys=True) + "\n")
        r = fresh_replay(mod, path)
    if r != 1:
        print("harness error: the violation does not replay in a fresh process (exit %s), see %s" % (r, path))
        return 2
    print("minimised in %d attempts; %s: %s" % (small["tried"], rec["class"], rec["message"]))
    print("VIOLATION property=%s replay=%s" % (mod.ID, path), flush=True)
    return 1


def fresh_replay(mod, path):
    env = dict(os.environ)
    env.pop("VERIF_SCRATCH", None)
    try:
        return subprocess.run([os.path.join(VERIF, "check"), mod.ID, "--replay", path], env=env, timeout=300,
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
    except subprocess.TimeoutExpired:
        return "timeout"


def evidence(mod, tier, seed, tot, samples, wall, nviol, items):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(tot["nontrivial"]),
        "rule": mod.RULE,
        "samples": [samples[k] for k in sorted(samples)] or ["none"],
        "items": items,
        "simulated_runs_per_hour": int(tot["runs"] / wall * 3600) if wall else 0,
        "seeds_per_hour": int(items / wall * 3600) if wall else 0,
        "simulated_seconds": round(tot["simtime"], 3),
        "faults_fired": dict(sorted(tot["fired"].items())),
        "distinct_states": len(tot["states"]),
        "state_measure": mod.STATES,
        "probes": dict(sorted(tot["probes"].items())),
        "real_components": mod.REAL,
        "stub_components": mod.STUBS,
    }
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "wall_s": round(wall, 2), "assumptions": mod.ASSUME, "violations": nviol}
    p = os.path.join(VERIF, "evidence", mod.ID + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit as e:
        print(e, flush=True)
        rc = 2
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc if isinstance(rc, int) else 2)
