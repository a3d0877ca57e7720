"""C12: output is byte-identical whatever the environment the tool runs in."""
import json

from .. import cli, hashed, kernel, specs
from ..api import REF
from .base import *      # noqa: F401,F403
from . import base, builds

ID = "C12"
ITEMS = {"quick": 190, "thorough": 6000}
RULE = ("one run = the same command on the same source, langspec and assembler answers, on a simulated machine that differs from the reference "
        "machine in several of: hash seed, object addresses, directory order, process id, clock, file times, locale, umask, working directory and spelling "
        "of the path, buffer size, short reads and writes, fragmented answers; every file at the end, exit status and inspect output are "
        "compared byte for byte; or the same library call under another hash seed and heap; non-trivial = the environment differs")
STATES = base.STATES
SEEDS = [1, 2, 3, 4, 5]
ENCS = ["ascii", "latin-1", "cp1252", "utf-8"]


def scenario(rng):
    k = rng.random()
    if k < 0.6:
        sc = builds.scenario(rng, p_bad=0.15, size=0.4)
        d = "/w"
    else:
        d = "/w"
        files = builds.sources(rng, d, 1, p_bad=0.05, size=0.45)
        src = sorted(files)[0]
        files[src]["mode"] = 0o644
        sc = {"files": files, "dirs": [], "seed": 1, "procs": [base.proc([rng.choice(["format", "inspect", "inspect"]), src], "/")]}
    # the reference machine
    p = sc["procs"][0]
    t = p["argv"]
    i = 1 + (t[0] == "-q")
    name = t[i].rstrip("/").rsplit("/", 1)[-1]
    one = [q for q in sc["files"] if name.endswith(".tl") and q == d + "/" + name]
    sc["procs"] = [base.proc(t[:i] + [one[0] if one else "/w"] + t[i + 1:], "/w", rseed="r", pid=4000)]
    sc["enum"] = 0
    sc["seed"] = 1
    if rng.random() < 0.25:
        name = rng.choice(["old", "new", "small", "accents"])
        for d in ("/w", "/", "/home/user", "/home"):
            sc["files"][d.rstrip("/") + "/langspec.json"] = specs.text(name)
    return sc


def environment(rng, sc):
    """Another environment for the same command."""
    p = sc["procs"][0]
    v = {"proc": {}}
    q = v["proc"]

    def some(x=0.35):
        return rng.random() < x
    if some(0.6):
        v["hash"] = rng.choice(SEEDS)
    if some():
        q["heap"] = rng.randrange(1, 1000)
    if some(0.5):
        v["enum"] = rng.randrange(1, 10 ** 6)
    if some():
        q["pid"] = rng.choice([2, 77, 4001, 31999, 4194303])
    if some():
        q["rseed"] = "v%d" % rng.randrange(10 ** 6)
    if some():
        v["epoch"] = rng.choice([1.0, 86400.0 * 365, 1.7e9, 2.2e9, 4.3e9])
    if some(0.3):
        v["mtime"] = rng.choice([0.0, -1e8, -60.0, 3600.0, 1e8])
    if some(0.4) and all(f.isascii() for f in sc["files"]):
        q["enc"] = rng.choice(ENCS)
    if some():
        q["umask"] = rng.choice([0, 0o077, 0o002, 0o027])
    if some(0.4):
        i = 1 + (p["argv"][0] == "-q")
        one = p["argv"][i] if p["argv"][i] != "/w" else None
        arg, q["cwd"] = builds.where(rng, "/w", one)
        q["argv"] = p["argv"][:i] + [arg] + p["argv"][i + 1:]
    if some():
        q["bufsize"] = rng.choice([1, 16, 100, 4096, 65536]) if rng.random() < 0.5 else rng.choice([16, 1024])
    if some(0.25):
        q["env"] = rng.choice([{"LANG": "de_DE.ISO-8859-1", "LC_ALL": "de_DE.ISO-8859-1"}, {"TZ": "JST-9"}, {"HOME": "/nonexistent"},
                               {"COLUMNS": "20", "TERM": "dumb"}, {"NO_COLOR": "1", "USER": "zoe"}, {"TMPDIR": "/var/tmp"}])
    if builds.is_algod(sc) and some():
        v["net"] = [builds.net_fault(rng, j, builds.NETOK) for j in range(3)]
    if "--goal" in p["argv"] and some():
        v["goal"] = {"step": rng.choice([1024, 100, 33])}
    if some(0.3):
        v["short"] = [rng.randrange(1, 60) for _ in range(rng.randint(1, 8))]
    return v


def item(rng, i, rec):
    if i % 2 == 0:
        sc = scenario(rng)
        r = rec.run({"sc": sc, "var": {"proc": {}}})
        if rec.stop:
            return
        for _ in range(9 if rec.tier == "quick" else 24):
            c = {"sc": sc, "var": environment(rng, sc)}
            if c["var"].get("short"):
                ops = r["ops"]
                io = [n + 1 for n, o in enumerate(ops) if o in ("read", "write") and n >= len(ops) // 6] or [1]
                c["var"]["short"] = [[rng.choice(io), rng.choice([0.01, 0.3, 0.7])] for _ in c["var"]["short"]]
            rec.run(c)
            if rec.stop:
                return
    else:
        for _ in range(8 if rec.tier == "quick" else 24):
            src = base.good(rng, size=rng.choice([0.3, 0.6, 1.0])) if rng.random() < 0.9 else base.bad(rng)
            spec = rng.choice([None, None, None, "old", "new"])
            for _ in range(3):
                rec.run({"api": rng.choice(["compile", "compile", "reformat", "inspect"]), "src": src, "spec": spec,
                         "hash": rng.choice(SEEDS), "heap": rng.randrange(0, 1000)})
                if rec.stop:
                    return


_base = {}


def reference(sc, insp):
    k = json.dumps(sc, sort_keys=True)
    if k not in _base:
        if len(_base) > 4:
            _base.clear()
        _base[k] = hashed.outcome(sc, insp)
    return _base[k]


def applied(sc, v):
    c = cli.adv(sc)
    c["procs"][0].update(v["proc"])
    for k in ("enum", "epoch", "net", "goal"):
        if k in v:
            c[k] = v[k]
    if "mtime" in v:
        for q, f in c["files"].items():
            c["files"][q] = dict(f if isinstance(f, dict) else {"data": f}, mtime=v["mtime"])
    if v.get("short"):
        c["faults"] = [{"proc": 0, "n": n, "kind": "short", "frac": f} for n, f in v["short"]]
    return c


def evaluate(case):
    if "api" in case:
        return evaluate_api(case)
    sc, v = case["sc"], case["var"]
    insp = "inspect" in sc["procs"][0]["argv"]
    a = reference(sc, insp)
    c = applied(sc, v)
    b = hashed.get(v["hash"]).call("sim", c, insp) if v.get("hash") else hashed.outcome(c, insp)
    viol = []
    name = " ".join(c["procs"][0]["argv"])
    if a["how"] != "exit" and a["how"] == b["how"]:
        pass
    elif (a["how"], a["code"]) != (b["how"], b["code"]):
        viol.append(("exit", "`%s` ends with %s %s in this environment, with %s %s in the reference: %s" % (
            name, b["how"], b["code"], a["how"], a["code"], (b["err"] if b["code"] else a["err"]).strip()[-200:])))
    elif a["out"] != b["out"]:
        viol.append(("inspect", "`%s` prints something else in this environment: %s" % (name, first_difference(a["out"], b["out"]))))
    else:
        for p in sorted(set(a["files"]) | set(b["files"])):
            x, y = a["files"].get(p), b["files"].get(p)
            if x != y:
                viol.append(("bytes", "`%s` leaves another %s in this environment: %s" % (name, p, first_difference(x, y))))
                break
    return {"viol": [list(x) for x in viol], "fired": dict(b["fired"], **{"env:" + k: 1 for k in list(v) + list(v["proc"]) if k != "proc"}),
            "probes": b["probes"], "states": b["states"], "simtime": b["now"], "digest": b["digest"] + json.dumps(v, sort_keys=True),
            "log": ["reference: " + a["err"], "here: " + b["err"]], "nontrivial": bool(v["proc"]) or len(v) > 1, "runs": 1, "ops": a["ops"]}


def first_difference(x, y):
    if x is None or y is None:
        return "absent" if y is None else "it is new"
    try:
        x, y = bytes.fromhex(x), bytes.fromhex(y)
    except ValueError:
        return "%s / %s" % (x, y)
    n = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
    return "at byte %d %r, in the reference %r" % (n, y[max(0, n - 20):n + 30], x[max(0, n - 20):n + 30])


def evaluate_api(case):
    a = REF.get(case["api"], case["src"], case["spec"])
    b = hashed.get(case["hash"]).call("op", case["api"], case["src"], case["heap"], case["spec"])
    a = json.loads(json.dumps(a))
    viol = []
    if a[0] != b[0] or a[0] == "ok" and a != b:
        viol.append(("api", "%s gives another result with hash seed %d and heap %d: %r, in the reference %r" % (
            case["api"], case["hash"], case["heap"], short(b, a), short(a, b))))
    return {"viol": [list(x) for x in viol], "fired": {"env:hash": 1, "env:heap": int(bool(case["heap"]))}, "probes": {"api": 1}, "states": (),
            "simtime": 0.0, "digest": json.dumps(case, sort_keys=True), "log": [], "nontrivial": True, "runs": 1}


def short(x, y):
    """Where two results part."""
    if x[0] == "err" or y[0] == "err":
        return x if x[0] == "err" else "ok"
    s, t = json.dumps(x), json.dumps(y)
    n = next((i for i in range(min(len(s), len(t))) if s[i] != t[i]), 0)
    return s[max(0, n - 30):n + 50]


def shrink(case):
    if "api" in case:
        if case["heap"]:
            yield dict(case, heap=0)
        for t in base.smaller_sources(case["src"]):
            yield dict(case, src=t)
        return
    v = case["var"]
    for k in [k for k in v if k != "proc"]:
        yield dict(case, var={a: b for a, b in v.items() if a != k})
    for k in v["proc"]:
        if k == "argv":
            continue
        drop = {k, "argv"} if k == "cwd" else {k}
        yield dict(case, var=dict(v, proc={a: b for a, b in v["proc"].items() if a not in drop}))
    if v.get("short"):
        for x in base.drop_each(v["short"]):
            yield dict(case, var=dict(v, short=x))
    for c in base.shrink_scenario(case["sc"]):
        yield dict(case, sc=c)


def close():
    hashed.close()
