"""C05: a compilation's result depends only on its own source, not on history."""
import hashlib
import json

from .. import cli
from ..api import COOP, REF
from .lib import *      # noqa: F401,F403
from . import base, builds, lib

ID = "C05"
ITEMS = {"quick": 150, "thorough": 7000}
STATES = "distinct histories with their outcomes (library) and file tree fingerprints (directory builds)"
REAL = lib.REAL + base.REAL[:1]
STUBS = lib.STUBS + base.STUBS[:1]
RULE = ("one run = one process making 3-25 library calls on 2-5 related sources, valid and invalid, mixed with the steps of up to four "
        "interleaved compiler objects, each outcome compared with a fresh process; or one `compile` of a directory of related sources listed "
        "in a seeded order, each artefact compared with compiling the file alone; non-trivial = more than one source was involved")
STEPS = [["compile", "get_map", "get_structs"], ["parse", "process", "compile", "get_map"], ["reformat"], ["parse", "reformat"],
         ["parse", "process", "reformat"], ["process", "compile", "get_structs"], ["parse", "compile", "get_map"]]


def item(rng, i, rec):
    if i % 8 == 7:
        return directory(rng, rec)
    everything = lib.pool(rng, 8, size=rng.choice([0.1, 0.2, 0.3]), p_bad=0.35, limit=900)
    for _ in range(12 if rec.tier == "quick" else 36):
        srcs = lib.focus(rng, everything, rng.choice([2, 2, 3, 4, 5]))
        steps, live, slot = [], {}, 0
        for _ in range(rng.choice([3, 5, 8, 12, 25])):
            k = rng.random()
            if live and k < 0.55:
                s = rng.choice(sorted(live))
                steps.append(["call", s, live[s].pop(0)])
                if not live[s]:
                    del live[s]
            elif k < 0.75 and len(live) < 4:
                slot += 1
                steps.append(["new", slot, rng.choice(srcs)])
                live[slot] = list(rng.choice(STEPS))
            else:
                steps.append(["api", rng.choice(lib.KINDS), rng.choice(srcs)])
        for s in sorted(live):
            if rng.random() < 0.7:
                steps += [["call", s, m] for m in live[s]]
        rec.run({"steps": steps})
        if rec.stop:
            return


def directory(rng, rec):
    files = {}
    srcs = lib.pool(rng, rng.choice([2, 3, 4, 6]), size=0.3, p_bad=0.06, limit=2500)
    for n, s in zip(rng.sample(builds.NAMES, len(srcs)), srcs):
        files["/w/" + n] = s
    for _ in range(5):
        mode = rng.choice(["compile", "compile", "algod"])
        sc = {"files": files, "dirs": [], "enum": rng.randrange(10 ** 6), "seed": 1,
              "procs": [base.proc(base.build_argv(rng, "/w", mode), "/", pid=4000)]}
        rec.run({"sc": sc})
        if rec.stop:
            return


_alone = {}


def alone(src, methods):
    """The same methods on a compiler of its own in a fresh process: the last outcome, or the first failure."""
    k = (src, "+".join(methods))
    if k not in _alone:
        if len(_alone) > 3000:
            _alone.clear()
        _alone[k] = json.loads(json.dumps(REF.zygote().call("sim.inproc:fresh", src, k[1])))
    return _alone[k]


def evaluate(case):
    if "sc" in case:
        return evaluate_dir(case["sc"])
    steps = case["steps"]
    r = COOP.zygote().call("sim.inproc:history", steps)
    viol = []
    if isinstance(r, list):
        viol.append(("hang", "a call never ends: %s" % r[:2]))
        r = {"out": [], "altered": False}
    of, done, dead = {}, {}, set()
    shape = []
    for st, o in zip(steps, json.loads(json.dumps(r["out"]))):
        o.pop()
        if viol:
            break
        if st[0] == "api":
            w = lib.want(st)
            if o != w:
                viol.append(("result", "%s_program gives another result than in a fresh process: %s" % (st[1], lib.diff(o, w))))
        elif st[0] == "new":
            of[st[1]], done[st[1]] = st[2], []
        elif st[1] in of and st[1] not in dead:
            done[st[1]].append(st[2])
            w = alone(of[st[1]], done[st[1]])
            if o != w:
                viol.append(("step", "%s after %s on a compiler gives another result than in a fresh process: %s" % (
                    st[2], "+".join(done[st[1]][:-1]) or "nothing", lib.diff(o, w))))
            if o[0] != "ok":
                dead.add(st[1])
        shape.append(o[0])
    if r["altered"] and not viol:
        viol.append(("altered", "a result was changed after it had been returned"))
    d = hashlib.blake2b(repr((steps, shape)).encode(), digest_size=12).hexdigest()
    many = len({st[2] for st in steps if st[0] in ("api", "new")}) > 1
    return {"viol": [list(v) for v in viol], "fired": {"failed_call": shape.count("err")} if "err" in shape else {}, "probes": {"calls": len(shape)},
            "states": [d], "simtime": 0.0, "digest": d, "log": [str([s[0], s[1], o]) for s, o in zip(steps, shape)], "nontrivial": many, "runs": 1}


def evaluate_dir(sc):
    s, w, _ = builds.run(sc, watch=False)
    p, c = s.procs[0], w.cmds[0]
    viol = []
    texts = {x: w.snapshots(x)[0] for x in c.sources}
    valid = all(REF.valid(t) for t in texts.values())
    e = builds.ended(s, p)
    if e:
        viol.append(e)
    elif (p.code == 0) != valid:
        viol.append(("dir", "%s sources, but the directory build exits %s: %s" % (
            "valid" if valid else "invalid", p.code, bytes(p.errs[-200:]).decode("utf-8", "replace"))))
    else:
        for x in c.sources:
            for path, (what, _) in sorted(cli.artefacts(x, c.asm is not None).items()):
                cur = s.vfs.read(path)
                if cur is None and not valid:
                    continue
                e = w.check(s, path, cur) if cur is not None else "missing"
                if e and not viol:
                    viol.append(("dir", "compiling the directory leaves %s, which compiling the file alone does not: %s" % (path, e)))
    r = base.result([s], viol, nontrivial=len(c.sources) > 1)
    r["fired"] = dict(r["fired"], listing_order=1)
    return r


def shrink(case):
    if "sc" in case:
        for c in base.shrink_scenario(case["sc"]):
            yield dict(case, sc=c)
        return
    st = case["steps"]
    for x in base.drop_each(st):
        if x and all(s[0] != "call" or any(q[0] == "new" and q[1] == s[1] for q in x[:j]) for j, s in enumerate(x)):
            yield {"steps": x}
    for s in {q[2] for q in st if q[0] in ("api", "new")}:
        for t in base.smaller_sources(s):
            yield {"steps": [[q[0], q[1], t] if q[0] in ("api", "new") and q[2] == s else q for q in st]}


def close():
    COOP.close()
