"""C03: a build reports success exactly when it produced complete, matching output."""
from .. import cli
from ..api import REF
from .base import *      # noqa: F401,F403
from . import base, builds

ID = "C03"
ITEMS = {"quick": 110, "thorough": 3000}
RULE = ("one run = one simulated machine with 1-4 sources and one `compile` or `build` under assembler failures (network or goal), slow or "
        "fragmented but correct answers, I/O errors, signals, or an editor saving a source meanwhile; the exit status is compared with what "
        "is on disk at the end; non-trivial = a fault fired or a process was preempted")
KINDS = ["errno", "errno", "errno", "full", "memory", "short", "short", "strike", "sigint", "sigint_after", "sigint_blocked"]


def item(rng, i, rec):
    sc = builds.scenario(rng, mode=rng.choice(["compile", "goal", "goal", "algod", "algod", "algod"]), p_bad=0.1)
    r = rec.run({"sc": sc})
    if rec.stop:
        return
    ops, total = r["ops"][0], r["total"]
    srcs = [p for p in sc["files"] if p.endswith(".tl")]
    for _ in range(14 if rec.tier == "quick" else 36):
        c = cli.adv(sc)
        k = rng.random()
        if k < 0.4 and "build" in sc["procs"][0]["argv"]:
            builds.assembler_fault(rng, c, len(srcs))
        elif k < 0.55 and builds.is_algod(sc):
            c["net"] = [builds.net_fault(rng, j, builds.NETOK) for j in range(len(srcs)) if rng.random() < 0.7]
        elif k < 0.75 or rng.random() < 0.2:
            c["faults"] = [cli.fault(rng, 0, ops, KINDS) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.25:
            c["procs"].append(builds.editor(rng, rng.choice(srcs), c))
            if rng.random() < 0.3 and len(srcs) > 1:
                c["procs"].append(builds.editor(rng, rng.choice([p for p in srcs if p != c["procs"][-1]["path"]]), c))
            builds.preempt(rng, c, total + 20)
            if rng.random() < 0.5:
                c["hold"] = base.holds(rng, [[0, q["path"], 10] for q in c["procs"] if q["kind"] == "editor"])
        if rng.random() < 0.05:
            c["quota"] = rng.choice([0, 10, 100, 1000, 3000])
        rec.run({"sc": c})
        if rec.stop:
            return


def evaluate(case):
    sc = case["sc"]
    s, w, _ = builds.run(sc, watch=False)
    viol = []
    for c in w.cmds:
        viol += judge(s, w, c, sc)
    r = base.result([s], viol)
    r["ops"] = [list(p.ops) for p in s.procs if p.kind == "tealish"]
    r["total"] = s.g
    return r


def judge(s, w, c, sc):
    out = []
    p = s.procs[c.idx]
    e = builds.ended(s, p)
    if e:
        return [e]
    if p.how != "exit":
        return []
    for path in sorted(c.outputs):
        what = c.outputs[path][0]
        cur = s.vfs.read(path)
        if cur == w.initial(path) or (p.code == 0):
            continue
        e = w.check(s, path, cur)
        if e is not None and (what in ("tok", "map")):
            out.append(("failed", "exit status %d, but %s was changed: %s" % (p.code, path, e)))
    if p.code == 0:
        for src in c.sources:
            e = w.matching(s, s.vfs.read, src, c.asm is not None)
            if e is not None:
                out.append(("success", "exit status 0, but the artefacts of %s do not belong together (%s)" % (src, e)))
    if not builds.disturbed(sc):
        texts = [t for src in c.sources for t in w.snapshots(src)]
        good = [t is not None and REF.valid(t) for t in texts]
        if all(good) and p.code != 0:
            out.append(("plain", "valid sources and no failure, but exit status %d: %s" % (
                p.code, bytes(p.errs[-200:]).decode("utf-8", "replace"))))
        if not any(q["kind"] == "editor" for q in sc["procs"]) and not all(good) and p.code == 0:
            out.append(("invalid", "an invalid source, but exit status 0"))
    return out
