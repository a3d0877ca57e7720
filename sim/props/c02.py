"""C02: a build artefact on disk is always the old one or the complete new one."""
from .. import cli
from .base import *      # noqa: F401,F403
from . import base, builds

ID = "C02"
ITEMS = {"quick": 130, "thorough": 3500}
RULE = ("one run = one simulated machine with 1-4 sources, old artefacts or none, one `compile` or `build` (goal or algod) and 0-3 faults "
        "or an editor saving a source meanwhile; every artefact is checked after every change of the visible file system, and so is every "
        "content a power failure at that instant could leave; non-trivial = a fault fired or a process was preempted")
KINDS = builds.CRASH + builds.IOERR


def item(rng, i, rec):
    sc = builds.scenario(rng)
    r = rec.run({"sc": sc})
    if rec.stop:
        return
    ops, total = r["ops"][0], r["total"]
    nsrc = max(1, len([p for p in sc["files"] if p.endswith(".tl")]))
    for _ in range(12 if rec.tier == "quick" else 30):
        kinds = base.swarm(rng, KINDS)
        c = cli.adv(sc)
        c["faults"] = [cli.fault(rng, 0, ops, kinds) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if rng.random() < 0.15:
            builds.assembler_fault(rng, c, nsrc)
        if rng.random() < 0.1:
            c["procs"].append(builds.editor(rng, rng.choice([p for p in sc["files"] if p.endswith(".tl")]), c))
            builds.preempt(rng, c, total + 20)
            if rng.random() < 0.5:
                c["hold"] = base.holds(rng, [[0, q["path"], 10] for q in c["procs"] if q["kind"] == "editor"])
        if rng.random() < 0.08:
            c["quota"] = rng.choice([0, 10, 100, 1000, 3000])
        rec.run({"sc": c})
        if rec.stop:
            return


def evaluate(case):
    s, w, watch = builds.run(case["sc"])
    viol = list(watch.bad)
    if not viol:
        for path in w.outputs:
            e = w.check(s, path, s.vfs.read(path))
            if e is not None:
                viol.append(("final", "at the end %s is %s" % (path, e)))
        for p in s.procs:
            if p.kind == "tealish" and builds.ended(s, p):
                viol.append(builds.ended(s, p))
    r = base.result([s], viol)
    r["ops"] = [list(p.ops) for p in s.procs if p.kind == "tealish"]
    r["total"] = s.g
    r["probes"] = dict(r["probes"], instants=watch.instants, crash_images=watch.images)
    return r
