"""C11: commands end within bounded time when a network peer stalls."""
from .. import cli
from .base import *      # noqa: F401,F403
from . import base, builds, c09

ID = "C11"
ITEMS = {"quick": 160, "thorough": 5000}
LIMIT = 600.0
RULE = ("one run = `build` with algod or `langspec fetch/update/diff` on a simulated machine whose peer stops responding at a chosen point "
        "of a chosen connection (connecting, before, inside or after headers, inside the body), after correct, fragmented or slow traffic, "
        "alone or with an I/O error; simulated time is bounded by %d s; non-trivial = a fault fired" % LIMIT)


def item(rng, i, rec):
    if rng.random() < 0.55:
        sc = builds.scenario(rng, mode="algod", p_bad=0.05, size=0.25)
        nconn = len([p for p in sc["files"] if p.endswith(".tl")])
    else:
        sc = c09.scenario(rng)
        nconn = 2
        if rng.random() < 0.25:
            sc["procs"][0]["argv"] = ["langspec", "diff", rng.choice(["new", "https://specs.sim/old.json"])]
    r = rec.run({"sc": sc})
    if rec.stop:
        return
    nconn = max(1, r["conns"])
    for _ in range(12 if rec.tier == "quick" else 30):
        c = cli.adv(sc)
        at = rng.randrange(nconn)
        c["net"] = []
        for j in range(at):
            if rng.random() < 0.3:
                c["net"].append(builds.net_fault(rng, j, ["delay", "delay", "chunked", "nolength"]))
        k = rng.random()
        if k < 0.25:
            c["net"].append({"proc": 0, "conn": at, "kind": "connect_stall", "on": rng.random() < 0.5})
        else:
            f = builds.net_fault(rng, at, ["stall"])
            if rng.random() < 0.3:
                f["delay"] = rng.choice([0.5, 5.0, 20.0])
            if rng.random() < 0.3:
                f["seg"] = rng.choice([100, 1000])
                f["gap"] = rng.choice([0.001, 0.05])
            if rng.random() < 0.15:
                f["chunked"] = rng.choice([13, 500])
            elif rng.random() < 0.15:
                f["nolength"] = True
            c["net"].append(f)
        if rng.random() < 0.1:
            c["faults"] = [cli.fault(rng, 0, r["ops"][0], ["errno", "short", "sigint_blocked"])]
        rec.run({"sc": c})
        if rec.stop:
            return


def evaluate(case):
    sc = case["sc"]
    s, w, watch = builds.run(sc, power=False)
    viol = list(watch.bad)
    stalled = any(k in s.fired for k in ("net:stall", "net:connect_stall"))
    for c in w.cmds:
        p = s.procs[c.idx]
        name = " ".join(c.spec["argv"])
        if p.how in ("hung", "spin", "segv", "cut"):
            viol.append(("hang", "`%s` never ends (%s, waiting at simulated time %.0f s)" % (name, p.how, s.now)))
            continue
        if p.ended_at - p.started_at > LIMIT:
            viol.append(("slow", "`%s` took %.0f simulated seconds" % (name, p.ended_at - p.started_at)))
        if p.how != "exit":
            continue
        if stalled and p.code == 0:
            if c.kind == "build":
                e = [src for src in c.sources if w.matching(s, s.vfs.read, src, True) is not None]
                if e:
                    viol.append(("success", "the peer stalled, exit status 0, but %s is not built" % e[0]))
            elif c.sub == "diff":
                pass
            elif c09.parsed(s.vfs.read(c09.target(w)) or b"") != cli.specs.get(cli.spec_name(c.args)):
                viol.append(("success", "the peer stalled, exit status 0, but the langspec is not installed"))
        for path, (what, src) in c.outputs.items():
            cur = s.vfs.read(path)
            if cur != w.initial(path):
                e = w.check(s, path, cur)
                if e is not None:
                    viol.append(("artefact", "%s is %s" % (path, e)))
    r = base.result([s], viol)
    r["ops"] = [list(p.ops) for p in s.procs if p.kind == "tealish"]
    r["conns"] = s.procs[0].nconn
    return r
