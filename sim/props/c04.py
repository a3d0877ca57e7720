"""C04: concurrent tealish invocations do not mix or damage each other's results."""
import json

from .. import cli, gen
from ..api import REF
from .base import *      # noqa: F401,F403
from . import base, builds

ID = "C04"
ITEMS = {"quick": 170, "thorough": 4500}
RULE = ("one run = 2-4 tealish commands (compile, build with goal or algod, format, inspect), sometimes with an editor, on one simulated machine, in the same or "
        "different directories, on shared or separate sources, under a random schedule of switches at system calls, sometimes with one of "
        "them killed; compared with the results alone; non-trivial = a process was preempted")
DIRS = ["/w", "/home/user/p", "/w/sub"]


def scenario(rng):
    files = {}
    dirs = []
    ds = rng.sample(DIRS, rng.choice([1, 1, 2]))
    for d in ds:
        files.update(builds.sources(rng, d, rng.choice([1, 1, 2]), p_bad=0.05, size=0.25))
        dirs.append(d)
        if rng.random() < 0.4:
            dirs.append(d + "/build")
            for p in [p for p in sorted(files) if p.rsplit("/", 1)[0] == d]:
                if rng.random() < 0.5:
                    base.old_artefacts(rng, files, p)
    srcs = sorted(p for p in files if p.endswith(".tl"))
    for p in srcs:
        files[p]["mode"] = 0o644
    if len(srcs) > 1 and rng.random() < 0.2:        # nearly the same program elsewhere
        a, b = rng.sample(srcs, 2)
        t = gen.twin(rng, bytes.fromhex(files[a]["hex"]).decode("utf-8"))
        if REF.valid(t) and REF.formatted(t) is not None:
            files[b]["hex"] = t.encode("utf-8").hex()
    style = rng.random()
    procs = []
    fixed = rng.choice(["goal", "algod", None, None])
    for i in range(rng.choice([2, 2, 2, 3, 3, 4])):
        src = rng.choice(srcs)
        k = rng.random()
        d = src.rsplit("/", 1)[0]
        if k < 0.62 or style < 0.3:
            m = fixed or rng.choice(["compile", "goal", "goal", "algod"])
            arg, cwd = builds.where(rng, d, src if rng.random() < 0.7 else None)
            argv = base.build_argv(rng, arg, m)
        else:
            arg, cwd = builds.where(rng, d, src)
            argv = [rng.choice(["format", "format", "inspect"]), arg]
        procs.append(base.proc(argv, cwd, rseed="r%d" % i, pid=4000 + i if rng.random() < 0.7 else 30000 + 7 * i,
                               start=rng.choice([0.0, 0.0, 0.001])))
    if rng.random() < 0.25:         # two builds of a source, which is changed between them
        src = rng.choice(srcs)
        d = src.rsplit("/", 1)[0]
        two = []
        for i in range(2):
            arg, cwd = builds.where(rng, d, src if rng.random() < 0.7 else None)
            m = rng.choice(["goal", "goal", "algod", "algod", "compile"])
            two.append(base.proc(base.build_argv(rng, arg, m), cwd, rseed="r%d" % i, pid=4000 + i))
        if rng.random() < 0.7:
            two.insert(1, builds.editor(rng, src, None))
        else:
            arg, cwd = builds.where(rng, d, src)
            two.insert(1, base.proc(["format", arg], cwd, rseed="r2", pid=4002))
        procs = two + [dict(q, rseed="r3", pid=4003) for q in procs[:1] if rng.random() < 0.2]
    return {"files": files, "dirs": dirs, "seed": rng.randrange(10 ** 6), "enum": rng.randrange(1000), "procs": procs,
            "goal": {"step": rng.choice([4096, 4096, 16])}}


def item(rng, i, rec):
    sc = scenario(rng)
    r = rec.run({"sc": sc})
    if rec.stop:
        return
    total = r["total"]
    starts = r["first"]
    own = [n for n, q in enumerate(sc["procs"]) if q["kind"] == "tealish"]
    for _ in range(9 if rec.tier == "quick" else 24):
        c = cli.adv(sc)
        k = rng.random()
        if k < 0.25:        # everyone past start-up, then many switches
            n = rng.randint(6, 60)
            lo = min(starts)
            c["sched"] = [[rng.randrange(1, lo + 1), rng.randrange(4)] for _ in range(3)] + \
                         [[rng.randrange(lo, total + 1), rng.randrange(4)] for _ in range(n)]
        elif k < 0.7:
            c["sched"] = [[rng.randrange(1, total + 1), rng.randrange(4)] for _ in range(rng.randint(2, 25))]
        else:               # run one to a point, then the others, then back
            p = rng.choice(own)
            ops = r["ops"][own.index(p)]
            n = cli.place(rng, ops, cli.first_effect(ops))
            rot = sc["procs"][p:] + sc["procs"][:p]
            c["procs"] = [dict(q) for q in rot]
            c["procs"][0]["start"] = 0.0
            for q in c["procs"][1:]:
                q["after_op"] = [0, n]
                q["start"] = 0.0
            c["sched"] = [[g, 1 + rng.randrange(3)] for g in range(n, n + 6)]
            if rng.random() < 0.5:
                c["sched"] += [[rng.randrange(n, total + 1), rng.randrange(4)] for _ in range(rng.randint(1, 10))]
        if r["conflicts"] and rng.random() < (0.75 if len(own) < len(sc["procs"]) else 0.4):
            c["hold"] = base.holds(rng, r["conflicts"])
            if rng.random() < 0.6:
                c["procs"] = [dict(q) for q in sc["procs"]]
                c["sched"] = []
        if rng.random() < 0.12:
            p = rng.choice([n for n, q in enumerate(c["procs"]) if q["kind"] == "tealish"])
            ops = r["ops"][0]
            c["faults"] = [cli.fault(rng, p, ops, ["kill", "kill_after", "sigint", "sigterm"])]
        rec.run({"sc": c})
        if rec.stop:
            return


def evaluate(case):
    sc = case["sc"]
    s, w, watch = builds.run(sc, power=False)
    viol = list(watch.bad)
    sims = [s]
    if not viol:
        for c in w.cmds:
            viol += judge(s, w, c, sc, sims)
            if viol:
                break
    r = base.result(sims, viol)
    r["nontrivial"] = s.probes.get("preempted", 0) > 0 or bool(s.fired)
    r["ops"] = [list(p.ops) for p in s.procs if p.kind == "tealish"]
    r["first"] = [cli.first_effect(o) + 1 for o in r["ops"]]
    r["total"] = s.g
    r["conflicts"] = s.conflicts()
    return r


def alone(sc, idx):
    one = dict(sc, hold=[], procs=[{k: v for k, v in sc["procs"][idx].items() if k not in ("after", "after_op", "start")}], sched=[], faults=[])
    return builds.run(one, watch=False)


def touched(c):
    return set(c.sources) | set(c.outputs)


def judge(s, w, c, sc, sims):
    p = s.procs[c.idx]
    e = builds.ended(s, p)
    if e:
        return [e]
    if p.how != "exit" or p.faulted:
        return []
    out = []
    others = [o for o in w.cmds if o.idx != c.idx]
    name = " ".join(c.spec["argv"])
    texts = [t for x in c.sources for t in w.snapshots(x)]
    valid = all(w.snapshots(x) for x in c.sources) and all(t is not None and REF.valid(t) and REF.formatted(t) is not None for t in texts)
    if valid and p.code != 0:
        out.append(("fails", "`%s` fails (status %s) only because other commands run: %s" % (
            name, p.code, bytes(p.errs[-300:]).decode("utf-8", "replace"))))
    edited = {q["path"] for q in sc["procs"] if q["kind"] == "editor"}
    if p.code == 0 and c.kind in ("compile", "build", "format"):
        for path, (what, src) in sorted(c.outputs.items()):
            cur = s.vfs.read(path)
            if what == "source" and path in edited:
                continue
            if what == "source":
                ok = cur in [f.encode("utf-8") for f in (REF.formatted(t) for t in w.snapshots(src) if t is not None) if f is not None]
            else:
                ok = cur is not None and cur != w.initial(path) or cur in w.teals(src)
            if not ok:
                out.append(("lost", "`%s` exited 0 but %s is %s" % (name, path, "absent" if cur is None else "still the old content")))
    if p.code == 0 and c.kind == "inspect":
        try:
            got = json.loads(bytes(p.out).decode("utf-8"))
        except ValueError:
            got = None
        want = [r[1] for r in (REF.get("inspect", t) for t in w.snapshots(c.sources[0]) if t is not None) if r[0] == "ok"]
        if got not in want:
            out.append(("inspect", "`%s` printed something else than for any content of its source" % name))
    if out or any(touched(c) & touched(o) for o in others) or touched(c) & edited:
        return out
    s1, w1, _ = alone(sc, c.idx)
    sims.append(s1)
    p1 = s1.procs[0]
    if p1.code != p.code:
        out.append(("alone", "`%s` exits %s, alone it exits %s" % (name, p.code, p1.code)))
    if bytes(p1.out) != bytes(p.out):
        out.append(("alone", "`%s` prints something else than alone" % name))
    for path in c.outputs:
        if s1.vfs.read(path) != s.vfs.read(path):
            out.append(("alone", "`%s` leaves another %s than alone" % (name, path)))
    return out
