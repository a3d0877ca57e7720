"""C13: commands write only their documented outputs and leave no debris."""
import json

from .. import cli, kernel, specs
from .base import *      # noqa: F401,F403
from . import base, builds, c09

ID = "C13"
ITEMS = {"quick": 170, "thorough": 5000}
RULE = ("one run = one or two tealish commands (compile, build, format, inspect, stats, langspec fetch/update/diff) on a simulated machine with "
        "other people's files around, under I/O errors, a full disk, crashes, signals, assembler and network failures; every file that existed "
        "before is compared after every change, the whole tree at the end; non-trivial = a fault fired or a process was preempted")
KINDS = ["errno", "errno", "errno", "full", "memory", "short", "strike", "sigint", "sigint", "sigint_after", "sigint_blocked", "kill", "kill_after", "power"]
BYSTANDERS = ["build/other.txt", "build/notes.teal.bak", ".hidden", "a.tl.bak", "notes.md", "build/.keep", "a.teal", "build/a.teal.tmp", "a.tl.tmp",
              "langspec.json.tmp", "build/a.map", "README.tl.txt", "x.teal", "build/zz.teal", "build/zz.map.json", "build/zz.teal.tok"]
CLEANUP = {"unlink", "rmdir", "scandir", "stat", "lstat", "fstat", "opendir", "close", "chmod", "readlink", "access"}


def scenario(rng):
    k = rng.random()
    if k < 0.5:
        sc = builds.scenario(rng, p_bad=0.2, size=0.25)
        d = "/w"
    elif k < 0.75:
        d = "/w"
        files = builds.sources(rng, d, rng.choice([1, 2]), p_bad=0.25, size=0.25)
        src = rng.choice(sorted(files))
        cmd = rng.choice(["format", "format", "inspect", "stats"])
        arg, cwd = builds.where(rng, d, src if cmd != "stats" or rng.random() < 0.5 else None)
        sc = {"files": files, "dirs": [], "seed": rng.randrange(10 ** 6), "enum": rng.randrange(100),
              "procs": [base.proc([cmd, arg], cwd, rseed=str(rng.randrange(1000)), umask=rng.choice([0o022, 0o077]))]}
    else:
        sc = c09.scenario(rng)
        if rng.random() < 0.3:
            sc["procs"][0]["argv"] = ["langspec", "diff"] + ([rng.choice(["new", "old"])] if rng.random() < 0.6 else [])
        sc["dirs"] = []
    for _ in range(rng.choice([0, 1, 3, 6])):
        p = "/w/" + rng.choice(BYSTANDERS)
        sc["files"].setdefault(p, {"data": rng.choice(["", "mine\n", "x" * 500]), "mode": rng.choice([0o644, 0o600, 0o444])})
    for p in ("/tmp/out.teal", "/tmp/program.teal", "/tmp/notes"):
        if rng.random() < 0.15:
            sc["files"][p] = {"data": "mine too\n", "mode": 0o644}
    if rng.random() < 0.1:
        sc["dirs"].append("/w/empty")
    return sc


def item(rng, i, rec):
    sc = scenario(rng)
    r = rec.run({"sc": sc})
    if rec.stop:
        return
    ops, total = r["ops"][0], r["total"]
    srcs = [p for p in sc["files"] if p.endswith(".tl")]
    a = sc["procs"][0]["argv"]
    for _ in range(10 if rec.tier == "quick" else 26):
        c = cli.adv(sc)
        kinds = base.swarm(rng, KINDS)
        k = rng.random()
        if k < 0.25 and "build" in a:
            builds.assembler_fault(rng, c, max(1, len(srcs)))
        elif k < 0.35 and "langspec" in a:
            c["net"] = [builds.net_fault(rng, rng.randrange(2), c09.NET)]
        if k > 0.2 or rng.random() < 0.4:
            c["faults"] = [cli.fault(rng, 0, ops, kinds) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.12 and a[0] in ("compile", "build", "format", "inspect") and srcs:
            arg, cwd = builds.where(rng, "/w", rng.choice(srcs))
            av = rng.choice([base.build_argv(rng, arg), ["format", arg], ["inspect", arg]])
            c["procs"].append(base.proc(av, cwd, rseed="o", pid=4001))
            builds.preempt(rng, c, 2 * total)
        if rng.random() < 0.06:
            c["quota"] = rng.choice([0, 10, 100, 1000, 3000])
        rec.run({"sc": c})
        if rec.stop:
            return


class Guard:
    """Files nobody may touch, watched at every instant."""

    def __init__(self, w):
        self.keep = {p: v for p, v in w.tree.items() if v[0] != "d" and p not in w.outputs}
        self.bad = []

    def __call__(self, sim, p, op, changes):
        if self.bad:
            return
        for ch in changes:
            q = ch[1]
            v = self.keep.get(q)
            if v is not None:
                e = differs(sim, q, v)
                if e:
                    self.bad.append(("touched", "after %s by %s: %s, which is no output of the command, %s" % (op, p.name(), q, e)))


def differs(sim, q, v):
    try:
        i = sim.vfs.get(q, False)
    except OSError:
        return "was removed"
    if i.kind != v[0]:
        return "became another kind of file"
    if v[0] == "f" and bytes(i.data) != v[1]:
        return "changed: " + cli.show(bytes(i.data))
    if v[0] == "l" and i.target != v[1]:
        return "points elsewhere"
    if v[0] == "f" and i.mode != v[2]:
        return "changed its mode from %o to %o" % (v[2], i.mode)
    return None


def evaluate(case):
    sc = case["sc"]
    box = {}
    s = kernel.Sim(sc, on_change=lambda *a: box["g"](*a), record=True)
    w = cli.World(sc, s.initial)
    g = box["g"] = Guard(w)
    s.run()
    viol = list(g.bad)
    if not viol:
        viol = judge(s, w, sc)
    r = base.result([s], viol)
    r["ops"] = [list(p.ops) for p in s.procs if p.kind == "tealish"]
    r["total"] = s.g
    return r


def judge(s, w, sc):
    out = []
    for c in w.cmds:
        p = s.procs[c.idx]
        e = builds.ended(s, p)
        if e:
            out.append(e)
        if p.escapes:
            out.append(("escape", "`%s` writes outside its directories: %s" % (" ".join(c.spec["argv"]), p.escapes[:3])))
    tree = s.vfs.tree()
    if not s.poweroff:
        for q, v in w.tree.items():
            if v[0] == "d":
                if q not in tree or tree[q][0] != "d":
                    out.append(("touched", "the directory %s was removed" % q))
            elif q not in w.outputs:
                e = differs(s, q, v)
                if e:
                    out.append(("touched", "at the end %s, which is no output, %s" % (q, e)))
    if out or not all(tidy(s, s.procs[c.idx]) for c in w.cmds) or s.poweroff:
        return out
    dirs = {q.rsplit("/", 1)[0] for c in w.cmds if c.kind in ("compile", "build") for q in c.outputs}
    for q, v in tree.items():
        if q in w.tree or q in w.outputs:
            continue
        if v[0] == "d" and q in dirs:
            continue
        out.append(("debris", "`%s` (exit status %s) leaves %s %s behind" % (
            " | ".join(" ".join(c.spec["argv"]) for c in w.cmds), "/".join(str(s.procs[c.idx].code) for c in w.cmds),
            "the directory" if v[0] == "d" else "the file", q)))
        break
    return out


def tidy(s, p):
    """Did the process end by itself, its own cleaning up undisturbed?"""
    if p.how != "exit":
        return p.how is None
    for kind, op in p.struck:
        if kind == "sigterm":
            return False
        if kind.startswith("sigint") and op in ("open", "mkdir", "spawn"):
            return False            # between the call and the code that will undo it
        if op in CLEANUP and not kind.startswith(("short", "disk_full", "net:", "goal:")):
            return False
    return True
