"""C09: installing a langspec is all-or-nothing and never bricks the tool."""
import json

from .. import cli, kernel, specs
from ..api import REF
from .base import *      # noqa: F401,F403
from . import base, builds

ID = "C09"
ITEMS = {"quick": 130, "thorough": 4000}
RULE = ("one run = `langspec fetch` or `update` on a simulated machine with no, an older or another langspec.json, network failures, wrong "
        "documents, I/O errors, crashes, and other tealish commands started at random moments in the same directory, then one more command; "
        "non-trivial = a fault fired or a process was preempted")
KINDS = builds.CRASH + builds.IOERR
PATH = "/w/langspec.json"
NET = ["refused", "unreachable", "dns", "reset", "reset_early", "truncate", "truncate", "status", "html200", "empty200", "notspec", "notspec",
       "stall"]
# programs whose outcome depends on the langspec in force
PROGS = ['bytes a = simop_new("x")\nlog(a)\nexit(1)\n', 'bytes a = simop_master("x")\nlog(a)\nexit(1)\n',
         'int r = ed25519verify_bare("a", "b", "c")\nexit(r)\n', "exit(1)\n", 'log(itob(1))\nexit(Txn.Fee)\n',
         'int ok = box_create("k", 8)\nexit(ok)\n']
# a program that needs the operation (which every langspec here has)
PROBES = {"sha256": 'log(sha256("a"))\nexit(1)\n', "btoi": 'exit(btoi("a"))\n', "itob": "log(itob(1))\nexit(1)\n",
          "concat": 'log(concat("a", "b"))\nexit(1)\n', "len": 'exit(len("a"))\n', "balance": "exit(balance(0))\n",
          "bzero": "log(bzero(4))\nexit(1)\n", "select": "exit(select(1, 2, 3))\n", "+": "exit(1 + 2)\n", "==": "exit(1 == 2)\n"}
SPECS = ["old", "new", "base", "small", "master"]


def fetch_argv(rng, name=None):
    if name is None and rng.random() < 0.25:
        return ["langspec", "update"], "master"
    name = name or rng.choice(SPECS[:4])
    return ["langspec", "fetch", rng.choice(["https://specs.sim/%s.json", "http://specs.sim/%s.json", "%s", "%s",
                                             "https://github.com/algorand/go-algorand/blob/%s/data/transactions/logic/langspec.json"]) % name], name


def scenario(rng):
    files, names = {}, []
    k = rng.random()
    init = None
    if k < 0.6:
        init = rng.choice(SPECS)
        files[PATH] = {"data": json.dumps(specs.get(init)), "mode": rng.choice([0o644, 0o644, 0o600, 0o664])}
    elif k < 0.7:
        files["/home/user/shared.json"] = json.dumps(specs.get("old"))
        files[PATH] = {"link": "/home/user/shared.json"}
        init = "old"
    argv, name = fetch_argv(rng)
    prog = rng.choice(PROGS)
    if rng.random() < 0.15:         # a document that is a langspec but for one operation
        op = rng.choice(sorted(PROBES))
        argv, name = ["langspec", "fetch", "https://specs.sim/broken-%s-%s.json" % (op, rng.choice(["Size", "SizeText", "Args", "Returns"]))], init
        prog = PROBES[op]
    sc = {"files": files, "seed": rng.randrange(10 ** 6), "spec_names": sorted({init, name}, key=str),
          "procs": [base.proc(argv, "/w", rseed=str(rng.randrange(1000)), umask=rng.choice([0o022, 0o077]))]}
    files["/w/p.tl"] = prog
    return sc


def item(rng, i, rec):
    sc = scenario(rng)
    broken = any("broken-" in a for a in sc["procs"][0]["argv"])
    r = rec.run({"sc": sc, "follow": broken or rng.random() < 0.5})
    if rec.stop:
        return
    ops, total = r["ops"][0], r["total"]
    for _ in range(9 if rec.tier == "quick" else 24):
        c = cli.adv(sc)
        k = rng.random()
        kinds = base.swarm(rng, KINDS)
        if k < 0.35:
            c["net"] = [builds.net_fault(rng, rng.randrange(2), NET)]
        elif k < 0.45:
            c["net"] = [builds.net_fault(rng, j, builds.NETOK) for j in range(2)]
            for f in c["net"]:
                if f.get("seg", 1000) < 1000:
                    f["seg"] = 3000
        if k > 0.4 or rng.random() < 0.3:
            c["faults"] = [cli.fault(rng, 0, ops, kinds) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.5:
            names = set(sc["spec_names"])
            for _ in range(rng.choice([1, 1, 2])):
                n = cli.place(rng, ops, cli.first_effect(ops))
                q = rng.random()
                if q < 0.6:
                    av = rng.choice([["compile", "p.tl"], ["compile", "p.tl"], ["inspect", "p.tl"], ["langspec", "diff"]])
                else:
                    av, nm = fetch_argv(rng)
                    names.add(nm)
                c["procs"].append(base.proc(av, "/w", rseed="o%d" % rng.randrange(1000), after_op=[0, n]))
            c["spec_names"] = sorted(names, key=str)
            c["sched"] = [[rng.randrange(1, total + 200), rng.randrange(4)] for _ in range(rng.randint(2, 16))]
            if rng.random() < 0.5:
                c["hold"] = base.holds(rng, [[j, PATH, 6] for j in range(len(c["procs"]))])
        if rng.random() < 0.06:
            c["quota"] = rng.choice([0, 10, 1000, 30000])
        rec.run({"sc": c, "follow": rng.random() < (0.8 if broken else 0.35)})
        if rec.stop:
            return


def outcomes(names, text):
    """(exit code 0?, artefact) the compile of `text` may have."""
    return [REF.teal(text, n) for n in names]


def evaluate(case):
    sc = case["sc"]
    s, w, watch = builds.run(sc)
    viol = list(watch.bad)
    sims = [s]
    if not viol:
        viol = judge(s, w, sc)
    if not viol and case.get("follow"):
        viol = follow(s, w, sc, sims)
    r = base.result(sims, viol)
    r["ops"] = [list(p.ops) for p in s.procs if p.kind == "tealish"]
    r["total"] = s.g
    return r


def target(w):
    return cli.real(PATH, w.links)


def judge(s, w, sc):
    out = []
    prog = w.tree["/w/p.tl"][1].decode()
    fetchers = [c for c in w.cmds if c.kind == "langspec" and c.sub != "diff"]
    cur = s.vfs.read(target(w))
    for c in w.cmds:
        p = s.procs[c.idx]
        name = " ".join(c.spec["argv"])
        e = builds.ended(s, p)
        if e:
            out.append(e)
        if p.how != "exit" or s.poweroff:
            continue
        if c in fetchers:
            want = cli.spec_name(c.args)
            if p.code == 0 and len([q for q in fetchers]) == 1:
                if cur is None or parsed(cur) != specs.get(want):
                    out.append(("success", "`%s` exits 0 but langspec.json is %s" % (name, cli.show(cur))))
            if not p.faulted and not builds.disturbed(sc) and p.code != 0 and not want.startswith("broken-"):
                out.append(("plain", "`%s` fails without a failure: %s" % (name, bytes(p.errs[-200:]).decode("utf-8", "replace"))))
        elif not p.faulted and sc.get("quota") is None and not any(f["kind"] == "full" for f in sc.get("faults", [])):
            out += started(s, w, c, sc["spec_names"], prog)
    return out


def parsed(b):
    try:
        return json.loads(b.decode("utf-8"))
    except ValueError:
        return None


def started(s, w, c, names, prog):
    """A command that merely ran at the same time: wholly one spec or another."""
    p = s.procs[c.idx]
    name = " ".join(c.spec["argv"])
    err = bytes(p.errs[-300:]).decode("utf-8", "replace")
    if c.kind == "langspec":
        return [("bricked", "`%s` fails: %s" % (name, err))] if p.code != 0 else []
    wants = {n: REF.valid(prog, n) for n in names}
    if p.code == 0 and not any(wants.values()) or p.code != 0 and all(wants.values()):
        return [("bricked", "`%s` exits %d, which no langspec explains: %s" % (name, p.code, err))]
    if p.code != 0 and "Traceback" in err and any(x in err for x in ("JSONDecodeError", "KeyError: 'Ops'", "langspec.py")):
        return [("bricked", "`%s` cannot start: %s" % (name, err))]
    if p.code == 0 and c.kind == "compile":
        got = s.vfs.read("/w/build/p.teal")
        if got not in [REF.teal(prog, n).encode("utf-8") for n in names if wants[n]]:
            return [("mixed", "`%s` exits 0 with TEAL of no langspec" % name)]
    return []


def follow(s, w, sc, sims):
    """After everything: one more command in the same directory."""
    files, dirs = base.spec_of(s.vfs.tree())
    nxt = {"files": files, "dirs": dirs, "seed": sc["seed"], "spec_names": sc["spec_names"],
           "procs": [base.proc(["compile", "p.tl"], "/w", rseed="follow")]}
    s2, w2, _ = builds.run(nxt, watch=False)
    sims.append(s2)
    prog = w.tree["/w/p.tl"][1].decode()
    out = started(s2, w2, w2.cmds[0], sc["spec_names"], prog)
    return [("after", "after the run: " + m) for _, m in out]
