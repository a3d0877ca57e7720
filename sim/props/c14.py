"""C14: a command that reports prints the whole, true report, or fails."""
import json
import posixpath

from .. import cli, gen, kernel, specs
from ..api import REF
from .base import *      # noqa: F401,F403
from . import base, builds, c09

ID = "C14"
ITEMS = {"quick": 170, "thorough": 5000}
RULE = ("one run = one `inspect`, `stats` or `langspec diff/fetch/update` on a simulated machine whose standard output is a file on a full "
        "disk, a pipe whose reader went away, or takes its data in pieces, under read and network failures, signals, failing allocations, an "
        "editor saving the file and a `langspec fetch` replacing the langspec meanwhile; what was printed is compared with undisturbed runs "
        "on every content the files had; non-trivial = a fault fired or a process was preempted")
KINDS = ["errno", "errno", "errno", "memory", "short", "short", "strike", "strike", "sigint", "sigint_after", "sigint_blocked", "sigterm"]
PATH = "/w/langspec.json"
# a directory that may not be entered or vanished is left out of `stats`, as by ls and find
LEFT_OUT = tuple("errno:%s:%s" % (o, e) for o in ("scandir", "stat", "lstat", "open", "readlink")
                 for e in ("EACCES", "EPERM", "ENOENT", "ENOTDIR", "ELOOP", "EBADF"))
_refs = {}


def text(rng):
    k = rng.random()
    if k < 0.25:
        return base.bad(rng, size=0.3)
    if k < 0.35:
        return "".join(rng.choice(["// c\n", "int 1\n", "  // c\n", "return\n", "\n", "end\n", "b x // y\n"]) for _ in range(rng.randrange(0, 60)))
    if k < 0.42:
        return gen.big_program(rng, rng.choice([60, 300]))
    return base.good(rng, size=0.4)


def structs(rng):
    """A program with many structs: a report of several thousand characters."""
    out = []
    for i in range(rng.choice([2, 5, 20, 60])):
        out.append("struct S%d:\n" % i + "".join("    %s%d: %s\n" % (rng.choice("abxyz"), j, rng.choice(["int", "uint8", "bytes[%d]" % rng.randint(1, 64)]))
                                               for j in range(rng.randint(1, 8))) + "end\n")
    return "".join(out) + "exit(1)\n"


def scenario(rng):
    k = rng.random()
    files, dirs, net = {}, [], False
    names = [None]
    if rng.random() < 0.4:
        n = rng.choice(c09.SPECS)
        files[PATH] = json.dumps(specs.get(n))
        names = [n]
    if k < 0.4:
        src = structs(rng) if rng.random() < 0.6 else text(rng)
        if names != [None] and rng.random() < 0.3:
            src = rng.choice(c09.PROGS)
        files["/w/a.tl"] = src
        if rng.random() < 0.1:
            arg, cwd = "-", "/w"
        else:
            arg, cwd = builds.where(rng, "/w", "/w/a.tl") if names == [None] else (rng.choice(["a.tl", "./a.tl", "/w/a.tl"]), "/w")
        p = base.proc(["inspect", arg], cwd, rseed=str(rng.randrange(1000)))
        if arg == "-":
            p["stdin"] = src
            p["stdin_chunk"] = rng.choice([1, 7, 100, 4096]) + len(src) // 300
    elif k < 0.75:
        for q in rng.sample(["/w/a.tl", "/w/b.tl", "/w/sub/c.tl", "/w/sub/d.tl", "/w/x/e.tl", "/w/build/a.teal", "/w/sub/build/c.teal",
                             "/w/x/build/e.teal", "/w/sub/notes.md"], rng.randint(1, 7)):
            files[q] = text(rng)
        ps = sorted(q for q in files if q.endswith(".tl"))
        if rng.random() < 0.3 and ps:
            arg, cwd = builds.where(rng, "/w", rng.choice(ps)) if names == [None] else (rng.choice(ps), "/w")
        else:
            arg, cwd = builds.where(rng, "/w") if names == [None] else (".", "/w")
        p = base.proc(["stats", arg], cwd, rseed=str(rng.randrange(1000)))
    else:
        if rng.random() < 0.6:
            p = base.proc(["langspec", "diff"] + rng.choice([[], [], ["new"], ["https://specs.sim/new.json"], ["old"]]), "/w")
        else:
            p = base.proc(c09.fetch_argv(rng)[0], "/w")
        p["rseed"] = str(rng.randrange(1000))
    p["bufsize"] = rng.choice([8192, 8192, 256])
    return {"files": files, "dirs": dirs, "seed": rng.randrange(10 ** 6), "enum": rng.randrange(1000), "spec_names": names, "procs": [p]}


def item(rng, i, rec):
    sc = scenario(rng)
    r = rec.run({"sc": sc})
    if rec.stop:
        return
    ops, total, size = r["ops"][0], r["total"], r["printed"]
    a = sc["procs"][0]["argv"]
    tls = [p for p in sc["files"] if p.endswith((".tl", ".teal"))]
    net = a[0] == "langspec" and a[1:] != ["diff"]
    if a[0] == "stats":         # a directory that cannot be read
        for n in [j + 1 for j, o in enumerate(ops) if o == "scandir"][-3:]:
            c = cli.adv(sc)
            c["faults"] = [{"kind": "errno", "errno": 5, "n": n, "proc": 0}]
            rec.run({"sc": c})
            if rec.stop:
                return
    for _ in range(10 if rec.tier == "quick" else 26):
        c = cli.adv(sc)
        kinds = base.swarm(rng, KINDS)
        k = rng.random()
        if k < 0.35:
            c["procs"][0]["stdout"] = {"room": rng.choice([0, 1, rng.randrange(size + 2), max(0, size - 1), size]),
                                       "err": rng.choice(["ENOSPC", "EPIPE", "EIO", "EDQUOT"])}
            if rng.random() < 0.4:
                c["procs"][0]["stdout"]["chunk"] = rng.choice([1, 10, 100]) + size // 300
        elif k < 0.5:
            c["procs"][0]["stdout"] = {"chunk": rng.choice([1, 7, 100]) + size // 300}
        if k > 0.4 and net and rng.random() < 0.6:
            c["net"] = [builds.net_fault(rng, rng.randrange(2), c09.NET if rng.random() < 0.7 else builds.NETOK)]
            for f in c["net"]:
                if f.get("seg", 3000) < 3000:
                    f["seg"] = 3000
        if rng.random() < 0.5:
            c["faults"] = [spread(rng, ops, kinds) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.3:
            if tls and a[0] != "langspec" and a[1:] != ["-"] and rng.random() < 0.75:
                q = rng.choice(tls)
                c["procs"].append(builds.editor(rng, q, c))
                if a[0] == "inspect" and rng.random() < 0.7:
                    c["procs"][-1]["versions"] = [structs(rng)]
            else:
                q = PATH
                av, nm = c09.fetch_argv(rng)
                c["procs"].append(base.proc(av, "/w", rseed="o", pid=4009))
                c["spec_names"] = sorted({nm, *c["spec_names"]}, key=str)
            builds.preempt(rng, c, total + 30)
            if rng.random() < 0.6:
                c["hold"] = base.holds(rng, [[0, q, 8]])
        rec.run({"sc": c})
        if rec.stop:
            return


def spread(rng, ops, kinds):
    """Half of the faults on reading and printing, half anywhere."""
    f = cli.fault(rng, 0, ops, kinds)
    for _ in range(6):
        if ops[f["n"] - 1] in ("read", "write", "open", "scandir", "recv", "connect") or rng.random() < 0.3:
            break
        f = cli.fault(rng, 0, ops, kinds)
    return f


def evaluate(case):
    sc = case["sc"]
    s = kernel.Sim(sc, record=True)
    w = cli.World(sc, s.initial)
    s.run()
    viol = judge(s, w, sc)
    r = base.result([s], viol)
    r["ops"] = [list(p.ops) for p in s.procs if p.kind == "tealish"]
    r["total"] = s.g
    r["printed"] = len(s.procs[0].out)
    return r


def reference(sc, files):
    """(status, output) of the command on its own, on a machine with these files."""
    p = {k: v for k, v in sc["procs"][0].items() if k not in ("stdout", "stdin_chunk", "start", "after", "after_op", "bufsize")}
    one = {"files": files, "dirs": sc.get("dirs", []), "seed": 0, "enum": sc.get("enum", 0), "procs": [p]}
    key = json.dumps(one, sort_keys=True)
    if key not in _refs:
        if len(_refs) > 300:
            _refs.clear()
        s = kernel.Sim(one).run()
        _refs[key] = (s.procs[0].code if s.procs[0].how == "exit" else None, bytes(s.procs[0].out))
    return _refs[key]


def expected(sc):
    """What the command may print: a report on contents the files really had."""
    out = []
    for n in sc["spec_names"]:
        files = dict(sc["files"])
        if n is None:
            files.pop(PATH, None)
        else:
            files[PATH] = json.dumps(specs.get(n))
        out.append(reference(sc, files))
        for q in sc["procs"]:
            if q["kind"] == "editor":
                out += [reference(sc, dict(files, **{q["path"]: v})) for v in q["versions"]]
    return out


def canonical(argv, data):
    if argv[0] == "stats":              # in whatever order the directory is listed
        return sorted(data.splitlines(True))
    if argv[0] == "inspect" and data:
        try:
            return json.loads(data.decode("utf-8"))
        except ValueError:
            return data
    return data


def judge(s, w, sc):
    p = s.procs[0]
    e = builds.ended(s, p)
    if e:
        return [e]
    if p.how != "exit" or s.poweroff:
        return []
    argv = sc["procs"][0]["argv"]
    name = " ".join(argv)
    want = expected(sc)
    good = [canonical(argv, o) for c, o in want if c == 0]
    got = canonical(argv, bytes(p.out))
    if p.code == 0 and got not in good and not (argv[0] == "stats" and any(f in LEFT_OUT for f in p.faulted)):
        return [("report", "`%s` exits 0, but printed %s instead of %s" % (
            name, cli.show(bytes(p.out), 120), cli.show(want[0][1], 120) if good else "failing"))]
    if not p.faulted and not builds.disturbed(sc) and p.code != 0 and len(good) == len(want):
        return [("plain", "`%s` fails (status %s) without a failure: %s" % (name, p.code, bytes(p.errs[-200:]).decode("utf-8", "replace")))]
    return []
