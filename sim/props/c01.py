"""C01: `tealish format` never loses or tears the user's source file."""
import random

from .. import cli
from ..api import REF
from .base import *      # noqa: F401,F403
from . import base

ID = "C01"
ITEMS = {"quick": 150, "thorough": 4000}
RULE = ("one run = one simulated machine with a source file (random program, mode, size, line ends, symlink or not), `tealish format` "
        "on it and 0-3 faults or concurrent readers/savers placed at its system calls; non-trivial = a fault fired or a process was preempted")
KINDS = ["kill", "kill_after", "torn", "sigint", "sigint_after", "sigterm", "strike", "errno", "errno", "memory", "short", "full",
         "power", "power_torn"]
FILE = "/w/a.tl"


def scenario(rng):
    k = rng.random()
    if k < 0.15:
        src = base.bad(rng)
    elif k < 0.25:
        from .. import gen
        src = gen.big_program(rng, rng.choice([150, 400]))
    else:
        src = base.good(rng)
    if rng.random() < 0.15:
        f = REF.formatted(src)
        src = f if f is not None else src
    data = src.encode("utf-8")
    if rng.random() < 0.1:
        data = src.replace("\n", "\r\n").encode("utf-8")
    elif rng.random() < 0.05:
        data = data[:len(data) // 2] + b"\xff\xfe" + data[len(data) // 2:]
    elif rng.random() < 0.03:
        data = b""
    files = {FILE: {"hex": data.hex(), "mode": rng.choice([0o644, 0o644, 0o600, 0o664, 0o755, 0o640])}}
    arg, cwd = rng.choice([("a.tl", "/w"), ("/w/a.tl", "/home/user"), ("../w/a.tl", "/home"), ("./a.tl", "/w")])
    if rng.random() < 0.12:
        files["/home/user/link.tl"] = {"link": rng.choice(["/w/a.tl", "../../w/a.tl"])}
        arg, cwd = "link.tl", "/home/user"
    if rng.random() < 0.2:
        files["/w/other.tl"] = "exit(0)\n"
    sc = {"files": files, "seed": rng.randrange(10 ** 6),
          "procs": [base.proc(["format", arg], cwd, umask=rng.choice([0o022, 0o077, 0o002, 0]),
                              rseed=str(rng.randrange(1000)), bufsize=rng.choice([8192, 8192, 64, 512]))]}
    return sc


def item(rng, i, rec):
    sc = scenario(rng)
    case = {"sc": sc}
    r = rec.run(case)
    if rec.stop:
        return
    ops = r["ops"][0]
    for _ in range(12 if rec.tier == "quick" else 30):
        kinds = base.swarm(rng, KINDS)
        c = cli.adv(sc)
        c["faults"] = [cli.fault(rng, 0, ops, kinds) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if rng.random() < 0.15:
            c["procs"].append({"kind": "editor", "path": FILE, "pause": rng.randint(1, 10),
                               "versions": [base.variant(rng, "exit(1)\n") for _ in range(rng.randint(1, 2))]})
            c["sched"] = [[rng.randrange(5, 60), rng.randrange(2)] for _ in range(rng.randint(2, 8))]
            if rng.random() < 0.5:
                c["hold"] = base.holds(rng, [[0, FILE, 12]])
        elif rng.random() < 0.1:
            c["procs"].append(base.proc(["format", "/w/a.tl"], "/w", rseed="other"))
            c["sched"] = [[rng.randrange(5, 120), rng.randrange(2)] for _ in range(rng.randint(2, 10))]
            if rng.random() < 0.5:
                c["hold"] = base.holds(rng, [[0, FILE, 12], [1, FILE, 12]])
        if rng.random() < 0.08:
            c["quota"] = rng.choice([0, 10, 100, 1000])
        rec.run({"sc": c})
        if rec.stop:
            return


def evaluate(case):
    sc = case["sc"]
    box = {}

    def on(sim, p, op, changes):
        box["w"](sim, p, op, changes)
    from .. import kernel
    s = kernel.Sim(sc, on_change=on, record=True)
    w = cli.World(sc, s.initial)
    watch = box["w"] = cli.Watch(w)
    s.run()
    viol = list(watch.bad)
    if not viol:
        viol = final(s, sc, w)
    r = base.result([s], viol)
    r["ops"] = [list(p.ops) for p in s.procs if p.kind == "tealish"]
    r["probes"] = dict(r["probes"], instants=watch.instants, crash_images=watch.images)
    return r


def final(s, sc, w):
    out = []
    alone = sum(1 for p in sc["procs"] if p["kind"] != "reader") == 1
    for c in w.cmds:
        p = s.procs[c.idx]
        path = c.sources[0]
        cur = s.vfs.read(path)
        e = w.check(s, path, cur)
        if e is not None:
            out.append(("final", "%s is %s" % (path, e)))
            continue
        if p.how in ("hung", "spin", "segv"):
            out.append(("hang", "format did not end (%s)" % p.how))
        if p.how != "exit" or s.poweroff:
            continue
        if not alone:
            continue
        init = w.initial(path)
        text = cli.decode(init) if init is not None else None
        fmt = REF.formatted(text) if text is not None else None
        fmt = None if fmt is None else fmt.encode("utf-8")
        disturbed = bool(p.faulted) or sc.get("quota") is not None
        if p.code == 0 and cur != fmt:
            out.append(("success", "exit status 0 but %s holds %s instead of the formatted text" % (path, cli.show(cur))))
        if fmt is None and (cur != init or p.code == 0):
            out.append(("invalid", "a source that cannot be formatted was changed or accepted (status %s)" % p.code))
        if not disturbed and fmt is not None and (p.code != 0 or cur != fmt):
            out.append(("plain", "undisturbed format of a valid source: status %s, file %s" % (p.code, cli.show(cur))))
        if p.signalled and p.code == 0 and cur != fmt:
            out.append(("interrupt", "interrupted, status 0, not formatted"))
    return out
