"""C15: Ctrl-C and SIGTERM stop a command."""
import os

from .. import cli, kernel
from .base import *      # noqa: F401,F403
from . import base, builds, c09, c14

ID = "C15"
ITEMS = {"quick": 150, "thorough": 4500}
PROMPT = 10.0
RULE = ("one run = one command (compile, build with goal or algod, format, inspect, stats, langspec) on a simulated machine that gets SIGINT or "
        "SIGTERM at a seeded system call, between calls, or while it waits for algod, goal or a langspec server that may be slow or silent, "
        "sometimes twice or with another failure; what the command does from then on is recorded; non-trivial = a fault fired")
KINDS = ["sigint", "sigint", "sigint_after", "sigint_blocked", "sigint_blocked", "strike", "sigterm"]
# what starts more work; cleaning up, and ending what is being written, is allowed
WORK = {"rename": "puts a file in place", "mkdir": "makes a directory", "spawn": "starts the assembler", "connect": "connects to the peer",
        "link": "links a file", "symlink": "links a file"}


def scenario(rng):
    k = rng.random()
    if k < 0.6:
        return builds.scenario(rng, mode=rng.choice(["compile", "goal", "algod", "algod"]), p_bad=0.1, size=0.3)
    if k < 0.75:
        files = builds.sources(rng, "/w", 1, p_bad=0.1)
        src = sorted(files)[0]
        arg, cwd = builds.where(rng, "/w", src)
        return {"files": files, "dirs": [], "seed": 1, "procs": [base.proc(["format", arg], cwd, rseed=str(rng.randrange(1000)))]}
    if k < 0.88:
        sc = c09.scenario(rng)
        return sc
    return c14.scenario(rng)


def item(rng, i, rec):
    sc = scenario(rng)
    r = rec.run({"sc": sc})
    if rec.stop:
        return
    ops = r["ops"][0]
    start = cli.first_effect(ops)
    waits = [n + 1 for n, o in enumerate(ops) if o in ("wait", "recv", "connect", "pread_out", "sleep")]
    a = sc["procs"][0]["argv"]
    net = builds.is_algod(sc) or a[0] == "langspec" and a[1:] != ["diff"]
    for _ in range(11 if rec.tier == "quick" else 30):
        c = cli.adv(sc)
        c["faults"] = []
        if net and rng.random() < 0.45:
            f = builds.net_fault(rng, rng.randrange(2), ["stall", "delay", "seg"])
            if f.get("seg", 100) < 100:
                f["seg"] = 100
            c["net"] = [f]
        if waits and rng.random() < 0.4:
            n = rng.choice(waits)
            if "net" in c and rng.random() < 0.5:      # wherever it waits longest
                c["faults"] += [{"proc": 0, "n": m, "kind": "sigint_blocked", "delay": rng.randint(1, 4)} for m in range(start, len(ops) + 12)]
            else:
                c["faults"].append({"proc": 0, "n": n, "kind": "sigint_blocked", "delay": rng.randint(1, 4)})
        else:
            f = cli.fault(rng, 0, ops, KINDS)
            if f.get("what"):
                f["what"] = "sigint"
            c["faults"].append(f)
        if rng.random() < 0.2:
            f = cli.fault(rng, 0, ops, ["sigint", "errno", "strike", "memory"])
            if f["n"] > c["faults"][0]["n"]:
                c["faults"].append(f)
        rec.run({"sc": c})
        if rec.stop:
            return


def evaluate(case):
    sc = case["sc"]
    s = kernel.Sim(sc, record=True).run()
    viol = []
    for p in s.procs:
        if p.kind == "tealish":
            viol += judge(s, p)
    r = base.result([s], viol)
    r["ops"] = [list(p.ops) for p in s.procs if p.kind == "tealish"]
    return r


def judge(s, p):
    e = builds.ended(s, p)
    if e:
        return [e]
    if not p.signalled or p.how not in ("exit", "killed"):
        return []
    name = "`%s`" % " ".join(p.spec["argv"])
    for op, args in p.after_sig:
        what = WORK.get(op)
        if op == "open" and args[1] & os.O_CREAT:
            what = "creates a file"
        if what:
            return [("goes on", "%s goes on after the signal: it %s (%s %s)" % (name, what, op, kernel.brief(args)))]
    if p.ended_at - p.sig_now > PROMPT:
        return [("slow", "%s ends only %.0f seconds after the signal" % (name, p.ended_at - p.sig_now))]
    if p.how == "exit" and p.code == 0 and any(op in ("write", "read", "open", "scandir", "recv") for op, _ in p.after_sig):
        return [("ignored", "%s takes no notice of the signal, goes on and exits 0" % name)]
    return []
