"""C07: an interrupted compilation raises, and leaves no trace on later ones."""
import hashlib
import json

from ..api import COOP, REF
from .lib import *      # noqa: F401,F403
from . import base, c06, lib

ID = "C07"
ITEMS = {"quick": 75, "thorough": 5000}
STATES = "distinct (source, place, kind of exception) of interruptions, with what became of the call"
RULE = ("one run = a process making 2-6 calls of compile_program, reformat_program or inspect_program, one or more of them struck by "
        "KeyboardInterrupt, MemoryError, a timeout handler's exception (catchable or not) or stack exhaustion at a seeded instant, chosen by "
        "code location; the struck call must raise or return the correct result, every other call must equal a fresh process; in a third of the runs the "
        "calls are made by 2-3 threads under a seeded schedule and some of them are struck while others run or wait; "
        "non-trivial = an exception was raised")
EXC = ["kbd", "kbd", "mem", "timeout", "timeoutbase"]


def strike(rng, rec):
    want = rng.choice([0, 0, 0, 1, 2, 2])
    n, in_try = lib.moment2(rng, rec, want)
    return ["int", rng.choice(["mem", "timeout"]) if in_try and rng.random() < 0.6 else rng.choice(EXC), n]


def crowd(rng, rec):
    """Calls in 2-3 threads; some are struck while the others run."""
    nt = rng.choice([2, 2, 3])
    n = rng.choice([1, 1, 2, 3])
    srcs = lib.focus(rng, lib.pool(rng, 5 if n > 1 and rng.random() < 0.5 else n, size=rng.choice([0.1, 0.15, 0.3]), limit=500), n)
    progs = [[["api", rng.choice(lib.KINDS), rng.choice(srcs)] for _ in range(rng.choice([1, 2, 3]))] for _ in range(nt)]
    recs = [lib.places(p) for p in progs]
    if not all(recs):
        rec.run({"progs": progs, "plan": []})
        return
    for _ in range(14 if rec.tier == "quick" else 40):
        plan = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            a = rng.randrange(nt)
            e = strike(rng, recs[a])
            if rng.random() < 0.7:          # the others come to wait for it, or run into what it left
                plan.append([a, max(1, e[2] - rng.choice([0, 1, 2, 5, 20, 100, rng.randrange(1, 2000)])), rng.randrange(nt)])
                b = rng.randrange(nt)
                if b != a:
                    plan.append([b, lib.moment(rng, recs[b]), a - (a > b)])
            plan.append([a, e[2], e[1]])
        for _ in range(rng.choice([0, 0, 1, 3])):
            a = rng.randrange(nt)
            plan.append([a, lib.moment(rng, recs[a]), rng.randrange(nt)])
        rec.run({"progs": progs, "plan": plan})
        if rec.stop:
            return


def item(rng, i, rec):
    if rng.random() < 0.3:
        return crowd(rng, rec)
    n = rng.choice([1, 2, 3])
    srcs = lib.focus(rng, lib.pool(rng, 5 if n > 1 and rng.random() < 0.5 else n, size=rng.choice([0.1, 0.2, 0.3]), p_bad=0.15), n)
    calls = [["api", rng.choice(lib.KINDS), rng.choice(srcs)] for _ in range(rng.randint(2, 4))]
    r = rec.run({"steps": calls})
    if rec.stop:
        return
    recs = [lib.places1(calls, j) for j in range(len(calls))]
    if not all(recs):
        return
    for _ in range(16 if rec.tier == "quick" else 48):
        steps = []
        if rng.random() < 0.5:              # one call struck again and again, then left alone
            j = rng.randrange(len(calls))
            for _ in range(rng.randint(8, 20)):
                steps += [strike(rng, recs[j]), calls[j]]
            rec.run({"steps": calls[:j] + steps + calls})
            if rec.stop:
                return
            continue
        hit = {rng.randrange(len(calls) - 1)} if rng.random() < 0.7 else {j for j in range(len(calls) - 1) if rng.random() < 0.6}
        for j, c in enumerate(calls):
            if j in hit:
                if rng.random() < 0.2:
                    steps.append(["rec", rng.randint(2, 100)])
                else:
                    steps.append(strike(rng, recs[j]))
                    if rng.random() < 0.1:
                        steps.append(["int", rng.choice(EXC), steps[-1][2] + rng.randrange(1, 12)])
                if rng.random() < 0.15:      # the same call again, struck again, before it is left alone
                    steps.append(c)
                    steps.append(strike(rng, recs[j]))
            steps.append(c)
            if j in hit and rng.random() < 0.5:
                steps.append(c)
        rec.run({"steps": steps})
        if rec.stop:
            return


def judge_crowd(case):
    r = COOP.zygote().call("sim.inproc:threads", case["progs"], case["plan"])
    viol, fired = [], {}
    if isinstance(r, list):
        viol.append(("hang", "the calls never end after the interruption: %s" % r[:2]))
        r = {"out": [], "switched": 0, "events": [], "total": 0, "dead": False, "altered": False, "struck": [], "raised": []}
    for k in r["raised"]:
        fired[k] = fired.get(k, 0) + 1
    if r["switched"]:
        fired["preemption"] = r["switched"]
    struck = {tuple(x) for x in r["struck"]}
    if r["dead"]:
        stuck = [i for i, o in enumerate(r["out"]) if ["deadlock"] in o]
        viol.append(("deadlock", "calls in threads %s block for ever%s" % (stuck, " after an interruption of another" if struck else "")))
    else:
        for t, (steps, outs) in enumerate(zip(case["progs"], r["out"])):
            for j, (st, o) in enumerate(zip(steps, outs)):
                w, o = lib.want(st), json.loads(json.dumps(o))
                if o == w or viol:
                    continue
                if (t, j) not in struck:
                    viol.append(("trace", "thread %d: %s_program gives another result, interrupted was a call %s: %s" % (
                        t, st[1], "in another thread" if t not in {x for x, _ in struck} else "of its own", lib.diff(o, w))))
                elif o[0] == "ok":
                    viol.append(("partial", "thread %d: %s_program was interrupted and returns an altered result: %s" % (t, st[1], lib.diff(o, w))))
        if r["altered"] and not viol:
            viol.append(("altered", "a result was changed after it had been returned"))
    d = hashlib.blake2b(repr((case["plan"], r["events"], r["out"])).encode(), digest_size=12).hexdigest()
    return {"viol": [list(v) for v in viol], "fired": fired, "probes": {"events": r["total"]}, "states": [d] if struck else [], "simtime": 0.0,
            "digest": d, "log": [], "nontrivial": bool(struck), "runs": 1}


def evaluate(case):
    if "progs" in case:
        return judge_crowd(case)
    steps = case["steps"]
    r = COOP.zygote().call("sim.inproc:history", steps)
    viol, struck = [], 0
    fired = {}
    if isinstance(r, list):
        viol.append(("hang", "the calls never end after the interruption: %s" % r[:2]))
        r = {"out": [], "altered": False}
    pend = []
    outs = iter(json.loads(json.dumps(r["out"])))
    desc = []
    for st in steps if r["out"] else []:
        if st[0] in ("int", "rec"):
            pend.append(st)
            continue
        o = next(outs)
        info = o.pop()
        w = lib.want(st)
        for k in info["raised"]:
            fired[k] = fired.get(k, 0) + 1
        exhausted = any(p[0] == "rec" for p in pend) and o != w
        if exhausted:
            fired["stack"] = fired.get("stack", 0) + 1
        hit = bool(info["raised"]) or exhausted
        struck += hit
        desc.append([st[1], pend, o[0], info])
        if o == ["deadlock"] and not viol:
            viol.append(("deadlock", "%s_program blocks for ever: an earlier interruption left a lock" % st[1]))
        elif hit and o[0] == "ok" and o != w and not viol:
            viol.append(("partial", "%s_program was interrupted (%s) and returns an altered result: %s" % (st[1], pend, lib.diff(o, w))))
        elif not hit and o != w and not viol:
            viol.append(("trace", "%s_program gives another result after an interruption of an earlier call: %s" % (st[1], lib.diff(o, w))))
        pend = []
    if r["altered"] and not viol:
        viol.append(("altered", "a result was changed after it had been returned"))
    d = hashlib.blake2b(repr((steps, desc)).encode(), digest_size=12).hexdigest()
    return {"viol": [list(v) for v in viol], "fired": fired, "probes": {"calls": len(desc)}, "states": [d] if struck else [], "simtime": 0.0,
            "digest": d, "log": [str(x) for x in desc], "nontrivial": struck > 0, "runs": 1}


def shrink(case):
    if "progs" in case:
        yield from c06.shrink(case)
        return
    st = case["steps"]
    for i in range(len(st)):
        x = st[:i] + st[i + 1:]
        if x and x[-1][0] == "api":
            yield {"steps": x}


def close():
    COOP.close()
