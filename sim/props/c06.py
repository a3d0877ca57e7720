"""C06: compilations in different threads do not affect each other."""
import hashlib
import json

from ..api import COOP, REF
from .lib import *      # noqa: F401,F403
from . import base, lib

ID = "C06"
ITEMS = {"quick": 130, "thorough": 4000}
STATES = "distinct vectors of (thread, place in the code) at which threads were switched"
RULE = ("one run = 2-4 threads, each making 1-3 calls of compile_program, reformat_program or inspect_program on related sources, under a seeded "
        "schedule of switches at interpreter events, chosen by code location so that rare code is preempted as often as hot code; each result is "
        "compared with a fresh process; non-trivial = at least one preemption happened")


def item(rng, i, rec):
    nt = rng.choice([2, 2, 2, 3, 4])
    n = rng.choice([1, 2, 2, 3])
    srcs = lib.focus(rng, lib.pool(rng, 5 if n > 1 and rng.random() < 0.5 else n, size=rng.choice([0.1, 0.15, 0.3]), limit=700 if nt == 2 else 400), n)
    progs = []
    kinds = rng.choice([lib.KINDS, lib.KINDS, ["compile"], ["reformat"], ["inspect", "reformat"]])
    for t in range(nt):
        progs.append([["api", rng.choice(kinds), rng.choice(srcs)] for _ in range(rng.choice([1, 1, 2, 3] if nt == 2 else [1, 1, 2]))])
    recs = [lib.places(p) for p in progs]
    if not all(recs):
        rec.run({"progs": progs, "plan": []})
        return
    for _ in range(14 if rec.tier == "quick" else 40):
        k = rng.random()
        plan = []
        if k < 0.2:             # each pauses where it likes, in turn
            for _ in range(rng.choice([10, 20, 40])):
                a = rng.randrange(nt)
                plan.append([a, lib.moment(rng, recs[a]), (a + 1) % nt])
            rec.run({"progs": progs, "plan": plan})
            if rec.stop:
                return
            continue
        if k < 0.32 and meetings(rng, recs, plan):
            rec.run({"progs": progs, "plan": plan})
            if rec.stop:
                return
            continue
        if k < 0.42:            # one thread stops somewhere, the others run, perhaps to another place and back
            a = rng.randrange(nt)
            plan.append([a, lib.moment(rng, recs[a]), rng.randrange(nt)])
            for b in range(nt):
                if b != a and rng.random() < 0.7:
                    plan.append([b, lib.moment(rng, recs[b]), rng.randrange(nt)])
        else:
            for _ in range(rng.choice([2, 3, 4, 6, 10, 20])):
                a = rng.randrange(nt)
                plan.append([a, lib.moment(rng, recs[a]), rng.randrange(nt)])
        if rng.random() < 0.3:  # bursts: threads in lockstep for a while
            a = rng.randrange(nt)
            n = lib.moment(rng, recs[a])
            plan += [[t, n + j, rng.randrange(nt)] for t in range(nt) for j in range(rng.choice([2, 5, 20]))]
        rec.run({"progs": progs, "plan": plan})
        if rec.stop:
            return


def meetings(rng, recs, plan):
    """Two threads stop inside the same code, which touches state that outlives a call."""
    a, b = rng.sample(range(len(recs)), 2)
    code = [{}, {}]
    for d, t in zip(code, (a, b)):
        for r in recs[t]:
            if r[4]:
                d.setdefault(r[4], []).extend(r[2])
    both = sorted(set(code[0]) & set(code[1]))
    if not both:
        return False
    for _ in range(rng.choice([1, 1, 2, 4])):
        h = rng.choice(both)
        n = rng.choice(code[0][h]) + rng.choice([0, 0, 1, 2, 3])
        m = rng.choice(code[1][h if rng.random() < 0.8 else rng.choice(both)]) + rng.choice([0, 0, 1, 2, 3, 6])
        plan.append([a, n, b - (b > a)])
        if rng.random() < 0.8:
            plan.append([b, m, a - (a > b)])
        if rng.random() < 0.5:
            plan.append([a, n + rng.randint(1, 12), b - (b > a)])
    return True


def evaluate(case):
    r = COOP.zygote().call("sim.inproc:threads", case["progs"], case["plan"])
    viol = []
    if isinstance(r, list):
        viol.append(("hang", "the calls never end: %s" % r[:2]))
        r = {"out": [], "switched": 0, "events": [], "total": 0, "dead": False, "altered": False}
    elif r["dead"]:
        stuck = [i for i, o in enumerate(r["out"]) if ["deadlock"] in o]
        viol.append(("deadlock", "calls in threads %s block for ever" % stuck))
    else:
        for t, (steps, outs) in enumerate(zip(case["progs"], r["out"])):
            for st, o in zip(steps, outs):
                w = lib.want(st)
                o = json.loads(json.dumps(o))
                if o != w and not viol:
                    viol.append(("result", "thread %d: %s_program gives another result than alone: %s" % (t, st[1], lib.diff(o, w))))
        if r["altered"] and not viol:
            viol.append(("altered", "a result was changed after it had been returned"))
    d = hashlib.blake2b(repr((case["plan"], r["events"], r["out"])).encode(), digest_size=12).hexdigest()
    return {"viol": [list(v) for v in viol], "fired": {"preemption": r["switched"]} if r["switched"] else {}, "probes": {"events": r["total"]},
            "states": [d] if r["switched"] else [], "simtime": 0.0, "digest": d, "log": [], "nontrivial": r["switched"] > 0, "runs": 1}


def shrink(case):
    for x in base.drop_each(case["plan"]):
        yield dict(case, plan=x)
    if len(case["progs"]) > 2:
        for t in range(len(case["progs"]) - 1, -1, -1):
            yield dict(case, progs=case["progs"][:t] + case["progs"][t + 1:],
                       plan=[[a - (a > t), n, k] for a, n, k in case["plan"] if a != t])
    for t, p in enumerate(case["progs"]):
        if len(p) > 1:
            for j in range(len(p)):
                yield dict(case, progs=case["progs"][:t] + [p[:j] + p[j + 1:]] + case["progs"][t + 1:])


def close():
    COOP.close()
