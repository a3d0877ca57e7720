"""C08: a reused compiler object never yields duplicated or partial output."""
import hashlib
import json

from ..api import COOP, REF
from .lib import *      # noqa: F401,F403
from . import base, lib

ID = "C08"
ITEMS = {"quick": 80, "thorough": 6000}
STATES = "distinct (source, call sequence, interruptions) with the outcome of each call"
RULE = ("one run = one TealishCompiler (sometimes two, interleaved) taking 2-14 seeded calls of parse, process, compile, reformat, get_map and "
        "get_structs, with repeats and retries, on a valid or invalid source, some calls struck by KeyboardInterrupt, MemoryError, a timeout "
        "handler's exception or stack exhaustion; each successful compile or reformat and what get_map and get_structs say after it equals a "
        "fresh compiler's; non-trivial = a call was repeated, failed or was interrupted")
EXC = ["kbd", "kbd", "mem", "timeout", "timeoutbase"]
WORK = ["parse", "process", "compile", "compile", "compile", "reformat", "reformat"]
LOOK = ["get_map", "get_structs"]


def calls(rng, slot, n):
    out = []
    for _ in range(n):
        k = rng.random()
        if out and k < 0.2:
            out.append(list(out[-1]))
        elif k < 0.75 or not out:
            out.append(["call", slot, rng.choice(WORK)])
        else:
            out.append(["call", slot, rng.choice(LOOK)])
        if out[-1][2] == "compile" and rng.random() < 0.5:
            out.append(["call", slot, rng.choice(LOOK)])
    return out


def item(rng, i, rec):
    srcs = lib.pool(rng, 2, size=rng.choice([0.1, 0.2, 0.3]), p_bad=0.3)
    for _ in range(4 if rec.tier == "quick" else 12):
        src = rng.choice(srcs)
        steps = [["new", 0, src]] + calls(rng, 0, rng.choice([2, 3, 4, 6, 10]))
        if rng.random() < 0.15:
            other = [["new", 1, rng.choice(srcs)]] + calls(rng, 1, 3)
            a, b, steps = steps, other, []
            while a or b:
                steps.append((a if a and (not b or rng.random() < 0.6) else b).pop(0))
        steps += [["call", 0, rng.choice(["compile", "reformat"])], ["call", 0, "get_map"]]
        rec.run({"steps": steps})
        if rec.stop:
            return
        at = [j for j, st in enumerate(steps) if st[0] == "call" and st[2] not in LOOK]
        for _ in range(4):
            hit = {rng.choice(at[:-1] or at)} if rng.random() < 0.7 else {j for j in at if rng.random() < 0.3}
            out = []
            for j, st in enumerate(steps):
                if j in hit:
                    r = lib.places1(steps, j)
                    if not r:
                        out.append(st)
                        continue
                    if rng.random() < 0.25:
                        out.append(["rec", rng.randint(2, 80)])
                    else:
                        out.append(["int", rng.choice(EXC), lib.moment(rng, r)])
                out.append(st)
                if j in hit and rng.random() < 0.5:
                    out.append(st)            # the retry
            rec.run({"steps": out})
            if rec.stop:
                return


_fresh = {}


def fresh(src, methods):
    k = (src, methods)
    if k not in _fresh:
        if len(_fresh) > 3000:
            _fresh.clear()
        _fresh[k] = json.loads(json.dumps(REF.zygote().call("sim.inproc:fresh", src, methods)))
    return _fresh[k]


def evaluate(case):
    steps = case["steps"]
    r = COOP.zygote().call("sim.inproc:history", steps)
    viol, fired, shape, pend = [], {}, [], []
    if isinstance(r, list):
        viol.append(("hang", "a call on a reused compiler never ends: %s" % r[:2]))
        r = {"out": [], "altered": False}
    src, sound = {}, {}
    outs = iter(json.loads(json.dumps(r["out"])))
    seen, again = set(), False
    for st in steps if r["out"] else []:
        if st[0] in ("int", "rec"):
            pend.append(st)
            continue
        o = next(outs)
        info = o.pop()
        for k in info["raised"]:
            fired[k] = fired.get(k, 0) + 1
        if st[0] == "new":
            src[st[1]], sound[st[1]] = st[2], False
            pend = []
            continue
        if st[1] not in src:
            continue
        s, m = st[1], st[2]
        hit = bool(info["raised"]) or any(p[0] == "rec" for p in pend)
        if any(p[0] == "rec" for p in pend) and o[0] == "err" and o[1] == "RecursionError":
            fired["stack"] = fired.get("stack", 0) + 1
        again = again or hit or o[0] != "ok" or (s, m) in seen
        seen.add((s, m))
        shape.append([m, pend, o[0], info["raised"]])
        pend = []
        if viol:
            continue
        if o == ["deadlock"]:
            viol.append(("deadlock", "%s blocks for ever" % m))
        elif m in ("compile", "reformat"):
            w = fresh(src[s], m)
            if o[0] == "ok" and w[0] != "ok":
                viol.append(("accepts", "%s succeeds on a retry of a program on which a fresh compiler fails with %s" % (m, w[1:])))
            elif o[0] == "ok" and o != w:
                viol.append((m, "%s on a reused compiler gives another result than on a fresh one: %s" % (m, lib.diff(o, w))))
            elif o[0] != "ok" and w[0] == "ok" and not hit:
                viol.append(("refuses", "%s fails on a reused compiler (%s) though a fresh one compiles the program" % (m, o[1:])))
            if m == "compile":
                sound[s] = o[0] == "ok"
            elif hit:
                sound[s] = False
        elif m in LOOK:
            if sound[s] and not hit:
                w = fresh(src[s], "compile+" + m)
                if o != w:
                    viol.append((m, "%s after a successful compile on a reused compiler differs from a fresh one's: %s" % (m, lib.diff(o, w))))
        else:
            sound[s] = False
    if r["altered"] and not viol:
        viol.append(("altered", "a returned list of TEAL, map or table of structs was changed by a later call"))
    d = hashlib.blake2b(repr((steps, shape)).encode(), digest_size=12).hexdigest()
    fails = sum(1 for x in shape if x[2] != "ok" and not x[3])
    if fails:
        fired["failed_call"] = fails
    return {"viol": [list(v) for v in viol], "fired": fired, "probes": {"calls": len(shape)}, "states": [d], "simtime": 0.0,
            "digest": d, "log": [str(x) for x in shape], "nontrivial": again, "runs": 1}


def shrink(case):
    st = case["steps"]
    for i in range(len(st)):
        x = st[:i] + st[i + 1:]
        made = set()
        ok = bool(x) and x[-1][0] == "call"
        for q in x:
            if q[0] == "new":
                made.add(q[1])
            elif q[0] == "call" and q[1] not in made:
                ok = False
        if ok:
            yield {"steps": x}
    for s in {q[2] for q in st if q[0] == "new"}:
        for t in base.smaller_sources(s):
            yield {"steps": [[q[0], q[1], t] if q[0] == "new" and q[2] == s else q for q in st]}


def close():
    COOP.close()
