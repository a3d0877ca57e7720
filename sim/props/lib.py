"""Parts shared by the properties of the library API."""
import json

from .. import api, gen, kernel
from ..api import COOP, REF
from . import base

REAL = ["tealish (every module) as a library, from the working tree, with textX and arpeggio", "CPython's own interpreter loop and threads"]
STUBS = ["threading's locks and conditions: cooperative, owned by the scheduler", "the choice of the running thread", "time.sleep",
         "the origin of asynchronous exceptions"]
ASSUME = ["the reference for a call is what the code under test returns for it in a fresh process",
          "threads switch at function entries, backward jumps, returns of built-in calls and between lines of the code under test; "
          "asynchronous exceptions strike at the first three (where CPython looks for signals), stack exhaustion at any depth",
          "importing a module is one step"]
KINDS = ["compile", "compile", "compile", "reformat", "inspect"]


def want(st):
    """What an API step gives in a fresh process."""
    return json.loads(json.dumps(REF.get(st[1], st[2])))


def pool(rng, n, size=0.3, p_bad=0.2, limit=700):
    """Sources, often related to each other, mostly short."""
    out = []
    fav = rng.sample(gen.KINDS, rng.choice([1, 1, 2])) if rng.random() < 0.35 else None     # the same few constructs in all of them
    if n > 2 and rng.random() < 0.5:        # a family: edits of one program, and of each other
        few = [base.good(rng, size=max(size, 0.2), fav=fav) for _ in range(8)]
        few = [s for s in few if len(s) <= limit] or few
        out.append(max(few, key=gen.richness) if rng.random() < 0.7 else few[0])
        for _ in range(40):
            a = rng.choice(out)
            s = rng.choice([gen.reshape, gen.reshape, gen.respell, gen.graft, gen.graft, gen.borrow, gen.orphan, gen.orphan, gen.twin, lambda r, s, o: gen.mutate(r, s)])(rng, a, rng.choice(out))
            if s not in out and not REF.hangs(s):
                out.append(s)
            if len(out) == n:
                break
    while len(out) < n:
        out = [s for s in out if len(s) <= limit or rng.random() < 0.03]
        if len(out) >= n:
            break
        k = rng.random()
        if k < 0.3:
            out += [s for s in gen.struct_pair(rng, size) if not REF.hangs(s)]
        elif k < 0.4 and out:
            out.append(base.variant(rng, rng.choice(out)))
        elif k < 0.65 and out:
            a = rng.choice(out)
            s = rng.choice([gen.reshape, gen.reshape, gen.borrow, gen.graft, gen.respell, gen.orphan, gen.twin])(rng, a, rng.choice(out))
            if s not in out and not REF.hangs(s):
                out.append(s)
        elif rng.random() < p_bad:
            out.append(base.bad(rng, size=size))
        else:
            out.append(base.good(rng, size=size, fav=fav))
    rng.shuffle(out)
    return out[:n]


def focus(rng, srcs, n):
    """n of the sources; often such as share a construct of the language."""
    if len(srcs) > n and rng.random() < 0.5:
        has = {}
        for s in srcs:
            for f in gen.features(s):
                has.setdefault(f, []).append(s)
        shared = sorted(f for f in has if len(has[f]) > 1)
        if shared:
            f = rng.choices(shared, [1 / len(has[f]) for f in shared])[0]
            srcs = has[f]
    return rng.sample(srcs, min(n, len(srcs)))


_rec = {}


def places(steps):
    """Where the events of these steps are: [[in the repository, kind, [event, ...]], ...]."""
    k = json.dumps(steps)
    if k not in _rec:
        if len(_rec) > 30:
            _rec.clear()
        r = COOP.zygote().call("sim.inproc:threads", [steps], [], True)
        _rec[k] = r["record"] if isinstance(r, dict) else None
    return _rec[k]


def places1(steps, i):
    """The same for the i-th of the steps, counted from its start."""
    k = json.dumps([steps[:i + 1], "h"])
    if k not in _rec:
        if len(_rec) > 30:
            _rec.clear()
        r = COOP.zygote().call("sim.inproc:history", steps[:i + 1], True, True, i)
        _rec[k] = r["record"] if isinstance(r, dict) else None
    return _rec[k]


def moment2(rng, rec, want):
    """An event, chosen by code location first so that rare code gets its share: where the code touches state that outlives
    the call (want = 1), where its exceptions may be caught (2), or anywhere.  -> (event, may exceptions be caught?)"""
    h = [r for r in rec if r[3] & want] if want else None
    if h:
        if want == 2:               # by try block
            g = rng.choice(sorted({r[3] >> 2 for r in h}))
            h = [r for r in h if r[3] >> 2 == g]
        r = rng.choice(h)
    else:
        r = rng.choices(rec, [(5 if r[0] else 1) for r in rec])[0]
    return rng.choice(r[2]), bool(r[3] & 2)


def moment(rng, rec):
    return moment2(rng, rec, int(rng.random() < 0.35))[0]


def diff(got, ref):
    """A short description of how two results differ."""
    s, t = json.dumps(got), json.dumps(ref)
    if got[0] == "ok" and ref[0] == "ok":
        n = next((i for i in range(min(len(s), len(t))) if s[i] != t[i]), min(len(s), len(t)))
        return "at %d: ...%s... instead of ...%s..." % (n, s[max(0, n - 40):n + 40], t[max(0, n - 40):n + 40])
    return "%s instead of %s" % (s[:160], t[:160])
