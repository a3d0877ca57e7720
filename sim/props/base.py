"""Parts shared by the command-line properties."""
import json
import random

from .. import asm, cli, gen, kernel
from ..api import REF

REAL = ["tealish.cli and every module below it, run from the working tree in its own process",
        "click, requests, urllib3, http.client, algosdk, textX, the Python standard library above the system calls"]
STUBS = ["kernel: file system, pipes, clock, signals, scheduler, randomness", "TCP and TLS transport, DNS",
         "algod, github.com and langspec servers", "goal", "editors and other readers"]
ASSUME = ["the simulated file system behaves as sim/vfs.py says: data is durable after fsync, directory changes survive a power failure in order",
          "the reference for what a program compiles to is the code under test itself in a fresh process",
          "a simulated system call is atomic; faults strike between or inside calls, not inside the interpreter"]
STATES = "distinct (file tree shape and sizes, process progress) fingerprints at changes of the visible file system, capped per item"


def simulate(sc, on_change=None, record=True):
    return kernel.Sim(sc, on_change=on_change, record=record).run()


def result(sims, viol, nontrivial=False):
    fired, probes, states, log = {}, {}, set(), []
    dg, t = [], 0.0
    for s in sims:
        for k, v in s.fired.items():
            fired[k] = fired.get(k, 0) + v
        for k, v in s.probes.items():
            probes[k] = probes.get(k, 0) + v
        states |= s.states
        t += s.now
        dg.append(s.digest.hexdigest())
        log += s.log
        log += ["-- process %s: %s, status %s, %d calls; stderr: %s" % (
            p.name(), p.how, p.code, p.n, bytes(p.errs[-200:]).decode("utf-8", "replace").strip().replace("\n", " | "))
            for p in s.procs]
    return {"viol": [list(v) for v in viol], "fired": fired, "probes": probes, "states": states, "simtime": t,
            "digest": "/".join(dg), "log": log, "nontrivial": nontrivial or bool(fired) or probes.get("preempted", 0) > 0,
            "runs": len(sims)}


# ------------------------------------------------------------------- programs
def source(rng, valid=True, size=0.4, unicode=True, text=None, fav=None):
    """A program (not one that makes the compiler loop)."""
    for _ in range(40):
        k = rng.random()
        if text is not None:
            s = text
        elif k < 0.12:
            s = rng.choice(gen.corpus())[1]
        elif k < 0.2:
            s = rng.choice(["exit(1)\n", "#pragma version 8\nexit(1)", "# only a comment\n", 'log("x")\nexit(0)\n',
                            'assert(1, "a, b],c")\nexit(1)\n', '# \u65e5\u672c\nlog("\u00e9")\nexit(1)\n'])
        else:
            s = gen.program(rng, size, unicode, fav)
        if not valid:
            s = gen.mutate(rng, s)
        if not unicode and not s.isascii():
            continue
        if REF.hangs(s):
            continue
        ok = REF.valid(s) and REF.formatted(s) is not None
        if valid and ok:
            return s
        if not valid and not REF.valid(s):
            return s
    return "exit(1)\n" if valid else "exit(\n"


def good(rng, **kw):
    return source(rng, True, **kw)


def bad(rng, **kw):
    return source(rng, False, **kw)


def variant(rng, src):
    """Another valid program, related to src (an edit of it) or not."""
    for _ in range(6):
        k = rng.random()
        if k < 0.12:
            s = gen.reshape(rng, src)
        elif k < 0.24:
            s = gen.twin(rng, src)
        elif k < 0.6:
            s = src.rstrip("\n") + "\n# edit %d\n" % rng.randrange(100)
            lines = src.split("\n")
            if k < 0.25 and len(lines) > 2:
                i = rng.randrange(1, len(lines))
                lines.insert(i, "# note %d" % rng.randrange(100))
                s = "\n".join(lines)
        else:
            s = good(rng)
        if s != src and REF.valid(s) and REF.formatted(s) is not None:
            return s
    return good(rng, text="log(\"variant %d\")\nexit(1)\n" % rng.randrange(10 ** 6))


ALGOD = "http://algod.sim:4001"


def old_artefacts(rng, files, path, assembled=True):
    """Artefacts of an earlier build, as text the new build will not produce."""
    b = cli.artefacts(path, True)
    for p, (what, _) in b.items():
        if rng.random() < 0.2:
            continue
        n = rng.choice([0, 1, 30, 300, 9000]) if rng.random() < 0.5 else 40
        body = {"teal": "#pragma version 2\n// old artefact\nint 0\n" + "// pad\n" * (n // 7),
                "tok": "OLDTOK" + "x" * n, "map": '{"pc_teal": {}, "teal_tealish": {}, "errors": {}}' + " " * n}[what]
        files[p] = {"data": body, "mode": rng.choice([0o644, 0o644, 0o600, 0o664])}
        if rng.random() < 0.4:
            files[p]["mtime"] = rng.choice([-1e4, 1e3, 1e9])
        if what != "map" and rng.random() < 0.25:        # all but the artefact this source gives
            near = almost(rng, files.get(path), what)
            if near:
                del files[p]["data"]
                files[p]["hex"] = near.hex()


def almost(rng, spec, what):
    """An artefact as long as the one this source gives, but not it; or its TEAL."""
    try:
        teal = REF.teal(cli.decode(kernel.filebytes(spec)))
    except (TypeError, AttributeError):
        return None
    if not teal:
        return None
    if what == "teal" and rng.random() < 0.3:      # this one is up to date
        return teal.encode("utf-8")
    b = bytearray(teal.encode("utf-8") if what == "teal" else asm.assemble(teal)[0])
    at = [i for i, c in enumerate(b) if what != "teal" or 48 <= c < 57]
    if not at:
        return None
    b[rng.choice(at)] ^= 1
    return bytes(b)


def proc(argv, cwd="/w", **kw):
    return dict({"kind": "tealish", "argv": argv, "cwd": cwd}, **kw)


def build_argv(rng, target, mode=None):
    mode = mode or rng.choice(["compile", "goal", "algod", "algod"])
    q = ["-q"] if rng.random() < 0.2 else []
    if mode == "compile":
        return q + ["compile", target]
    if mode == "goal":
        return q + ["build", target, "--goal"]
    return q + ["build", target, "--algod-url", ALGOD]


def swarm(rng, kinds, lo=1):
    """A random subset of the fault kinds, so that runs differ in mix."""
    k = [x for x in kinds if rng.random() < 0.5]
    return k if len(k) >= lo else list(kinds)


# ------------------------------------------------------------------ shrinking
def drop_each(xs):
    n = len(xs)
    k = max(1, n // 2)
    while n and k >= 1:
        for i in range(0, n, k):
            yield xs[:i] + xs[i + k:]
        k //= 2


def shrink_scenario(sc):
    """Smaller scenarios, boldest first."""
    for key in ("sched", "hold", "faults", "net"):
        if sc.get(key):
            for x in drop_each(sc[key]):
                yield dict(sc, **{key: x})
    if len(sc["procs"]) > 1:
        for i in range(len(sc["procs"]) - 1, -1, -1):
            c = without_proc(sc, i)
            if c is not None:
                yield c
    named = {a.rsplit("/", 1)[-1] for p in sc["procs"] for a in p.get("argv", [])}
    for p in list(sc["files"]):
        f = dict(sc["files"])
        del f[p]
        if f and p.rsplit("/", 1)[1] not in named:
            yield dict(sc, files=f)
    for p, spec in sc["files"].items():
        text = spec if isinstance(spec, str) else spec.get("data")
        if text is None and spec.get("hex") is not None:
            try:
                text = bytes.fromhex(spec["hex"]).decode("utf-8")
            except UnicodeDecodeError:
                text = None
            else:
                spec = {"data": text, "mode": spec.get("mode", 0o644)}
                yield dict(sc, files=dict(sc["files"], **{p: spec}))
        if text is None or not p.endswith(".tl"):
            if isinstance(spec, dict) and spec.get("data") and len(spec["data"]) > 80:
                yield dict(sc, files=dict(sc["files"], **{p: dict(spec, data=spec["data"][:60])}))
            continue
        for t in smaller_sources(text):
            yield dict(sc, files=dict(sc["files"], **{p: t if isinstance(spec, str) else dict(spec, data=t)}))
    for f in sc.get("faults", []):
        if f["kind"] in ("power", "power_torn") and f.get("picks"):
            yield dict(sc, faults=[g if g is not f else dict(f, picks=[]) for g in sc["faults"]])
    for k in ("quota", "token", "enum", "epoch"):
        if sc.get(k):
            yield {a: b for a, b in sc.items() if a != k}
    for i, p in enumerate(sc["procs"]):
        for k in ("env", "enc", "umask", "start", "pause", "bufsize", "stdout", "stdin_chunk"):
            if p.get(k):
                q = {a: b for a, b in p.items() if a != k}
                yield dict(sc, procs=sc["procs"][:i] + [q] + sc["procs"][i + 1:])


def holds(rng, conflicts, n=None):
    """Preemptions aimed at the window between two uses of what another process changes."""
    out = []
    for _ in range(n or rng.choice([1, 1, 2])):
        i, x, c = rng.choice(conflicts)
        out.append([i, x, rng.randint(1, c), rng.choice([1, 1, 1, 2, 3])])
    return out


def smaller_sources(text):
    for t in ('log("x")\nexit(1)\n', "exit(1)\n", "exit(\n"):
        if len(t) < len(text):
            yield t
    lines = text.split("\n")
    if len(lines) > 3:
        for x in drop_each(lines):
            if len(lines) - len(x) >= max(1, len(lines) // 8):
                t = "\n".join(x)
                if not REF.hangs(t):
                    yield t


def without_proc(sc, i):
    if any(q.get("after") == i or (q.get("after_op") or [None])[0] == i for q in sc["procs"]):
        return None

    def m(x):
        return x - (x > i)
    procs = []
    for j, q in enumerate(sc["procs"]):
        if j == i:
            continue
        q = dict(q)
        if q.get("after") is not None:
            q["after"] = m(q["after"])
        if q.get("after_op"):
            q["after_op"] = [m(q["after_op"][0]), q["after_op"][1]]
        procs.append(q)
    return dict(sc, procs=procs, sched=[], hold=[[m(h[0])] + h[1:] for h in sc.get("hold", []) if h[0] != i],
                faults=[dict(f, proc=m(f["proc"])) for f in sc.get("faults", []) if f["proc"] != i],
                net=[dict(f, proc=m(f["proc"])) for f in sc.get("net", []) if f["proc"] != i])


def shrink(case):
    for sc in shrink_scenario(case["sc"]):
        yield dict(case, sc=sc)


def spec_of(tree, vfs=None):
    """Initial-files description of a visible tree (for a following phase), with its time stamps if the file system is given."""
    files, dirs = {}, []
    for p, (k, d, m) in tree.items():
        if k == "f":
            files[p] = {"hex": bytes(d).hex(), "mode": m}
            if vfs is not None:
                files[p]["mtime"] = vfs.get(p).mtime
        elif k == "l":
            files[p] = {"link": d}
        else:
            dirs.append([p, m])
    return files, dirs


def text_of(spec):
    return kernel.filebytes(spec)
