"""C10: rerunning after any crash or failure converges to the clean result."""
from .. import cli, kernel
from ..api import REF
from .base import *      # noqa: F401,F403
from . import base, builds

ID = "C10"
ITEMS = {"quick": 120, "thorough": 3500}
RULE = ("one run = one command on a simulated machine; a history is 1-4 faulted runs of compile, build and format one after another on the "
        "same disk (killed, interrupted, I/O errors, full disk, assembler failures, power loss; process ids reused, sources sometimes "
        "edited in between), then one undisturbed run, compared with the same run on a machine without that past; non-trivial = a fault fired")
KINDS = builds.CRASH + builds.CRASH + builds.IOERR


def other(rng, sc, d):
    """Another command on the sources of the machine."""
    srcs = sorted(p for p in sc["files"] if p.endswith(".tl"))
    src = rng.choice(srcs)
    k = rng.random()
    if k < 0.35:
        arg, cwd = builds.where(rng, d, src)
        argv = ["format", arg]
    else:
        arg, cwd = builds.where(rng, d, src if rng.random() < 0.6 else None)
        argv = base.build_argv(rng, arg)
    return base.proc(argv, cwd)


def item(rng, i, rec):
    d = "/w"
    sc = builds.scenario(rng, p_bad=0.06, size=0.3)
    sc.pop("goal", None)
    for p, f in sc["files"].items():
        if p.endswith(".tl"):
            f["mode"] = rng.choice([0o644, 0o600])
    umask = rng.choice([0o022, 0o022, 0o077])
    cmds = [dict(sc["procs"][0])] + [other(rng, sc, d) for _ in range(rng.choice([0, 1, 1, 2]))]
    opslists = []
    nsrc = len([p for p in sc["files"] if p.endswith(".tl")])
    for c in cmds:
        r = rec.run({"files": sc["files"], "dirs": sc["dirs"], "phases": [], "final": {"proc": dict(c, umask=umask)}})
        if rec.stop:
            return
        opslists.append(r["ops"][0])
    for _ in range(7 if rec.tier == "quick" else 20):
        kinds = base.swarm(rng, KINDS)
        phases = []
        for k in range(rng.choice([1, 1, 2, 2, 3, 4])):
            j = rng.randrange(len(cmds))
            p = dict(cmds[j], umask=umask, rseed="h%d" % rng.randrange(10 ** 6), pid=4000 if rng.random() < 0.7 else 4100)
            ph = {"procs": [p], "enum": rng.randrange(1000)}
            if rng.random() < 0.15:
                ph["procs"].append(dict(rng.choice(cmds), umask=umask, rseed="k%d" % rng.randrange(10 ** 6), pid=4001))
                ph["sched"] = [[rng.randrange(1, 2 * len(opslists[j]) + 2), rng.randrange(2)] for _ in range(8)]
            ph["faults"] = [cli.fault(rng, 0, opslists[j], kinds) for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.2:
                t = {"procs": ph["procs"]}
                builds.assembler_fault(rng, t, nsrc)
                ph.update({a: t[a] for a in ("net", "goal", "token") if a in t})
            if rng.random() < 0.06:
                ph["quota"] = rng.choice([0, 10, 100, 1000])
            if rng.random() < 0.15:
                src = rng.choice(sorted(p for p in sc["files"] if p.endswith(".tl")))
                ph["edit"] = {src: base.variant(rng, "exit(1)\n")}
            if rng.random() < 0.3:
                ph["gap"] = rng.choice([0.0, 0.001, 3600.0, -3600.0])
                ph["stamp"] = rng.choice([0.0, -3600.0, -1e6])
            phases.append(ph)
        fin = {"proc": dict(rng.choice(cmds), umask=umask, rseed="final", pid=4000 if rng.random() < 0.7 else 4100), "enum": rng.randrange(1000)}
        rec.run({"files": sc["files"], "dirs": sc["dirs"], "phases": phases, "final": fin})
        if rec.stop:
            return


def machine(files, dirs, ph, now):
    return dict({"files": files, "dirs": dirs, "seed": 1, "epoch": now}, **{k: v for k, v in ph.items() if k not in ("edit", "gap", "stamp")})


def evaluate(case):
    files, dirs = dict(case["files"]), list(case["dirs"])
    first = dict(files)          # the files of the machine without a past
    sims, viol = [], []
    allowed = {}                 # what each source may be: texts
    for p, f in files.items():
        if p.endswith(".tl"):
            allowed[p] = {kernel.filebytes(f)}
    now = 0.0
    for ph in case["phases"]:
        now += ph.get("gap", 1.0)               # (the clock may have been set back)
        for p, t in ph.get("edit", {}).items():
            if p in files:
                files[p] = dict(files[p] if isinstance(files[p], dict) else {}, hex=t.encode("utf-8").hex())
                files[p].pop("data", None)
                files[p]["mtime"] = now + ph.get("stamp", 0.0)       # (cp -p, git checkout, tar keep the old time)
                first[p] = files[p]
                allowed[p] = {t.encode("utf-8")}
        sc = machine(files, dirs, ph, now)
        s, w, _ = builds.run(sc, watch=False)
        sims.append(s)
        for c in w.cmds:
            e = builds.ended(s, s.procs[c.idx])
            if e:
                viol.append(e)
            if c.kind == "format":
                t = cli.decode(w.tree[c.sources[0]][1]) if c.sources[0] in w.tree else None
                f = REF.formatted(t) if t is not None else None
                if f is not None:
                    allowed[c.sources[0]].add(f.encode("utf-8"))
        files, dirs = base.spec_of(s.vfs.tree(), s.vfs)
        now += s.now
    for p, texts in allowed.items():
        b = kernel.filebytes(files[p]) if p in files and "hex" in files[p] else None
        if b not in texts:
            viol.append(("source", "the source %s was lost or changed: %s" % (p, cli.show(b))))
    if not viol:
        viol = compare(case, files, dirs, first, sims, now + case["final"].get("gap", 1.0))
    r = base.result(sims, viol)
    r["ops"] = [list(p.ops) for p in sims[-2 if len(sims) > 1 else -1].procs if p.kind == "tealish"]
    return r


def compare(case, files, dirs, first, sims, now):
    fin = case["final"]
    clean = dict(first)
    fmt = "format" in fin["proc"]["argv"]
    for p in list(clean):
        if not p.endswith(".tl"):
            continue
        orig, cur = kernel.filebytes(clean[p]), kernel.filebytes(files[p])
        if orig == cur:
            continue
        if fmt:
            f = REF.formatted(cli.decode(orig))
            if f is not None and REF.formatted(f) == f:
                continue             # the original formats to what any later format gives
        clean[p] = files[p]
    s, w, _ = builds.run(machine(files, dirs, {"procs": [fin["proc"]], "enum": fin.get("enum", 0)}, now), watch=False)
    s0, w0, _ = builds.run(machine(clean, case["dirs"], {"procs": [dict(fin["proc"], rseed="clean")], "enum": 0}, now), watch=False)
    sims += [s, s0]
    p, p0 = s.procs[0], s0.procs[0]
    name = " ".join(fin["proc"]["argv"])
    out = []
    e = builds.ended(s, p)
    if e:
        return [e]
    c = w.cmds[0]
    texts = [t for x in c.sources for t in w.snapshots(x)]
    valid = bool(texts) and all(t is not None and REF.valid(t) and REF.formatted(t) is not None for t in texts)
    if p.how != p0.how or p.code != p0.code or (valid and p.code != 0):
        return [("exit", "`%s` ends with %s %s after the earlier runs, with %s %s on a clean machine: %s" % (
            name, p.how, p.code, p0.how, p0.code, bytes(p.errs[-250:]).decode("utf-8", "replace")))]
    if p.code != 0:
        return out
    for path in sorted(w0.outputs):
        a, b = s.vfs.read(path), s0.vfs.read(path)
        if a != b:
            out.append(("output", "`%s` leaves %s as %s after the earlier runs, on a clean machine as %s" % (
                name, path, cli.show(a), cli.show(b))))
        elif a is not None and s.vfs.get(path).mode != s0.vfs.get(path).mode:
            out.append(("mode", "`%s` leaves %s with mode %o after the earlier runs, on a clean machine with %o" % (
                name, path, s.vfs.get(path).mode, s0.vfs.get(path).mode)))
    return out


def shrink(case):
    ph = case["phases"]
    for x in base.drop_each(ph):
        yield dict(case, phases=x)
    for i, p in enumerate(ph):
        for key in ("faults", "sched", "net"):
            if p.get(key):
                for x in base.drop_each(p[key]):
                    yield dict(case, phases=ph[:i] + [dict(p, **{key: x})] + ph[i + 1:])
        for key in ("edit", "gap", "stamp", "quota", "goal", "token", "enum"):
            if p.get(key):
                yield dict(case, phases=ph[:i] + [{k: v for k, v in p.items() if k != key}] + ph[i + 1:])
        if len(p["procs"]) > 1:
            yield dict(case, phases=ph[:i] + [dict(p, procs=p["procs"][:1], sched=[])] + ph[i + 1:])
    sc = {"files": case["files"], "dirs": case["dirs"], "procs": [q for p in ph for q in p["procs"]] + [case["final"]["proc"]]}
    for c in base.shrink_scenario(sc):
        if c["files"] is not sc["files"]:
            yield dict(case, files=c["files"])
