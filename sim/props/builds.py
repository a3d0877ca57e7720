"""Scenarios with `tealish compile` / `tealish build`, shared by several properties."""
from .. import cli, gen, kernel
from ..api import REF
from . import base

NAMES = ["a.tl", "b.tl", "app.tl", "my_app.tl", "x1.tl", "z.tl", "counter.tl", "v2.app.tl"]
CRASH = ["kill", "kill_after", "torn", "sigint", "sigint_after", "sigterm", "power", "power_torn", "strike"]
IOERR = ["errno", "errno", "errno", "full", "memory", "short"]


ODD = ["my app.tl", "b[1].tl", "caf\u00e9.tl", "\u5e33\u7c3f.tl", "-x.tl", "x~.tl", ".h.tl", "a'b.tl"]


def sources(rng, d="/w", n=None, p_bad=0.12, size=0.35):
    """Distinct sources in directory d -> {path: file spec}."""
    n = n or rng.choice([1, 1, 2, 2, 3, 4])
    out, last = {}, None
    for name in rng.sample(NAMES, n) if rng.random() < 0.85 else rng.sample(NAMES + ODD, n):
        s = base.bad(rng, size=size) if rng.random() < p_bad else base.good(rng, size=size)
        if last and rng.random() < 0.12:
            t = gen.twin(rng, last)
            s = t if REF.valid(t) and REF.formatted(t) is not None else s
        last = s if REF.valid(s) else last
        data = s.encode("utf-8")
        if rng.random() < 0.05:
            data = s.replace("\n", "\r\n").encode("utf-8")
        out[d + "/" + name] = {"hex": data.hex(), "mode": rng.choice([0o644, 0o644, 0o600, 0o444])}
    return out


def where(rng, d, path=None):
    """(argument, cwd) by which the directory d or the file path is named."""
    t = d if path is None else path
    return rng.choice([(t, "/"), (t, "/home/user"), (t[1:], "/"), ("." + t[len(d):], d),
                       (t[len(d) + 1:] or ".", d), ("../" + t[1:], "/home"), (t + ("/" if path is None else ""), "/")])


def scenario(rng, mode=None, n=None, p_bad=0.12, old=0.6, size=0.35, d="/w"):
    files = sources(rng, d, n, p_bad, size)
    one = len(files) == 1 and rng.random() < 0.6 or rng.random() < 0.25
    target = rng.choice(sorted(files)) if one else None
    arg, cwd = where(rng, d, target)
    argv = base.build_argv(rng, arg, mode)
    dirs = []
    if rng.random() < 0.5:
        dirs.append(d + "/build")
        for p in sorted(files):
            if rng.random() < old:
                base.old_artefacts(rng, files, p)
        if rng.random() < 0.2:
            files[d + "/build/other.txt"] = "someone else's file\n"
    if rng.random() < 0.2:
        files[d + "/notes.md"] = "# notes\n"
    sc = {"files": files, "dirs": dirs + ([d] if d != "/w" else []), "seed": rng.randrange(10 ** 6), "enum": rng.randrange(1000),
          "procs": [base.proc(argv, cwd, rseed=str(rng.randrange(1000)), umask=rng.choice([0o022, 0o022, 0o077, 0o002]),
                              bufsize=rng.choice([8192, 8192, 8192, 256]))]}
    if "--goal" in argv:
        sc["goal"] = {"step": rng.choice([4096, 4096, 16, 100])}
    return sc


def is_algod(sc, i=0):
    a = sc["procs"][i]["argv"]
    return "build" in a and "--goal" not in a


NETFAIL = ["refused", "unreachable", "dns", "reset", "reset_early", "truncate", "status", "html200", "empty200", "nomap", "noresult", "nullresult", "mapversion", "badmap"]
NETOK = ["seg", "delay", "chunked", "nolength"]
GOALFAIL = ["missing", "noexec", "eagain", "exit_early", "exit1", "killed_before", "killed_mid", "partial_exit1", "nofile", "killed_map",
            "badmap", "nomap", "exit1_late", "killed_late"]


def net_fault(rng, conn, kinds, proc=0):
    k = rng.choice(kinds)
    f = {"proc": proc, "conn": conn}
    if k in NETOK:
        f["kind"] = "slow"
        for o in {k, rng.choice(NETOK)}:
            if o == "seg":
                f["seg"] = rng.choice([1, 7, 100, 1000])
                f["gap"] = rng.choice([0.0, 0.0005, 0.002])
            elif o == "delay":
                f["delay"] = rng.choice([0.5, 2.0, 4.5])
            elif o == "chunked":
                f["chunked"] = rng.choice([1, 13, 500])
            else:
                f["kind"] = "nolength"
        if f.get("seg") == 1:
            f["gap"] = 0.0
        return f
    f["kind"] = k
    if rng.random() < 0.4:
        f["on"] = True              # it is no better on later connections
    if k in ("reset", "truncate", "stall"):
        f["where"] = rng.choice(["head", "edge", "body", "last"])
        f["at"] = rng.randrange(4000)
        if k == "stall" and rng.random() < 0.25:
            f["at"] = -1
    elif k == "status":
        f["code"] = rng.choice([400, 401, 404, 413, 429, 500, 502, 503])
        f["body"] = rng.choice(['{"message":"1 error: unknown opcode"}', "", "<html>bad gateway</html>", '{"message":null}'])
    elif k == "notspec":
        f["body"] = rng.choice(["{}", "[]", "null", '{"Ops": []}', '{"Ops": null}', '{"message":"rate limited"}', '"text"', '{"Ops":[{"Name":"x"}]}'])
    return f


def assembler_fault(rng, sc, nsrc):
    """Add one failure of the assembler to the scenario (in place)."""
    if is_algod(sc):
        sc.setdefault("net", []).append(net_fault(rng, rng.randrange(nsrc), NETFAIL))
        if rng.random() < 0.1:
            sc["token"] = "secret"
    elif "--goal" in sc["procs"][0]["argv"]:
        k = rng.choice(GOALFAIL)
        g = dict(sc.get("goal", {}))
        if k in ("missing", "noexec", "eagain"):
            g[k] = True
        else:
            g["fault"] = k
        if rng.random() < 0.5:
            g["only"] = rng.randrange(nsrc)
        sc["goal"] = g


def editor(rng, path, sc, start=None):
    versions = []
    for _ in range(rng.randint(1, 2)):
        versions.append(base.bad(rng) if rng.random() < 0.1 else base.variant(rng, "exit(1)\n"))
    return {"kind": "editor", "path": path, "versions": versions, "pause": rng.randint(1, 10)}


def preempt(rng, sc, total, k=None):
    sc["sched"] = [[rng.randrange(1, max(2, total)), rng.randrange(len(sc["procs"]))] for _ in range(k or rng.randint(2, 12))]


def run(sc, power=True, watch=True):
    """-> (finished sim, world, complaints from watching every instant)."""
    box = {}

    def on(sim, p, op, changes):
        box["w"](sim, p, op, changes)
    s = kernel.Sim(sc, on_change=on if watch else None, record=True)
    w = cli.World(sc, s.initial)
    box["w"] = cli.Watch(w, power=power)
    s.run()
    return s, w, box["w"]


def ended(s, p):
    """A complaint when the process neither ended nor was ended by the scenario."""
    if p.how in ("hung", "spin", "segv") or (s.outcome == "livelock" and p.how == "cut"):
        return ("hang", "%s did not end by itself (%s)" % (" ".join(p.spec["argv"]), p.how))
    return None


def disturbed(sc):
    g = sc.get("goal") or {}
    return bool(sc.get("faults") or sc.get("quota") is not None or g.get("fault") or g.get("missing") or g.get("noexec") or g.get("eagain")
                or sc.get("token") or any(f["kind"] not in ("slow", "nolength") for f in sc.get("net", [])))


def readable_text(w, source):
    d = w.initial(source)
    return None if d is None else cli.decode(d)
