"""Programs that are not the code under test: goal, an editor saving the source,
a reader.  Each is a generator that makes simulated system calls."""
import json
import os

from . import asm
from .vfs import err


def make(p, sim):
    return {"goal": goal, "editor": editor, "reader": reader}[p.kind](p, sim)


def _write(path, data, step=4096, flags=os.O_WRONLY | os.O_CREAT | os.O_TRUNC, sync=False):
    fd = yield ("open", path, flags, 0o644)
    i = 0
    while i < len(data):
        n = yield ("write", fd, data[i:i + step])
        i += n
    if sync:
        yield ("fsync", fd)
    yield ("close", fd)


def _read(path):
    fd = yield ("open", path, os.O_RDONLY, 0)
    out = b""
    while True:
        d = yield ("read", fd, 65536)
        if not d:
            break
        out += d
    yield ("close", fd)
    return out


def goal(p, sim):
    """`goal clerk compile [-|file] [-m|--map] -o OUT`."""
    cfg = p.spec["cfg"]
    av = p.spec["argv"]
    fault = cfg.get("fault")

    def say(fd, text):
        d = p.spec["dirs"][fd]
        if d == "stdout":
            fd = 1
        o = p.outfd.get(fd)
        if o is not None and o != "null":
            sim.vfs.write(o, text.encode())
        elif d == "inherit" and p.parent is not None:
            (p.parent.out if fd == 1 else p.parent.errs).extend(text.encode())
        else:
            (p.out if fd == 1 else p.errs).extend(text.encode())
    yield ("stub_step", "start")
    if av[1:3] != ["clerk", "compile"]:
        say(2, "unknown command\n")
        return 1
    src, out, want_map = [], None, False
    i = 3
    while i < len(av):
        a = av[i]
        if a in ("-o", "--outfile"):
            out = av[i + 1]
            i += 2
        elif a.startswith("--outfile="):
            out = a.split("=", 1)[1]
            i += 1
        elif a in ("-m", "--map"):
            want_map = True
            i += 1
        elif a == "-" or not a.startswith("-"):
            src.append(a)
            i += 1
        else:
            say(2, "unknown flag\n")
            return 1
    if fault == "exit_early":
        sim.fire("goal:exit1")
        say(1, "goal: simulated failure\n")
        return 1
    text = (yield ("stub_stdin",)) if src == ["-"] else (yield from _read(src[0]))
    teal = text.decode("utf-8", "surrogateescape")
    code, smap = asm.assemble(teal)
    if fault == "exit1":
        sim.fire("goal:exit1")
        say(1, "compile failed: - 3: unknown opcode: simulated\n")
        return 1
    if fault == "killed_before":
        sim.fire("goal:killed")
        return -9
    if out == "-":
        say(1, code.decode("latin-1"))
        return 0
    if out is None:
        out = (src[0] if src != ["-"] else "stdin") + ".tok"
    step = cfg.get("step", 4096)
    rec = {"teal": teal, "code": code, "map": smap}
    try:
        if fault == "killed_mid":
            sim.fire("goal:killed")
            yield from _write(out, code[:len(code) // 2], step)
            return -9
        if fault == "partial_exit1":
            sim.fire("goal:partial")
            yield from _write(out, code[:len(code) // 2], step)
            say(1, "goal: write failed\n")
            return 1
        if fault == "nofile":
            sim.fire("goal:nofile")
            return 0
        yield from _write(out, code, step)
        if want_map and fault != "nomap":
            mj = json.dumps(smap).encode()
            if fault == "killed_map":
                sim.fire("goal:killed")
                yield from _write(out + ".map", mj[:len(mj) // 2], step)
                return -9
            if fault == "badmap":
                sim.fire("goal:badmap")
                yield from _write(out + ".map", mj[:len(mj) // 2], step)
                return 0
            yield from _write(out + ".map", mj, step)
        elif fault == "nomap":
            sim.fire("goal:nomap")
            return 0
    except OSError as e:
        say(2, "goal: %s\n" % e)
        return 1
    if fault == "exit1_late":
        sim.fire("goal:exit1")
        return 1
    if fault == "killed_late":
        sim.fire("goal:killed")
        return -15
    sim.responses.append(rec)
    yield ("stub_step", "done")
    return 0


def editor(p, sim):
    """Saves versions of a file the way careful editors do: write aside, flush, rename."""
    for k, v in enumerate(p.spec["versions"]):
        tmp = p.spec["path"] + "~%d" % k
        yield from _write(tmp, v.encode("utf-8"), 1 << 20, sync=True)
        yield ("rename", tmp, p.spec["path"])
        for _ in range(p.spec.get("pause", 2)):
            yield ("stub_step", "think")
    return 0


def reader(p, sim):
    """Another program reading an output again and again."""
    for _ in range(p.spec.get("times", 3)):
        for path in p.spec["paths"]:
            try:
                d = yield from _read(path)
            except OSError:
                d = None
            p.spec.setdefault("seen", []).append([path, None if d is None else d.decode("latin-1")])
    return 0
