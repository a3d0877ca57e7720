"""What the tealish commands promise, as a model over the simulated machine.

Given a scenario this derives, without looking at how tealish does it, which
files each command may write and which contents each of them may hold.
"""
import errno
import json
import posixpath

from . import asm, specs
from .api import REF

KINDS = ("compile", "build", "format", "inspect", "stats", "langspec")


class Cmd:
    """One tealish process of the scenario."""

    def __init__(self, idx, spec, tree):
        self.idx = idx
        self.spec = spec
        a = [x for x in spec["argv"]]
        while a and a[0] in ("-q", "--quiet"):
            a.pop(0)
        self.kind = a[0]
        self.args = a[1:]
        self.cwd = spec.get("cwd", "/")
        self.asm = None
        self.sources = []
        self.outputs = {}              # path -> (what, source)
        if self.kind == "build":
            self.asm = "goal" if "--goal" in a else "algod"
        if self.kind in ("compile", "build"):
            p = self.path(self._positional())
            if tree.get(p, ("",))[0] == "d":
                self.sources = sorted(q for q in tree if posixpath.dirname(q) == p and q.endswith(".tl"))
            else:
                self.sources = [p]
            for s in self.sources:
                self.outputs.update(artefacts(s, self.asm is not None))
        elif self.kind in ("format", "inspect"):
            p = self.path(self._positional())
            self.sources = [p]
            if self.kind == "format":
                self.outputs[p] = ("source", p)
        elif self.kind == "langspec":
            self.sub = self.args[0]
            if self.sub in ("fetch", "update"):
                p = self.path("langspec.json")
                self.outputs[p] = ("langspec", None)

    def _positional(self):
        skip = False
        for x in self.args:
            if skip:
                skip = False
            elif x == "--algod-url":
                skip = True
            elif not x.startswith("-"):
                return x
        return ""

    def path(self, x):
        return real(posixpath.normpath(posixpath.join(self.cwd, x)), self.links)

    links = {}


def real(p, links):
    for _ in range(5):
        for a, b in links.items():
            if p == a or p.startswith(a + "/"):
                p = posixpath.normpath(posixpath.join(posixpath.dirname(a), b) + p[len(a):])
                break
        else:
            break
    return p


def spec_name(args):
    if args[0] == "update":
        return "master"
    x = args[1]
    return x.rsplit("/", 1)[1].replace(".json", "") if "://" in x and "github" not in x else x.split("/raw/")[-1].split("/blob/")[-1].split("/")[0]


def artefacts(source, assembled):
    d, n = posixpath.split(source)
    b = d.rstrip("/") + "/build/" + n.replace(".tl", "")
    out = {b + ".teal": ("teal", source)}
    if assembled:
        out[b + ".teal.tok"] = ("tok", source)
        out[b + ".map.json"] = ("map", source)
    return out


def decode(data):
    """Source text as tealish reads it (text mode), None when it cannot."""
    try:
        t = data.decode("utf-8")
    except UnicodeDecodeError:
        return None
    return t.replace("\r\n", "\n").replace("\r", "\n")


class World:
    """Initial files, snapshots of every source, and the commands."""

    def __init__(self, scenario, tree):
        self.sc = scenario
        self.tree = tree
        links = {p: t for p, (k, t, m) in tree.items() if k == "l"}
        self.links = links
        Cmd.links = links
        self.cmds = [Cmd(i, s, tree) for i, s in enumerate(scenario["procs"]) if s["kind"] == "tealish"]
        self.outputs = {}
        for c in self.cmds:
            self.outputs.update(c.outputs)
        self.specs = scenario.get("spec_names") or [None]    # langspecs that may be in force
        self._snap = {}
        self.formatted = {c.sources[0] for c in self.cmds if c.kind == "format" and c.sources}
        self._ok = {}

    def initial(self, path):
        v = self.tree.get(path)
        return v[1] if v is not None and v[0] == "f" else None

    def snapshots(self, source):
        """Texts (None = undecodable) the source may be read as during the run."""
        if source in self._snap:
            return self._snap[source]
        raw = []
        d = self.initial(source)
        if d is not None:
            raw.append(d)
        for s in self.sc["procs"]:
            if s["kind"] == "editor" and s["path"] == source:
                raw += [v.encode("utf-8") for v in s["versions"]]
        texts = []
        for r in raw:
            texts.append(decode(r))
        if source in self.formatted:
            for t in list(texts):
                for q in self.specs:
                    f = REF.formatted(t, q) if t is not None else None
                    if f is not None and f not in texts:
                        texts.append(f)
        self._snap[source] = texts
        return texts

    def source_contents(self, source):
        """Every byte content the source file may have at any instant."""
        out = []
        d = self.initial(source)
        if d is not None:
            out.append(d)
        for s in self.sc["procs"]:
            if s["kind"] == "editor" and s["path"] == source:
                out += [v.encode("utf-8") for v in s["versions"]]
        if source in self.formatted:
            for t in self.snapshots(source):
                for q in self.specs:
                    f = REF.formatted(t, q) if t is not None else None
                    if f is not None:
                        out.append(f.encode("utf-8"))
        return out

    def teals(self, source):
        out = []
        for s in self.snapshots(source):
            for q in self.specs:
                t = REF.teal(s, q) if s is not None else None
                if t is not None:
                    out.append(t.encode("utf-8"))
        return out

    # ---------------------------------------------------------- classification
    def check(self, sim, path, content):
        """None when `content` is allowed for output `path` now, else a complaint."""
        what, source = self.outputs[path]
        init = self.initial(path)
        if content is None:
            return None if init is None else "missing (it existed before)"
        if content == init:
            return None
        if what == "source":
            if content in self.source_contents(path):
                return None
            return "neither the previous nor the formatted text: " + show(content)
        if what == "teal":
            if content in self.teals(source):
                return None
            return "not the old artefact and not the TEAL of its source: " + show(content)
        if what == "tok":
            for r in sim.responses:
                if "code" in r and r.get("whole", True) and r["code"] == content and r["teal"].encode("utf-8") in self.teals(source):
                    return None
            return "not the old artefact and not bytecode the assembler returned for its source: " + show(content)
        if what == "map":
            m = parse_map(content)
            if m is None:
                return "not the old artefact and not valid JSON: " + show(content)
            for s in self.snapshots(source):
                if s is not None and any(self.map_ok(sim, s, m, q) for q in self.specs):
                    return None
            return "a map that belongs to no TEAL and bytecode of its source"
        if what == "langspec":
            try:
                d = json.loads(content.decode("utf-8"))
            except ValueError:
                return "not the previous langspec and not valid JSON: " + show(content)
            if any(specs.get(n) == d for n in self.fetched()):
                return None
            return "not the previous langspec and not one that was fetched: " + show(content)
        return None

    def fetched(self):
        """Names of the specs the langspec commands of this run ask for."""
        return {spec_name(c.args) for c in self.cmds if c.kind == "langspec" and c.sub in ("fetch", "update")}

    def map_ok(self, sim, text, m, spec=None):
        r = REF.get("compile", text, spec)
        if r[0] != "ok":
            return False
        want = {"teal_tealish": [list(x) for x in r[2]["teal_tealish"]], "errors": [list(x) for x in r[2]["errors"]]}
        if {k: m.get(k) for k in want} != want:
            return False
        teal = REF.teal(text, spec)
        for q in sim.responses:
            if "code" in q and q.get("whole", True) and q["teal"] == teal:
                if sorted(asm.decode_map(q["map"]).items()) == [tuple(x) for x in m["pc_teal"]]:
                    return True
        return False

    def matching(self, sim, read, source, assembled):
        """Is there one snapshot to which every artefact of the source belongs?"""
        art = artefacts(source, assembled)
        get = {w: read(p) for p, (w, _) in art.items()}
        why = []
        for s in self.snapshots(source):
            if s is None:
                continue
            t = REF.teal(s)
            if t is None:
                continue
            if get["teal"] != t.encode("utf-8"):
                why.append("teal")
                continue
            if not assembled:
                return None
            codes = [r["code"] for r in sim.responses if "code" in r and r.get("whole", True) and r["teal"] == t]
            if get["tok"] not in codes:
                why.append("tok")
                continue
            m = None if get["map"] is None else parse_map(get["map"])
            if m is None or not self.map_ok(sim, s, m):
                why.append("map")
                continue
            return None
        return "/".join(sorted(set(why))) or "source"


def parse_map(b):
    try:
        d = json.loads(b.decode("utf-8"))
        if not isinstance(d, dict):
            return None
        out = {}
        for k in ("pc_teal", "teal_tealish"):
            out[k] = sorted([int(a), int(v)] for a, v in d[k].items())
        out["errors"] = sorted([int(a), v] for a, v in d["errors"].items())
        if set(d) - set(out):
            return None
        return out
    except (ValueError, KeyError, TypeError, AttributeError):
        return None


def show(b, n=60):
    if b is None:
        return "absent"
    return "%d bytes %r" % (len(b), bytes(b[:n]))


# -------------------------------------------------------------------- faults
MUT = {"write", "fsync", "rename", "unlink", "mkdir", "ftruncate", "rmdir", "link", "symlink", "chmod", "fchmod"}
IO = {"open", "close", "read", "spawn", "wait", "pwrite_stdin", "pread_out", "send", "recv", "connect", "scandir"}
ERRNOS = {
    "write": ["ENOSPC", "EIO", "EDQUOT"], "fsync": ["EIO", "ENOSPC"], "rename": ["EIO", "ENOSPC", "EACCES"],
    "unlink": ["EIO"], "mkdir": ["ENOSPC", "EACCES", "EROFS"], "ftruncate": ["EIO"], "rmdir": ["EIO"],
    "open": ["EMFILE", "EIO", "EACCES", "ENOSPC", "ENFILE"], "close": ["EIO", "EDQUOT"], "read": ["EIO"],
    "spawn": ["EAGAIN", "ENOMEM"], "fchmod": ["EPERM"], "chmod": ["EPERM"], "scandir": ["EIO"],
    "send": ["EPIPE", "ECONNRESET"], "recv": ["ECONNRESET"], "connect": ["ECONNREFUSED", "EHOSTUNREACH"],
}
CRASH = ("kill", "kill_after", "torn", "power", "power_torn")
SIGS = ("sigint", "sigint_after", "sigterm", "sigint_blocked")


def place(rng, ops, start=0):
    """Index (1-based) of an operation, biased to those that matter."""
    w = []
    for i, o in enumerate(ops):
        if i < start:
            w.append(0.05)
        elif o in MUT:
            w.append(8)
        elif o in IO:
            w.append(3)
        else:
            w.append(0.6)
    if not w or sum(w) == 0:
        return 1
    return rng.choices(range(1, len(ops) + 1), w)[0]


def fault(rng, proc, ops, kinds):
    """One fault for process `proc`, of one of the kinds, somewhere in ops."""
    for _ in range(20):
        n = place(rng, ops, first_effect(ops))
        op = ops[n - 1]
        k = rng.choice(kinds)
        f = {"proc": proc, "n": n, "kind": k}
        if k == "errno":
            if op not in ERRNOS:
                continue
            f["errno"] = getattr(errno, rng.choice(ERRNOS[op]))
        elif k in ("torn", "power_torn"):
            if op != "write":
                continue
            f["frac"] = rng.choice([0.0, 0.3, 0.5, 0.9])
        elif k == "short":
            if op not in ("write", "read"):
                continue
            f["frac"] = rng.choice([0.01, 0.3, 0.7])
        elif k == "strike":
            f["after"] = int(10 ** rng.uniform(0, rng.choice([2, 3.5, 5])))
            f["what"] = rng.choice(["sigint", "memory"])
        elif k == "full":
            f["room"] = rng.choice([0, 0, 1, 10, 200, 4096])
        elif k == "sigint_blocked":
            if op not in ("wait", "recv", "connect", "sleep", "pread_out"):
                continue
            f["delay"] = rng.randint(1, 6)
        if k in ("power", "power_torn"):
            f["picks"] = [rng.randrange(64) for _ in range(rng.randint(0, 6))]
        return f
    # nothing fitted: a failing call somewhere, or whatever needs no particular call
    at = [i + 1 for i, o in enumerate(ops) if o in ERRNOS]
    if "errno" in kinds and at:
        n = rng.choice(at)
        return {"proc": proc, "n": n, "kind": "errno", "errno": getattr(errno, rng.choice(ERRNOS[ops[n - 1]]))}
    easy = [k for k in kinds if k not in ("errno", "torn", "power_torn", "short", "full", "sigint_blocked", "power", "strike")]
    return {"proc": proc, "n": place(rng, ops), "kind": "kill" if "kill" in kinds or not easy else easy[0]}


def first_effect(ops):
    """Where start-up (imports, langspec) ends: the first mutation, less a few calls."""
    for i, o in enumerate(ops):
        if o in MUT or o in ("spawn", "connect"):
            return max(0, i - 6)
    return 0


def adv(case, **kw):
    """Copy of a scenario with fields replaced."""
    c = json.loads(json.dumps(case))
    c.update(kw)
    return c


# ----------------------------------------------------------------- watchers
class Watch:
    """Checks every output at every instant, and what a power failure would leave."""

    def __init__(self, world, paths=None, power=True):
        self.w = world
        self.paths = paths
        self.power = power
        self.bad = []
        self.edited = {q["path"] for q in world.sc["procs"] if q["kind"] == "editor"}
        self.instants = 0
        self.images = 0
        self._seen = set()

    def __call__(self, sim, p, op, changes):
        if self.bad:
            return
        self.instants += 1
        touched = {c[1] for c in changes}
        for path in self.w.outputs:
            d = path.rsplit("/", 1)[0]
            if self.paths is not None and path not in self.paths:
                continue
            if not any(t == path or t.rsplit("/", 1)[0] == d or path.startswith(t + "/") for t in touched):
                continue
            self.look(sim, path, "after %s by %s" % (op, p.name()))

    def look(self, sim, path, when):
        c = sim.vfs.read(path)
        key = (path, None if c is None else hash(c), len(sim.responses))
        if key not in self._seen:
            e = self.w.check(sim, path, c)
            if e is not None:
                self.bad.append(("instant", "%s: %s is %s" % (when, path, e)))
                return
            self._seen.add(key)
        init = self.w.tree.get(path)
        if c is not None and init is not None and init[0] == "f" and self.w.outputs[path][0] == "source" and path not in self.edited:
            m = sim.vfs.get(path).mode
            if m != init[2]:
                self.bad.append(("mode", "%s: mode of %s changed from %o to %o" % (when, path, init[2], m)))
        if not self.power:
            return
        for o in sim.vfs.crash_options(path):
            self.images += 1
            key = (path, None if o is None else hash(o), len(sim.responses))
            if key in self._seen:
                continue
            e = self.w.check(sim, path, o)
            if e is not None:
                self.bad.append(("power", "power failure %s could leave %s: %s" % (when, path, e)))
                return
            self._seen.add(key)
