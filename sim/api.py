"""Fresh-process evaluation of the library API of the code under test.

A Zygote is a process that has imported tealish (never compiled anything) in a
chosen directory.  Every call runs in a fork of it, so each result is what a
fresh process returns.
"""
import importlib
import marshal
import os
import re
import resource
import select
import signal
import struct
import sys
import tempfile
import shutil

from .kernel import REPO

LIMIT = 60        # CPU seconds for one evaluation


def clean(msg):
    return re.sub(r" at 0x[0-9a-f]+", " at 0x", msg)


def describe(e):
    return ["err", type(e).__name__, clean(str(e))]


def quiet():
    import io
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()


def op(kind, source):
    """One API call -> JSON-able outcome."""
    import tealish
    try:
        if kind == "compile":
            teal, m = tealish.compile_program(source)
            return ["ok", list(teal), flat(m)]
        if kind == "reformat":
            return ["ok", tealish.reformat_program(source)]
        if kind == "inspect":
            return ["ok", tealish.inspect_program(source)]
    except Exception as e:
        return describe(e)
    raise ValueError(kind)


def flat(m):
    d = m.as_dict()
    return {"teal_tealish": sorted(d["teal_tealish"].items()), "errors": sorted(d["errors"].items()),
            "pc_teal": sorted(d["pc_teal"].items())}


def ops3(source):
    return None


class Zygote:
    def __init__(self, spec=None, coop=False):
        self.coop = coop
        self.dir = tempfile.mkdtemp(prefix="zyg-", dir=scratch())
        if spec is not None:
            import json
            with open(self.dir + "/langspec.json", "w") as f:
                json.dump(spec, f)
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                self._serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def _serve(self, r, w):
        os.chdir(self.dir)
        sys.path.insert(0, REPO)
        quiet()
        try:
            if self.coop:
                from . import inproc
                inproc.cooperative()
            import tealish  # noqa
            import tealish.cli  # noqa
            state = None
            import gc
            gc.collect()
            gc.freeze()          # forks share these pages for longer
        except BaseException as e:
            state = ["import", type(e).__name__, clean(str(e))]
        while True:
            req = recv(r)
            if req is None:
                return
            fn, args = req
            if state is not None:
                send(w, state)
                continue
            pr, pw = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(pr)
                    resource.setrlimit(resource.RLIMIT_CPU, (LIMIT, LIMIT))
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    if resource.getrlimit(resource.RLIMIT_AS)[0] == resource.RLIM_INFINITY:
                        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
                    quiet()
                    mod, _, name = fn.partition(":")
                    res = getattr(importlib.import_module(mod), name)(*args)
                    send(pw, res)
                except BaseException as e:
                    import traceback
                    try:
                        send(pw, ["harness", type(e).__name__, traceback.format_exc()])
                    except BaseException:
                        pass
                finally:
                    os._exit(0)
            os.close(pw)
            ready, _, _ = select.select([pr], [], [], 40 if self.coop else 2 * LIMIT)
            res = recv(pr) if ready else None
            if not ready:
                os.kill(pid, signal.SIGKILL)
            os.close(pr)
            os.waitpid(pid, 0)
            send(w, res if res is not None else ["hang"])

    def call(self, fn, *args):
        send(self.w, (fn, args))
        res = recv(self.r)
        if res is None:
            raise RuntimeError("zygote died")
        if isinstance(res, list) and res and res[0] == "harness":
            raise RuntimeError(res[2])
        return res

    def close(self):
        os.close(self.w)
        os.close(self.r)
        try:                       # later zygotes hold copies of our pipe, so it would not see the end
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)
        shutil.rmtree(self.dir, ignore_errors=True)


def send(fd, obj):
    b = marshal.dumps(obj)
    b = struct.pack("<I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def recvn(fd, n):
    out = b""
    while len(out) < n:
        c = os.read(fd, n - len(out))
        if not c:
            return None
        out += c
    return out


def recv(fd):
    h = recvn(fd, 4)
    if h is None:
        return None
    b = recvn(fd, struct.unpack("<I", h)[0])
    return None if b is None else marshal.loads(b)


_scratch = None


def scratch():
    """A private directory of this check run, removed at exit by its creator."""
    global _scratch
    d = os.environ.get("VERIF_SCRATCH")
    if d:
        return d
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
    return _scratch


class Ref:
    """Reference results, cached: what one call returns in a fresh process."""

    def __init__(self, coop=False):
        self.coop = coop
        self.zyg = {}
        self.cache = {}

    def zygote(self, spec=None):
        z = self.zyg.get(spec)
        if z is None:
            from . import specs
            z = self.zyg[spec] = Zygote(None if spec is None else specs.get(spec), self.coop)
        return z

    def get(self, kind, source, spec=None):
        k = (kind, source, spec)
        if k not in self.cache:
            if len(self.cache) > 4000:
                self.cache.clear()
            self.cache[k] = self.zygote(spec).call("sim.api:op", kind, source)
        return self.cache[k]

    def teal(self, source, spec=None):
        """Bytes of the .teal file, None when the program does not compile."""
        r = self.get("compile", source, spec)
        return "\n".join(r[1] + [""]) if r[0] == "ok" else None

    def formatted(self, source, spec=None):
        r = self.get("reformat", source, spec)
        return r[1] if r[0] == "ok" else None

    def valid(self, source, spec=None):
        return self.get("compile", source, spec)[0] == "ok"

    def hangs(self, source):
        return any(self.get(k, source)[0] == "hang" for k in ("compile", "reformat"))

    def close(self):
        for z in self.zyg.values():
            z.close()
        self.zyg.clear()


REF = Ref()
COOP = Ref(coop=True)         # the same with threads under our control
