"""Simulated runs and library calls under another hash seed and heap layout.

A Hashed server is a fresh interpreter started with a given PYTHONHASHSEED (and
without address-space randomisation, so that object addresses repeat).  It runs
simulations and reference calls on request, exactly like a worker does.
"""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    sys.path[:] = [VERIF] + [p for p in sys.path if os.path.abspath(p or ".") != os.path.join(VERIF, "sim")]

from sim import api, heap as layout, kernel      # noqa: E402


def fixed_addresses():
    import ctypes
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except (OSError, AttributeError):
        pass


class Hashed:
    def __init__(self, seed):
        env = dict(os.environ, PYTHONHASHSEED=str(seed), VERIF_SCRATCH=api.scratch(), VERIF_PYC=sys.pycache_prefix or "")
        self.p = subprocess.Popen([sys.executable, "-X", "frozen_modules=off", "-B", os.path.abspath(__file__)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, preexec_fn=fixed_addresses)

    def call(self, *req):
        api.send(self.p.stdin.fileno(), json.dumps(req))
        r = api.recv(self.p.stdout.fileno())
        if r is None:
            raise RuntimeError("the server for another hash seed died")
        r = json.loads(r)
        if r[0] == "error":
            raise RuntimeError(r[1])
        return r[1]

    def close(self):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()


_servers = {}


def get(seed):
    if seed not in _servers:
        _servers[seed] = Hashed(seed)
    return _servers[seed]


def close():
    for h in _servers.values():
        h.close()
    _servers.clear()


_kept = None


def op(kind, source, heap):
    global _kept
    _kept = layout.perturb(heap)
    return api.op(kind, source)


def outcome(sc, inspect):
    """Run a scenario -> its observable results, JSON-able."""
    s = kernel.Sim(sc, record=False).run()
    p = s.procs[0]
    return {"how": p.how, "code": p.code, "out": bytes(p.out).hex() if inspect else "",
            "files": {q: (bytes(v[1]).hex() if v[0] == "f" else v[0]) for q, v in s.vfs.tree().items() if v[0] != "d"},
            "err": bytes(p.errs[-300:]).decode("utf-8", "replace"), "fired": s.fired, "probes": s.probes, "states": sorted(s.states),
            "now": s.now, "digest": s.digest.hexdigest(), "ops": list(p.ops)}


def serve():
    r = os.dup(0)
    w = os.dup(1)
    n = os.open("/dev/null", os.O_RDWR)
    os.dup2(n, 0)
    os.dup2(n, 1)
    if os.environ.get("VERIF_PYC"):
        sys.pycache_prefix = os.environ["VERIF_PYC"]
    sys.dont_write_bytecode = True
    kernel.warm()
    while True:
        m = api.recv(r)
        if m is None:
            break
        req = json.loads(m)
        try:
            if req[0] == "sim":
                res = outcome(req[1], req[2])
            else:
                res = api.REF.zygote(req[4]).call("sim.hashed:op", req[1], req[2], req[3])
            out = ["ok", res]
        except BaseException:
            import traceback
            out = ["error", traceback.format_exc()]
        api.send(w, json.dumps(out))
    api.REF.close()
    os._exit(0)


if __name__ == "__main__":
    serve()
