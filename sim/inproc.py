"""Library calls under a seeded scheduler of threads and interruptions.

Runs in a fork of a Zygote made with coop=True: threading's locks are then
cooperative, so that exactly one thread of the code under test runs at a time
and this module decides which.  Instants are counted in events of the
interpreter (sys.monitoring): function entry, backward jump, return of a
built-in call -- where CPython switches threads and delivers signals -- and,
for thread switches only, every line of the code under test.
"""
import _thread
import builtins
import os
import sys
import threading
import zlib

from . import api, kernel, shim

HERE = os.path.dirname(os.path.abspath(__file__))
TOOL = 4
MAX_EVENTS = 6_000_000
_real_lock = _thread.allocate_lock
ident = _thread.get_ident


class Deadlock(BaseException):
    """Raised in every thread of the run when none of them can go on."""


class Timeout(Exception):
    """What a handler of a timeout signal raises."""


class TimeoutBase(BaseException):
    """The same from a handler that does not want to be caught."""


EXC = {"kbd": KeyboardInterrupt, "mem": MemoryError, "timeout": Timeout, "timeoutbase": TimeoutBase}


# ---------------------------------------------------------- cooperative locks
class CoLock:
    def __init__(self):
        self._held = None

    def acquire(self, blocking=True, timeout=-1):
        r = self._take(blocking, timeout)
        W.hook()
        return r

    def _take(self, blocking=True, timeout=-1):
        while self._held is not None:
            if not blocking:
                return False
            if not W.block(self, timeout is not None and timeout >= 0):
                return False
        self._held = ident()
        return True

    def release(self):
        if self._held is None:
            raise RuntimeError("release unlocked lock")
        self._held = None
        W.hook()

    def locked(self):
        return self._held is not None

    def __enter__(self):
        self._take()
        return True

    def __exit__(self, *a):
        if self._held is None:
            raise RuntimeError("release unlocked lock")
        self._held = None

    def _at_fork_reinit(self):
        self._held = None

    acquire_lock, release_lock, locked_lock = acquire, release, locked


class CoRLock:
    def __init__(self):
        self._held = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        r = self._take(blocking, timeout)
        W.hook()
        return r

    def _take(self, blocking=True, timeout=-1):
        me = ident()
        while self._held is not None and self._held != me:
            if not blocking:
                return False
            if not W.block(self, timeout is not None and timeout >= 0):
                return False
        self._held = me
        self._n += 1
        return True

    def release(self):
        self._drop()
        W.hook()

    def _drop(self):
        if self._held != ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if not self._n:
            self._held = None

    def __enter__(self):
        self._take()
        return True

    def __exit__(self, *a):
        self._drop()

    def _is_owned(self):
        return self._held == ident()

    def _release_save(self):
        s, self._n, self._held = (self._n, self._held), 0, None
        return s

    def _acquire_restore(self, s):
        self._take()
        self._n = s[0]

    def _at_fork_reinit(self):
        self._held, self._n = None, 0


def cooperative():
    """Before the code under test is imported."""
    import time
    threading.Lock = threading._allocate_lock = CoLock
    threading.RLock = CoRLock
    _thread.allocate_lock = _thread.allocate = CoLock
    _thread.RLock = CoRLock
    threading._CRLock = CoRLock
    time.sleep = lambda s: W.block(None, True)


# ----------------------------------------------------------------- the world
class T:
    def __init__(self, idx, calls):
        self.idx = idx
        self.calls = calls
        self.baton = _real_lock()
        self.baton.acquire()
        self.state = "ready"          # ready blocked done
        self.on = None
        self.timed = False
        self.n = 0
        self.plan = {}                # event -> thread to run, or exception to raise
        self.results = []
        self.ident = None
        self.step = 0


class World:
    def __init__(self):
        self.threads = []
        self.cur = None
        self.c = [0, MAX_EVENTS]      # events of the running thread so far; the next one that matters
        self.dead = False
        self.switched = 0
        self.record = None
        self.raised = []
        self.struck = []              # (thread, step) of each exception raised
        self.end = _real_lock()
        self.end.acquire()
        self.hot = set()
        self.hotlocs = {}
        self.hotcode = {}
        self.tries = {}

    def hook(self):
        """An event of the cooperative locks."""
        c = self.c
        c[0] += 1
        if c[0] >= c[1]:
            self.due()

    def load(self, t):
        """t is about to run."""
        self.cur = t
        self.c[0] = t.n
        self.c[1] = min((n for n in t.plan if n > t.n), default=MAX_EVENTS)

    def due(self, line=False):
        """The running thread reached an event that matters."""
        c, t = self.c, self.cur
        if self.dead or t is None or t.ident != ident():
            return
        n = t.n = c[0]
        if n >= MAX_EVENTS:
            self.kill()
        a = t.plan.pop(n, None)
        self.load(t)
        if a is None:
            return
        if isinstance(a, str):
            if len(self.threads) > 1 and (line or atomic(sys._getframe(1))):
                t.plan.setdefault(n + 1, a)
                self.load(t)
                return
            self.raised.append(a)
            self.struck.append((t.idx, t.step))
            raise EXC[a]("injected") if a != "mem" else MemoryError()
        if atomic(sys._getframe(1)):
            t.plan.setdefault(n + 1, a)
            self.load(t)
            return
        live = [u for u in self.threads if u is not t and u.state == "ready"]
        if live:
            self.switched += 1
            self.give(t, live[a % len(live)])

    def give(self, t, u):
        t.n = self.c[0]
        self.load(u)
        u.baton.release()
        t.baton.acquire()
        if self.dead:
            raise Deadlock

    def kill(self):
        self.dead = True
        raise Deadlock

    def block(self, lock, timed):
        """Park the running thread; False when its time-out passes first."""
        if self.dead:
            raise Deadlock
        t = self.cur
        if t is None or t.ident != ident():
            if timed:
                return False
            raise Deadlock
        t.on, t.timed, t.state = lock, timed, "blocked"
        if not self.next(t):
            if timed:
                t.state = "ready"
                return False
            self.dead = True
            raise Deadlock
        return not (lock is not None and lock._held is not None and timed)

    def next(self, t):
        """Let another thread run, if one can."""
        for u in self.threads:
            if u.state == "blocked" and u.on is not None and u.on._held is None:
                u.state = "ready"
        live = [u for u in self.threads if u.state == "ready" and u is not t]
        if not live:
            late = [u for u in self.threads if u.state == "blocked" and u.timed and u is not t]
            if not late:
                if t.state == "blocked" and (t.on is None or t.on._held is None):
                    t.state = "ready"
                    return True
                return False
            late[0].state = "ready"
            live = late[:1]
        u = live[0]
        t.n = self.c[0]
        self.load(u)
        u.baton.release()
        if t.state != "done":
            t.baton.acquire()
            if self.dead:
                raise Deadlock
        return True

    def note(self, loc, n, code):
        r = self.record
        x = r.get(loc)
        if x is None:
            r[loc] = [1, n]
            h = int(code in self.hot)
            if h:
                self.hotcode[loc] = code.co_firstlineno * 64 + zlib.crc32(os.path.basename(code.co_filename).encode()) % 64
            f, d = sys._getframe(3), 0              # the code the event is in
            while f is not None and d < 4:
                g = guarded(f.f_code, f.f_lasti)
                if g is not None:
                    h += 2 + 4 * self.tries.setdefault((f.f_code, g), len(self.tries))
                    break
                f, d = f.f_back, d + 1
            if h:
                self.hotlocs[loc] = h
        else:
            x[0] += 1
            if len(x) < 12:
                x.append(n)
            elif x[0] & (x[0] - 1) == 0:          # keep later ones at powers of two
                x[11] = n


W = World()
_atomic = {}
LOCKING = ("/logging/", "/tempfile.py", "/subprocess.py", "/importlib/", "/zipfile", "/concurrent/", "/multiprocessing/", "/asyncio/", "/queue.py")


def atomic(f):
    """Is some caller a library that may hold a lock of its own?"""
    while f is not None:
        name = f.f_code.co_filename
        a = _atomic.get(name)
        if a is None:
            third = "site-packages/" in name and not any("site-packages/%s/" % x in name for x in ("textx", "arpeggio", "tealish"))
            a = _atomic[name] = third or any(x in name for x in LOCKING)
        if a:
            return True
        f = f.f_back
    return False


# -------------------------------------------------------------------- events
def boring(code):
    f = code.co_filename
    return f.startswith((HERE, "<frozen importlib", "<frozen zipimport")) or f.endswith(("/threading.py", "/linecache.py", "/tokenize.py"))


def mutable(v, deep=True):
    import types
    if isinstance(v, (list, dict, set, bytearray)):
        return True
    if v is None or isinstance(v, (bool, int, float, str, bytes, tuple, frozenset, type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType,
                                   property, classmethod, staticmethod)):
        return hasattr(v, "cache_info")
    return not type(v).__module__ in ("re", "typing", "_contextvars", "__future__", "logging", "types", "functools") or hasattr(v, "cache_info")


def hot():
    """Code of the repository that touches state which outlives a call: only where to look first, never what to expect."""
    import dis
    import types
    repo = os.path.abspath(kernel.REPO) + os.sep
    mods = [m for m in list(sys.modules.values()) if str(getattr(m, "__file__", None) or "").startswith(repo)]
    attrs, out = set(), set()
    for m in mods:
        for v in list(vars(m).values()):
            if isinstance(v, type) and v.__module__ == m.__name__:
                attrs |= {k for k, x in vars(v).items() if not k.startswith("__") and isinstance(x, (list, dict, set)) and k not in ("pattern",)}

    def code(c, ns, hotdef):
        h = hotdef
        for i in dis.get_instructions(c):
            if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                h = True
            elif i.opname in ("LOAD_GLOBAL", "LOAD_NAME") and i.argval in ns and mutable(ns[i.argval]):
                h = True
            elif i.opname in ("LOAD_ATTR", "LOAD_METHOD", "STORE_ATTR") and i.argval in attrs:
                h = True
        if h:
            out.add(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                code(k, ns, False)

    def func(f, ns):
        f = getattr(f, "__wrapped__", f)
        f = getattr(f, "__func__", f)
        f = getattr(f, "fget", f)
        if isinstance(f, types.FunctionType):
            code(f.__code__, ns, any(isinstance(d, (list, dict, set)) for d in (f.__defaults__ or ())) or hasattr(f, "cache_info"))
    for m in mods:
        ns = vars(m)
        for v in list(ns.values()):
            if isinstance(v, type) and v.__module__ == m.__name__:
                for x in list(vars(v).values()):
                    func(x, ns)
            elif getattr(v, "__module__", None) == m.__name__:
                func(v, ns)
    return out


_tables = {}


def guarded(code, off):
    """The try block of the repository this instruction is in, or None."""
    if code is None or not code.co_filename.startswith(os.path.abspath(kernel.REPO) + os.sep):
        return None
    t = _tables.get(code)
    if t is None:
        from dis import _parse_exception_table
        t = _tables[code] = [(e.start, e.end) for e in _parse_exception_table(code)]
    return next((a for a, b in t if a <= off < b), None)


def watch(lines, record=False):
    m = sys.monitoring
    e = m.events
    m.use_tool_id(TOOL, "verif")
    off = m.DISABLE
    repo = os.path.abspath(kernel.REPO) + os.sep
    c = W.c
    dull = {}

    def is_dull(code):
        d = dull[code.co_filename] = boring(code)
        return d

    if record:
        W.hot = hot()

        def event(code, x, kind):
            c[0] += 1
            if W.record is not None:
                W.note((code.co_filename, x, kind), c[0], code)
            if c[0] >= c[1]:
                W.due()

        def start(code, o):
            if boring(code):
                return off
            f = sys._getframe(2) if code.co_filename.startswith(repo) else None     # the same function elsewhere is another place
            by = (f.f_code.co_filename, f.f_lineno) if f is not None else None
            event(code, (code.co_firstlineno, by), "s")

        def resume(code, o):
            if not boring(code):
                event(code, code.co_firstlineno, "r")

        def jump(code, o, dest):
            if dest > o or boring(code) or o not in shim.backward(code):
                return off
            event(code, code.co_firstlineno * 10000 + o, "j")

        def ret(code, o, f, a):
            if not boring(code):
                event(code, code.co_firstlineno * 10000 + o, "c")

        def line(code, n):
            if not code.co_filename.startswith(repo):
                return off
            event(code, n, "l")
    else:
        def start(code, o):
            if boring(code):
                return off
            c[0] += 1
            if c[0] >= c[1]:
                W.due()

        def resume(code, o):
            if not boring(code):
                c[0] += 1
                if c[0] >= c[1]:
                    W.due()

        def jump(code, o, dest):
            if dest > o or boring(code) or o not in shim.backward(code):
                return off
            c[0] += 1
            if c[0] >= c[1]:
                W.due()

        def ret(code, o, f, a):
            f = code.co_filename
            if not (dull[f] if f in dull else is_dull(code)):
                c[0] += 1
                if c[0] >= c[1]:
                    W.due()

        def line(code, n):
            if not code.co_filename.startswith(repo):
                return off
            c[0] += 1
            if c[0] >= c[1]:
                W.due(True)
    m.register_callback(TOOL, e.PY_START, start)
    m.register_callback(TOOL, e.PY_RESUME, resume)
    m.register_callback(TOOL, e.JUMP, jump)
    m.register_callback(TOOL, e.C_RETURN, ret)
    ev = e.PY_START | e.PY_RESUME | e.JUMP | e.CALL
    if lines:
        m.register_callback(TOOL, e.LINE, line)
        ev |= e.LINE
    m.set_events(TOOL, ev)
    W.ev = ev
    orig = builtins.__import__

    def imp(*a, **k):           # an import is one step: nothing inside it counts
        n, stop = c
        c[1] = 1 << 60
        try:
            return orig(*a, **k)
        finally:
            c[0], c[1] = n, stop
    builtins.__import__ = imp


def pause():
    """Only calls that are to be struck, or recorded, count their events."""
    sys.monitoring.set_events(TOOL, 0)


def unwatch():
    sys.monitoring.set_events(TOOL, 0)


# --------------------------------------------------------------------- calls
METHODS = ("parse", "process", "compile", "reformat", "get_map", "get_structs")


class Session:
    """Executes steps; every outcome is JSON-able."""

    def __init__(self):
        self.slots = {}
        self.kept = []

    def step(self, st):
        """["api", kind, source] | ["new", slot, source] | ["call", slot, method]"""
        import tealish
        kind = st[0]
        if kind == "api":
            r = getattr(tealish, st[1] + "_program")(st[2])
            if st[1] == "compile":
                self.keep(r[0])
                self.keep(r[1], api.flat)
                return ["ok", list(r[0]), api.flat(r[1])]
            return ["ok", r]
        if kind == "new":
            self.slots[st[1]] = tealish.TealishCompiler(st[2].split("\n"))
            return ["ok"]
        r = getattr(self.slots[st[1]], st[2])()
        return value(self, st[2], r)

    def keep(self, x, view=list):
        """A returned object, which later calls must leave alone."""
        self.kept.append((x, view, view(x)))

    def altered(self):
        return any(view(x) != was for x, view, was in self.kept)

    def guarded(self, st, limit=None):
        old = sys.getrecursionlimit()
        try:
            if limit is not None:
                sys.setrecursionlimit(depth() + limit)
            r = self.step(st)
            if limit is not None:
                sys.setrecursionlimit(old)
            return r
        except Deadlock:
            return ["deadlock"]
        except BaseException as e:
            n, stop = W.c                    # none of this counts
            W.c[1] = 1 << 60
            if limit is not None:
                sys.setrecursionlimit(old)
            r = api.describe(e)
            W.c[0], W.c[1] = n, stop
            return r


def structs(r):
    return sorted([n, t.size, [[f, str(x.tealish_type), x.size, x.offset] for f, x in t.fields.items()]] for n, t in r.items())


def value(s, method, r):
    if method == "compile":
        if isinstance(r, list):
            s.keep(r)
        return ["ok", list(r)]
    if method == "get_map":
        s.keep(r, api.flat)
        return ["ok", api.flat(r)]
    if method == "get_structs":
        s.keep(r, structs)
        return ["ok", structs(r)]
    if method == "reformat":
        return ["ok", r]
    return ["ok"]


def fresh(source, method):
    """One method on a fresh compiler, or one after the first method."""
    s = Session()
    s.step(["new", 0, source])
    out = None
    for m in method.split("+"):
        out = s.guarded(["call", 0, m])
        if out[0] != "ok":
            break
    return out


def history(steps, events=None, record=False, only=None):
    """Run steps in one process.

    A step may be preceded by an interruption: ["int", exc, n] makes the n-th
    event of the next step raise exc; ["rec", k] limits the stack to k further
    frames during the next step.
    """
    s = Session()
    out = []
    t = T(0, [])
    t.ident = ident()
    W.threads = [t]
    W.load(t)
    rec = None
    if events is None:
        events = any(x[0] == "int" for x in steps) or record
    if events:
        watch(False, record)
        pause()
    limit = None
    for st in steps:
        if st[0] == "int":
            t.plan[st[2]] = st[1]
            continue
        if st[0] == "rec":
            limit = st[1]
            continue
        W.record = {} if record and (only is None or only == len(out)) else None
        t.n = 0
        W.load(t)
        on = W.record is not None or t.plan
        if on:
            sys.monitoring.set_events(TOOL, W.ev)
        r = s.guarded(st, limit)
        if on:
            pause()
        n = W.c[0]
        W.c[1] = 1 << 60
        rec = W.record if W.record is not None else rec
        out.append(r + [{"raised": list(W.raised), "events": n}])
        W.raised = []
        t.plan.clear()
        limit = None
    if events:
        unwatch()
    W.record = rec
    return {"out": out, "altered": s.altered(), "record": flat_record()}


def flat_record():
    if W.record is None:
        return None
    W.c[1] = 1 << 60
    repo = os.path.abspath(kernel.REPO) + os.sep
    return sorted([int(k[0].startswith(repo)), k[2], sorted(v[1:]), W.hotlocs.get(k, 0), W.hotcode.get(k, 0)] for k, v in W.record.items())


def depth():
    f, n = sys._getframe(1), 0
    while f is not None:
        f, n = f.f_back, n + 1
    return n


def threads(progs, plan, record=False, order=()):
    """progs: per thread a list of steps; plan: [[thread, event, which], ...]."""
    W.record = {} if record else None
    W.threads = [T(i, p) for i, p in enumerate(progs)]
    for t, n, k in plan:
        W.threads[t].plan[n] = k
    s = [Session() for _ in progs]

    def body(t):
        t.baton.acquire()
        t.ident = ident()
        try:
            for st in t.calls:
                if W.dead:
                    t.results.append(["deadlock"])
                    continue
                t.step = len(t.results)
                t.results.append(s[t.idx].guarded(st))
        finally:
            t.n = W.c[0]
            t.state = "done"
            finish(t)

    def finish(t):
        if W.dead:
            for u in W.threads:
                if u.state != "done":
                    u.state = "ready"
                    t.n = W.c[0]
                    W.load(u)
                    u.baton.release()
                    return
            W.end.release()
            return
        if not W.next(t):
            if any(u.state != "done" for u in W.threads):
                W.dead = True
                finish(t)
            else:
                W.end.release()

    for t in W.threads:
        _thread.start_new_thread(body, (t,))
    watch(True, record)
    W.load(W.threads[0])
    W.cur.baton.release()
    W.end.acquire()
    unwatch()
    return {"out": [t.results for t in W.threads], "events": [t.n for t in W.threads], "switched": W.switched,
            "total": sum(t.n for t in W.threads), "dead": W.dead, "altered": any(x.altered() for x in s), "record": flat_record(),
            "struck": W.struck, "raised": W.raised}
