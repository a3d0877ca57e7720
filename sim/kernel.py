"""The simulated machine: processes, scheduler, clock, disk, network, faults.

One Sim object is one run.  Everything it does is a function of the scenario
(a JSON value) and the code under test.  Simulated processes are forked
children (see shim.py) that are parked at a system call at all times except
while the kernel lets exactly one of them run to its next system call.
"""
import errno
import hashlib
import marshal
import os
import posixpath
import random
import resource
import select
import signal
import socket as rsocket
import struct
import sys

from . import net, shim, stubs
from .vfs import VFS, OFD, err, S_DIR, S_FILE, S_LINK

MAX_OPS = 20000
TICK = 20e-6
CPU_LIMIT = 20              # seconds of processor time before a process counts as spinning
NOFAULT = {"struck", "now", "urandom", "exit", "die", "escape", "unsupported", "hello"}
PATHOPS = {"open", "stat", "access", "truncate", "rename", "link", "unlink", "rmdir", "mkdir", "chmod", "utime", "scandir", "readlink"}
FDOPS = {"read", "write", "pread", "pwrite", "fstat", "ftruncate", "fsync", "fchmod", "close", "lseek"}
FDMUT = {"write", "pwrite", "ftruncate", "fsync", "fchmod"}


class HarnessError(Exception):
    pass


class SigReply(Exception):
    def __init__(self, sig, value):
        self.sig, self.value = sig, value


class Retry(Exception):
    """Deliver a signal before the call, which is then made again."""
    def __init__(self, sig):
        self.sig = sig


class NetErr(Exception):
    def __init__(self, kind, msg=""):
        self.kind, self.msg = kind, msg


class Block(Exception):
    """The request cannot complete yet: retry when ready() or at time `until`."""
    def __init__(self, ready, until=None):
        self.ready, self.until = ready, until


class Proc:
    def __init__(self, idx, spec):
        self.idx = idx
        self.spec = spec
        self.kind = spec["kind"]
        self.cwd = spec.get("cwd", "/")
        self.umask = spec.get("umask", 0o022)
        self.fds = {}
        self.nextfd = shim.SYS
        self.out = bytearray()
        self.errs = bytearray()
        self.stdin = spec.get("stdin", "").encode("utf-8")
        self.stdin_pos = 0
        self.state = "new"            # new ready dead
        self.pending = None
        self.block = None
        self.deadline_of = None       # absolute time a blocking call expires
        self.code = None              # exit status
        self.how = None               # exit | killed | power | hung | cut
        self.n = 0                    # faultable operations so far
        self.ops = []                 # their names (baseline)
        self.start = spec.get("start", 0.0)
        self.started_at = None
        self.ended_at = None
        self.sock = None
        self.pid = None
        self.gen = None
        self.conns = {}
        self.nconn = 0
        self.kids = {}
        self.escapes = []
        self.unsupported = []
        self.signalled = False
        self.sig_now = None           # when it was first signalled
        self.after_sig = []           # operations since then
        self.faulted = []
        self.struck = []              # (fault kind, operation it struck)
        self.cur_op = None
        self.urand = 0
        self.parent = None
        self.after_pending = None
        self.sig_at = None
        self.held = None              # [path, changes to wait for]

    def name(self):
        return "%d:%s" % (self.idx, self.kind)

    def signal(self, now):
        if not self.signalled:
            self.signalled, self.sig_now = True, now


class Sim:
    def __init__(self, scenario, on_change=None, observers=(), record=False):
        self.sc = scenario
        self.vfs = VFS()
        self.now = 0.0
        self.vfs.clock = lambda: round(self.now + scenario.get("epoch", 0.0), 6)
        self.g = 0                       # global operation counter
        self.procs = []
        self.log = []
        self.record = record
        self.on_change = on_change
        self.switches = {int(g): c for g, c in scenario.get("sched", [])}
        self.faults = {}
        for f in scenario.get("faults", []):
            self.faults.setdefault((f["proc"], f["n"]), []).append(f)
        # "hold": [proc, path, j, k]: after its j-th operation on that path the process waits
        # until others changed the path k times (or nothing else can run), then runs on.
        self.holds = {}
        for h in scenario.get("hold", []):
            self.holds.setdefault((h[0], h[1], h[2]), h[3])
        self.touch = {}                  # (proc, path) -> operations on it
        self.writers = {}                # path -> processes that changed it
        self.netfaults = {(f["proc"], f["conn"]): f for f in scenario.get("net", [])}
        self.fired = {}
        self.states = set()
        self.probes = {}
        self.responses = []              # what assemblers answered
        self.locks = {}
        self.outcome = "ok"
        self.poweroff = False
        self.digest = hashlib.blake2b(digest_size=16)
        self.nextpid = 5000
        self.resume = None
        self.last_version = self.vfs.version
        self.rng = random.Random("run/%s" % scenario.get("seed", 0))
        self.enum_seed = scenario.get("enum", 0)
        self.tick = scenario.get("tick", TICK)
        self._setup_fs()
        self.initial = self.vfs.tree()
        for i, spec in enumerate(scenario["procs"]):
            self.add_proc(spec)

    # ---------------------------------------------------------------- set-up
    def _setup_fs(self):
        v = self.vfs
        for d in ("/tmp", "/home/user", "/dev", "/w", "/var/tmp", "/usr/tmp"):
            v.put_dir(d)
        for d in self.sc.get("dirs", []):
            v.put_dir(d if isinstance(d, str) else d[0])
            if not isinstance(d, str):
                v.get(d[0]).mode = d[1]
        for path, spec in self.sc["files"].items():
            if isinstance(spec, str):
                spec = {"data": spec}
            if "link" in spec:
                v.put_link(path, spec["link"])
            else:
                v.put(path, filebytes(spec), spec.get("mode", 0o644))
                v.get(path).mtime = spec.get("mtime", self.sc.get("epoch", 0.0))
        if self.sc.get("quota") is not None:
            v.full_at = self.sc["quota"]
        v.version = 0
        v.log_changes.clear()

    def add_proc(self, spec, parent=None):
        p = Proc(len(self.procs), spec)
        p.parent = parent
        self.procs.append(p)
        return p

    def fire(self, kind, p=None):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        if p is not None:
            p.faulted.append(kind)
            p.struck.append((kind, self._op_kind(p)))

    def _op_kind(self, p):
        """The operation a fault strikes; opening a directory has its own name."""
        if p.cur_op == "open" and p.pending and len(p.pending) > 1:
            try:
                if self.vfs.get(self.abspath(p, p.pending[1])).kind == S_DIR:
                    return "opendir"
            except OSError:
                pass
        return p.cur_op

    # -------------------------------------------------------------- processes
    def _start(self, p):
        p.started_at = self.now
        if p.kind == "tealish":
            self._fork(p)
        else:
            p.gen = stubs.make(p, self)
            p.state = "ready"
            self._advance_gen(p, None, None)

    def _fork(self, p):
        a, b = rsocket.socketpair()
        conf = {
            "cwd": p.cwd, "pid": p.spec.get("pid", 4000 + p.idx), "enc": p.spec.get("enc", "utf-8"),
            "environ": dict({"HOME": "/home/user", "PATH": "/usr/bin:/bin", "LANG": "C.UTF-8"}, **p.spec.get("env", {})),
            "real_prefixes": REAL_PREFIXES, "rseed": p.spec.get("rseed", "p%d" % p.idx),
            "bufsize": p.spec.get("bufsize", 8192), "heap": p.spec.get("heap"),
        }
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                for q in self.procs:
                    if q.sock is not None:
                        q.sock.close()
                resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                shim.install(b, conf)
                shim.run_main(p.spec["argv"], REPO)
            finally:
                os._exit(96)
        b.close()
        a.settimeout(120)
        p.sock, p.pid = a, pid
        p.state = "ready"
        self._recv(p)

    def _recv(self, p):
        try:
            h = self._recvn(p.sock, 4)
            b = self._recvn(p.sock, struct.unpack("<I", h)[0])
        except EOFError:
            _, st = os.waitpid(p.pid, 0)
            p.sock.close()
            p.sock = None
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGSEGV):
                # it computed for ever, or crashed the interpreter
                what = "spin" if os.WTERMSIG(st) == signal.SIGXCPU else "segv"
                self.probes[what] = self.probes.get(what, 0) + 1
                p.pending = None
                self._end(p, what, None)
                return
            raise HarnessError("process %s left the protocol: status %r" % (p.name(), st))
        except OSError as e:
            raise HarnessError("process %s left the protocol: %r" % (p.name(), e))
        p.pending = marshal.loads(b)

    @staticmethod
    def _recvn(s, n):
        out = b""
        while len(out) < n:
            c = s.recv(n - len(out))
            if not c:
                raise EOFError
            out += c
        return out

    def _reply(self, p, obj):
        b = marshal.dumps(obj)
        p.sock.sendall(struct.pack("<I", len(b)) + b)

    def _advance_gen(self, p, value, exc):
        try:
            p.pending = p.gen.throw(exc) if exc is not None else p.gen.send(value)
        except StopIteration as e:
            self._end(p, "exit", e.value if isinstance(e.value, int) else 0)
        except OSError as e:
            p.errs += str(e).encode()
            self._end(p, "exit", 1)

    def _end(self, p, how, code):
        if p.state == "dead":
            return
        p.state, p.how, p.code, p.ended_at = "dead", how, code, self.now
        p.pending = p.block = None
        p.fds.clear()
        for k in [k for k, h in self.locks.items() if h[0] == p.idx]:
            del self.locks[k]
        for c in p.conns.values():
            c.closed = True
        if p.sock is not None:
            if how != "exit":
                try:
                    os.kill(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            p.sock.close()
            p.sock = None
            os.waitpid(p.pid, 0)
        if p.gen is not None:
            p.gen.close()
        self.note(p, "end", how, code)

    def cleanup(self):
        for p in self.procs:
            if p.state != "dead" and p.state != "new":
                self._end(p, p.how or "cut", None)

    def note(self, p, *what):
        line = repr((self.g, p.name()) + what)
        self.digest.update(line.encode("utf-8", "replace"))
        if self.record:
            self.log.append(line)

    # -------------------------------------------------------------- main loop
    def run(self):
        try:
            self._run()
        finally:
            self.cleanup()
        return self

    def _run(self):
        cur = None
        while True:
            if self.g > self.sc.get("max_ops", MAX_OPS):
                self.outcome = "livelock"
                return
            runnable, held = [], []
            for p in self.procs:
                if p.state == "new":
                    if p.start <= self.now + 1e-12 and self._may_start(p):
                        runnable.append(p)
                elif p.state == "ready":
                    b = p.block
                    if b is None or b.ready() or (b.until is not None and b.until <= self.now + 1e-12):
                        (held if p.held else runnable).append(p)
            if self.resume is not None:
                cur, self.resume = self.resume, None
            if not runnable:
                if not self._advance_clock():
                    if held:
                        held[0].held = None
                        continue
                    live = [p for p in self.procs if p.state == "ready"]
                    if live:
                        self.outcome = "hung"
                        for p in live:
                            p.how = "hung"
                    return
                continue
            sw = self.switches.get(self.g)
            if sw is not None:
                nxt = runnable[sw % len(runnable)]
                if cur is not None and nxt is not cur and cur.state == "ready":
                    self.probes["preempted"] = self.probes.get("preempted", 0) + 1
                cur = nxt
            elif cur is None or cur not in runnable:
                cur = runnable[0]
            p = cur
            if p.state == "new":
                self.g += 1
                self._start(p)
                continue
            self._step(p)
            if self.poweroff:
                return

    def _may_start(self, p):
        dep = p.spec.get("after")
        if dep is not None:
            return self.procs[dep].state == "dead"
        dep = p.spec.get("after_op")       # [proc, n]: once that process made n operations
        if dep is not None:
            q = self.procs[dep[0]]
            return q.state == "dead" or q.n >= dep[1]
        return True

    def _advance_clock(self):
        t = []
        for p in self.procs:
            if p.state == "new" and p.start > self.now and self._may_start(p):
                t.append(p.start)
            if p.state == "ready" and p.block is not None and not p.held:
                if p.block.until is not None:
                    t.append(p.block.until)
                for c in p.conns.values():
                    x = c.next_event(self.now)
                    if x is not None:
                        t.append(x)
        t = [x for x in t if x > self.now]
        if not t:
            return False
        self.now = min(t)
        return True

    def _step(self, p):
        op, args = p.pending[0], p.pending[1:]
        p.cur_op = op
        self.g += 1
        self.now += self.tick
        first = p.block is None
        fl = ()
        if first and op not in NOFAULT:
            p.n += 1
            p.ops.append(op)
            if p.signalled:
                p.after_sig.append((op, args))
            self._touch(p, op, args)
            fl = self.faults.get((p.idx, p.n), ())
        after = None
        override = None
        if not first:
            after, p.after_pending = p.after_pending, None
        try:
            if not first and p.sig_at is not None and self.g > p.sig_at:
                p.sig_at = None
                p.signal(self.now)
                self.fire("sigint_while_blocked", p)
                raise Retry(signal.SIGINT)
            for f in fl:
                k = f["kind"]
                if not self._applies(p, op, args, k):
                    continue
                if k == "kill":
                    self.fire("kill", p)
                    self.note(p, op, brief(args), "KILLED BEFORE")
                    self._end(p, "killed", -9)
                    return
                if k == "sigint":
                    self.fire("sigint", p)
                    p.signal(self.now)
                    raise Retry(signal.SIGINT)
                if k == "sigterm":
                    self.fire("sigterm", p)
                    p.signal(self.now)
                    raise Retry(signal.SIGTERM)
                if k == "errno":
                    self.fire("errno:%s:%s" % (op, errno.errorcode.get(f["errno"], f["errno"])), p)
                    raise OSError(f["errno"], os.strerror(f["errno"]), *pathargs(op, args))
                if k == "memory":
                    self.fire("memory", p)
                    raise NetErr("memory")
                if k == "full":
                    self.fire("disk_full", p)
                    self.vfs.full_at = f.get("room", 0)
                elif k in ("kill_after", "sigint_after", "torn", "power", "power_torn", "strike"):
                    after = f
                    if k in ("torn", "power_torn") and op == "write":
                        override = max(0, min(len(args[1]) - 1, int(len(args[1]) * f.get("frac", 0.5))))
                elif k == "short":
                    if op == "write":
                        override = max(1, int(len(args[1]) * f.get("frac", 0.5)))
                    else:
                        args = (args[0], max(1, int(args[1] * f.get("frac", 0.1))))
                    self.fire("short_" + op, p)
            if override is not None:
                args = (args[0], args[1][:override])
            val = self._call(p, op, args) if not (override == 0 and op == "write") else 0
            res = (0, val)
        except Block as b:
            if first:                       # faults are looked up on the first attempt only
                p.after_pending = after
                sb = [f for f in fl if f["kind"] == "sigint_blocked"]
                p.sig_at = self.g + sb[0].get("delay", 3) if sb and p.gen is None else None
            if p.sig_at is not None:
                b = Block(lambda b=b: b.ready() or self.g >= p.sig_at, b.until)
            p.block = b
            self.now -= self.tick
            return
        except Retry as r:
            res = (4, int(r.sig))
        except OSError as e:
            names = [x for x in (e.filename, e.filename2) if x is not None]
            res = (1, e.errno, names)
        except NetErr as e:
            res = (3, e.kind, e.msg)
        p.block = None
        p.deadline_of = None
        if op not in NOFAULT:
            self.note(p, op, brief(args), brief(res))
        changed = self.vfs.version != self.last_version
        if changed:
            self.last_version = self.vfs.version
            self.states.add(self._state_key(p))
            paths = list(self.vfs.log_changes)
            self.vfs.log_changes.clear()
            self._conflicts(p, paths)
            if self.on_change is not None:
                self.on_change(self, p, op, paths)
        if after is not None:
            k = after["kind"]
            if k in ("kill_after", "torn"):
                self.fire(k, p)
                self._end(p, "killed", -9)
                return
            if k == "sigint_after":
                if res[0] == 0:
                    self.fire("sigint", p)
                    p.signal(self.now)
                    res = (2, int(signal.SIGINT), res[1])
            if k == "strike" and res[0] == 0:
                res = (5, res[1], after["after"], after["what"])
            if k in ("power", "power_torn"):
                self.fire("power_loss", p)
                self._power(after)
                return
        if op == "exit":
            self._reply(p, (0, None))
            self._end(p, "exit", args[0])
            return
        if op == "die":
            self._end(p, "killed", -args[0])
            return
        if p.gen is not None:
            if res[0] == 0:
                self._advance_gen(p, res[1], None)
            elif res[0] == 1:
                self._advance_gen(p, None, err(res[1], *res[2]))
            elif res[0] in (2, 4):
                self._end(p, "killed", -2)
            else:
                self._advance_gen(p, None, err(errno.EIO))
            return
        self._reply(p, res)
        self._recv(p)

    def _touch(self, p, op, args):
        """Counts operations per path, and holds the process where the scenario says so."""
        names = [posixpath.normpath(self.abspath(p, a)) for a in pathargs(op, args) if a] if op in PATHOPS else []
        if not names and op in FDOPS:
            o = p.fds.get(args[0])
            if isinstance(o, OFD):
                names = [o.path]
        for x in names:
            n = self.touch[p.idx, x] = self.touch.get((p.idx, x), 0) + 1
            k = self.holds.get((p.idx, x, n))
            if k:
                p.held = [x, k]

    def _conflicts(self, p, changes):
        for _, x in changes:
            self.writers.setdefault(x, set()).add(p.idx)
        for q in self.procs:
            if q.held and q is not p and q.state == "ready" and any(x == q.held[0] for _, x in changes):
                q.held[1] -= 1
                if q.held[1] <= 0:
                    q.held = None
                    self.resume = q
                    for k in ("preempted", "held_until_changed"):
                        self.probes[k] = self.probes.get(k, 0) + 1

    def conflicts(self):
        """[proc, path, operations on it] for every path another process changed."""
        return [[i, x, n] for (i, x), n in sorted(self.touch.items()) if self.writers.get(x, set()) - {i}]

    def _applies(self, p, op, args, k):
        if k in ("errno", "full", "short", "torn", "memory"):
            if op in ("write", "read") and k in ("short", "torn"):
                if k == "torn" and op != "write":
                    return False
                if op == "write" and (args[0] <= 2 or len(args[1]) < 2):
                    return False
                if op == "read" and (args[0] <= 2 or args[1] < 2):
                    return False
            elif k in ("short", "torn"):
                return False
        if p.gen is not None and k in ("sigint", "sigint_after", "sigterm", "strike"):
            return False
        return True

    def _power(self, f):
        for q in self.procs:
            if q.state == "ready":
                self._end(q, "power", None)
            elif q.state == "new":
                q.state, q.how = "dead", "power"
        picks = list(f.get("picks", []))
        r = random.Random("power/%r" % (picks,))

        def pick(n, what):
            if picks:
                return picks.pop(0) % n
            return r.randrange(n)
        self.vfs.power_loss(pick)
        self.last_version = self.vfs.version
        self.vfs.log_changes.clear()
        self.poweroff = True

    def _state_key(self, p):
        h = hashlib.blake2b(digest_size=8)
        h.update(repr([(q.state, len(q.ops), q.how) for q in self.procs]).encode())
        for path, (k, d, m) in self.vfs.tree().items():
            h.update(repr((k, len(d) if isinstance(d, bytes) else 0)).encode())
        return h.hexdigest()

    # ------------------------------------------------------------ system calls
    def abspath(self, p, path):
        if not path:
            raise err(errno.ENOENT, path)
        return path if path.startswith("/") else p.cwd + "/" + path

    def _call(self, p, op, args):
        f = getattr(self, "op_" + op, None)
        if f is None:
            raise HarnessError("unknown operation " + op)
        return f(p, *args)

    def _fd(self, p, fd):
        o = p.fds.get(fd)
        if o is None:
            if fd in (0, 1, 2):
                return "std%d" % fd
            raise err(errno.EBADF)
        return o

    def op_hello(self, p):
        return None

    def op_exit(self, p, code):
        return None

    def op_struck(self, p, what):
        self.fire("strike:" + what, p)
        if what == "sigint":
            p.signal(self.now)
        return None

    def op_die(self, p, sig):
        return None

    def op_escape(self, p, what, path):
        p.escapes.append([what, path])

    def op_unsupported(self, p, name):
        p.unsupported.append(name)
        raise HarnessError("the code under test uses %s, which the simulator does not provide" % name)

    def op_now(self, p):
        self.g -= 1
        return self.now + self.sc.get("epoch", 0.0)

    def op_urandom(self, p, n):
        p.urand += 1
        return random.Random("%s/%s/%d" % (p.spec.get("rseed", "p%d" % p.idx), "u", p.urand)).randbytes(n)

    def op_sleep(self, p, t):
        if p.deadline_of is None:
            p.deadline_of = self.now + max(0.0, t)
        if self.now + 1e-12 < p.deadline_of:
            raise Block(lambda: False, p.deadline_of)

    def op_open(self, p, path, flags, mode):
        if path == "/dev/null":
            p.fds[p.nextfd] = "null"
            p.nextfd += 1
            return p.nextfd - 1
        if path == "/dev/tty":
            raise err(errno.ENXIO, path)
        o = self.vfs.open(self._named(p, path), flags, mode, p.umask)
        fd = p.nextfd
        p.nextfd += 1
        p.fds[fd] = o
        return fd

    def _named(self, p, path):
        return self.abspath(p, path)

    def op_close(self, p, fd):
        if fd <= 2:
            return
        if fd not in p.fds:
            raise err(errno.EBADF)
        o = p.fds.pop(fd)
        if isinstance(o, OFD):
            k = o.ino.ino
            h = self.locks.get(k)
            if h is not None and h[0] == p.idx and h[1] == fd:
                del self.locks[k]

    def op_read(self, p, fd, n):
        if fd == 0:
            d = p.stdin[p.stdin_pos:p.stdin_pos + min(n, p.spec.get("stdin_chunk", n))]
            p.stdin_pos += len(d)
            return d
        o = self._fd(p, fd)
        if o == "null":
            return b""
        return self.vfs.read_fd(o, n)

    def op_write(self, p, fd, data):
        end = self._fd(p, fd)
        if end == "std1":
            o = p.spec.get("stdout", {})
            data = data[:o.get("chunk", len(data))]
            if "room" in o:
                data, full = data[:max(0, o["room"] - len(p.out))], bool(data)
                if full and not data:
                    self.fire("stdout:" + o["err"], p)
                    raise err(getattr(errno, o["err"]))
            p.out += data
            return len(data)
        if end == "std2":
            p.errs += data
            return len(data)
        if end == "null":
            return len(data)
        return self.vfs.write(end, data)

    def op_pread(self, p, fd, n, off):
        return self.vfs.read_fd(self._fd(p, fd), n, off)

    def op_pwrite(self, p, fd, data, off):
        return self.vfs.write(self._fd(p, fd), data, off)

    def op_lseek(self, p, fd, pos, how):
        if fd <= 2:
            raise err(errno.ESPIPE)
        o = self._fd(p, fd)
        if o == "null":
            return 0
        size = len(o.ino.data) if o.ino.kind == S_FILE else 0
        n = {0: pos, 1: o.pos + pos, 2: size + pos}[how]
        if n < 0:
            raise err(errno.EINVAL)
        o.pos = n
        return n

    def op_fstat(self, p, fd):
        if fd <= 2 or p.fds.get(fd) == "null":
            return (0o020666, 3, 0, 1, 0, 0, 0, 0.0, 0.0, 0.0)
        return self.vfs.stat(self._fd(p, fd).ino)

    def op_stat(self, p, path, follow):
        return self.vfs.stat(self.vfs.get(self.abspath(p, path), follow))

    def op_access(self, p, path, mode):
        try:
            i = self.vfs.get(self.abspath(p, path))
        except OSError:
            return False
        if mode & os.W_OK and not i.mode & 0o200:
            return False
        if mode & os.R_OK and not i.mode & 0o400:
            return False
        return True

    def op_ftruncate(self, p, fd, n):
        o = self._fd(p, fd)
        if o.flags & os.O_ACCMODE == os.O_RDONLY:
            raise err(errno.EINVAL)
        self.vfs.truncate(o.ino, n, o.path)

    def op_truncate(self, p, path, n):
        q = self.abspath(p, path)
        i = self.vfs.get(q)
        if not i.mode & 0o200:
            raise err(errno.EACCES, path)
        self.vfs.truncate(i, n, self.vfs.resolve(q)[3])

    def op_fsync(self, p, fd):
        o = self._fd(p, fd)
        if o != "null":
            self.vfs.fsync(o.ino)

    def op_sync(self, p):
        def walk(i):
            if i.kind == S_FILE:
                self.vfs.fsync(i)
            elif i.kind == S_DIR:
                for c in i.entries.values():
                    walk(c)
        walk(self.vfs.root)
        self.vfs.journal.clear()

    def op_rename(self, p, a, b):
        self.vfs.rename(self.abspath(p, a), self.abspath(p, b))

    def op_link(self, p, a, b):
        self.vfs.link(self.abspath(p, a), self.abspath(p, b))

    def op_symlink(self, p, a, b):
        self.vfs.symlink(a, self.abspath(p, b))

    def op_unlink(self, p, path):
        self.vfs.unlink(self.abspath(p, path))

    def op_rmdir(self, p, path):
        self.vfs.rmdir(self.abspath(p, path))

    def op_mkdir(self, p, path, mode):
        self.vfs.mkdir(self.abspath(p, path), mode, p.umask)

    def op_chmod(self, p, path, mode):
        q = self.abspath(p, path)
        self.vfs.chmod(self.vfs.get(q), mode, self.vfs.resolve(q)[3])

    def op_fchmod(self, p, fd, mode):
        o = self._fd(p, fd)
        self.vfs.chmod(o.ino, mode, o.path)

    def op_utime(self, p, path):
        self.vfs.get(self.abspath(p, path)).mtime = self.vfs.clock()

    def op_scandir(self, p, path):
        i = self.vfs.get(self.abspath(p, path))
        if i.kind != S_DIR:
            raise err(errno.ENOTDIR, path)
        if not i.mode & 0o400:
            raise err(errno.EACCES, path)
        r = [(n, c.kind) for n, c in sorted(i.entries.items())]
        random.Random("enum/%s/%s" % (self.enum_seed, path)).shuffle(r)
        return r

    def op_readlink(self, p, path):
        i = self.vfs.get(self.abspath(p, path), False)
        if i.kind != S_LINK:
            raise err(errno.EINVAL, path)
        return i.target

    def op_chdir(self, p, path):
        _, _, i, c = self.vfs.resolve(self.abspath(p, path))
        if i is None:
            raise err(errno.ENOENT, path)
        if i.kind != S_DIR:
            raise err(errno.ENOTDIR, path)
        p.cwd = c
        return c

    def op_umask(self, p, m):
        old, p.umask = p.umask, m & 0o777
        return old

    def op_dup(self, p, fd):
        o = self._fd(p, fd)
        n = p.nextfd
        p.nextfd += 1
        p.fds[n] = o
        return n

    def op_dup2(self, p, fd, to):
        o = self._fd(p, fd)
        if to != fd:
            p.fds[to] = o
        return to

    def op_flock(self, p, fd, how):
        import fcntl
        o = self._fd(p, fd)
        k = o.ino.ino
        h = self.locks.get(k)
        if how & fcntl.LOCK_UN:
            if h is not None and h[0] == p.idx:
                del self.locks[k]
            return
        if h is not None and (h[0] != p.idx or h[1] != fd):
            if how & fcntl.LOCK_NB:
                raise err(errno.EWOULDBLOCK)
            raise Block(lambda: k not in self.locks)
        self.locks[k] = (p.idx, fd)

    # ----------------------------------------------------------------- network
    def netfault(self, p):
        """What is wrong with the next connection: its own fault, or one that lasts ("on") from an earlier one."""
        f = self.netfaults.get((p.idx, p.nconn))
        if f is None:
            last = [g for (i, n), g in self.netfaults.items() if i == p.idx and n < p.nconn and g.get("on")]
            f = last[-1] if last else {}
        return f

    def op_resolve(self, p, host):
        f = self.netfault(p)
        if f.get("kind") == "dns":
            self.fire("net:dns", p)
            p.nconn += 1
            raise NetErr("gaierror")
        return net.resolve(host)

    def op_connect(self, p, host, port, timeout):
        f = self.netfault(p)
        k = f.get("kind")
        if k == "refused":
            p.nconn += 1
            self.fire("net:refused", p)
            raise err(errno.ECONNREFUSED)
        if k == "unreachable":
            p.nconn += 1
            self.fire("net:unreachable", p)
            raise err(errno.ENETUNREACH)
        if k == "connect_stall":
            if p.deadline_of is None:
                p.deadline_of = self.now + (127.0 if timeout is None else timeout)
                self.fire("net:connect_stall", p)
            if self.now + 1e-12 < p.deadline_of:
                raise Block(lambda: False, p.deadline_of)
            p.nconn += 1
            if timeout is None:
                raise err(errno.ETIMEDOUT)
            raise NetErr("timeout", "timed out")
        p.nconn += 1
        c = net.Conn(self, p, host, port, f)
        n = len(p.conns)
        p.conns[n] = c
        return n

    def op_send(self, p, c, data, timeout):
        return p.conns[c].send(data)

    def op_recv(self, p, c, n, timeout):
        c = p.conns[c]
        r = c.recv(n)
        if r is not None:
            return r
        if p.deadline_of is None:
            p.deadline_of = float("inf") if timeout is None else self.now + timeout
        if self.now + 1e-12 >= p.deadline_of:
            self.probes["net_timeout"] = self.probes.get("net_timeout", 0) + 1
            raise NetErr("timeout", "timed out")
        raise Block(lambda: c.readable(), None if p.deadline_of == float("inf") else p.deadline_of)

    def op_shutdown(self, p, c, how):
        return None

    def op_sockclose(self, p, c):
        p.conns[c].closed = True

    # --------------------------------------------------------------- processes
    def op_spawn(self, p, argv, cwd, dirs, shell):
        kind = os.path.basename(argv[0]) if argv else ""
        cfg = self.sc.get("goal", {})
        if cfg.get("only") is not None:          # the failure strikes one invocation only
            self.ngoal = getattr(self, "ngoal", -1) + 1
            if self.ngoal != cfg["only"]:
                cfg = {"step": cfg.get("step", 4096)}
        if kind != "goal" or cfg.get("missing"):
            if kind == "goal":
                self.fire("goal:missing", p)
            raise err(errno.ENOENT, argv[0] if argv else "")
        if cfg.get("noexec"):
            self.fire("goal:noexec", p)
            raise err(errno.EACCES, argv[0])
        if cfg.get("eagain"):
            self.fire("goal:eagain", p)
            raise err(errno.EAGAIN)
        q = self.add_proc({"kind": "goal", "argv": argv, "cwd": cwd, "umask": p.umask, "start": self.now,
                           "cfg": cfg, "dirs": dirs}, parent=p)
        q.stdin_open = dirs[0] == "pipe"
        q.stdin = bytearray()
        if dirs[0] == "inherit":
            q.stdin += p.stdin[p.stdin_pos:]
        elif isinstance(dirs[0], tuple):
            o = p.fds.get(dirs[0][1])
            if isinstance(o, OFD):
                q.stdin += bytes(o.ino.data)
        q.outpos = {1: 0, 2: 0}
        q.outfd = {}
        for w in (1, 2):
            d = dirs[w]
            if isinstance(d, tuple):
                q.outfd[w] = p.fds.get(d[1])
        h = len(p.kids)
        p.kids[h] = q
        self.nextpid += 1
        return h, self.nextpid

    def op_pwrite_stdin(self, p, h, data):
        q = p.kids[h]
        if q.state == "dead":
            raise err(errno.EPIPE)
        q.stdin += data
        return len(data)

    def op_pclose_stdin(self, p, h):
        p.kids[h].stdin_open = False

    def op_pread_out(self, p, h, which, n):
        q = p.kids[h]
        buf = q.out if which == 1 else q.errs
        d = bytes(buf[q.outpos[which]:q.outpos[which] + n])
        if not d and q.state != "dead":
            raise Block(lambda: q.state == "dead" or len(buf) > q.outpos[which])
        q.outpos[which] += len(d)
        return d

    def op_wait(self, p, h, timeout):
        q = p.kids[h]
        if q.state == "dead":
            return q.code
        if p.deadline_of is None:
            p.deadline_of = float("inf") if timeout is None else self.now + timeout
        if self.now + 1e-12 >= p.deadline_of:
            return None
        raise Block(lambda: q.state == "dead", None if p.deadline_of == float("inf") else p.deadline_of)

    def op_psignal(self, p, h, sig):
        q = p.kids[h]
        if q.state == "new":
            q.state, q.how, q.code = "dead", "killed", -sig
        elif q.state == "ready" and sig != 0:
            self._end(q, "killed", -sig)

    def op_killpid(self, p, pid, sig):
        raise err(errno.ESRCH)

    # stub-only calls
    def op_stub_stdin(self, p):
        if p.stdin_open:
            raise Block(lambda: not p.stdin_open)
        return bytes(p.stdin)

    def op_stub_step(self, p, what):
        return None


def filebytes(spec):
    if isinstance(spec, str):
        return spec.encode("utf-8")
    if "hex" in spec:
        return bytes.fromhex(spec["hex"])
    return spec["data"].encode("utf-8", "surrogateescape")


def pathargs(op, args):
    return [a for a in args if isinstance(a, str)][:2] if op not in ("wait",) else []


def brief(x):
    out = []
    for a in (x if isinstance(x, (tuple, list)) else (x,)):
        if isinstance(a, (bytes, bytearray)):
            out.append("%d#%s" % (len(a), hashlib.blake2b(bytes(a), digest_size=4).hexdigest()))
        elif isinstance(a, (list, tuple)):
            out.append(brief(a))
        else:
            out.append(a)
    return tuple(out)


REPO = os.environ.get("VERIF_REPO", "/repo")
REAL_PREFIXES = []


def real_prefixes():
    import sysconfig
    pre = {os.path.abspath(REPO), sys.prefix, sys.base_prefix + "/lib", "/usr/share", "/usr/lib",
           sysconfig.get_paths()["stdlib"], "/etc/ssl"}
    if sys.pycache_prefix:
        pre.add(sys.pycache_prefix)
    return sorted(x.rstrip("/") for x in pre)


def warm():
    """Import the third-party code once, before any fork; never tealish."""
    REAL_PREFIXES[:] = real_prefixes()
    import importlib.resources, inspect, json, pathlib, tempfile, subprocess, ssl, socket, http.client, urllib.request  # noqa
    import _pyio, shutil, uuid, secrets, fcntl, contextlib, contextvars, threading, traceback, glob, logging, concurrent.futures  # noqa
    import click, requests, textx, arpeggio, algosdk.v2client.algod, algosdk.source_map  # noqa
    import click.testing, encodings.idna, encodings.latin_1, encodings.ascii, encodings.cp1252  # noqa
    import stringprep, unicodedata, linecache, tokenize, urllib3.util.wait  # noqa
    import email.parser, email.message, email.policy, email.utils, difflib, ast, dis  # noqa
    import http.cookiejar, netrc, mimetypes, zipfile  # noqa
    import random, hashlib, hmac, base64, select, locale  # noqa
    import gc
    gc.collect()
    gc.freeze()
