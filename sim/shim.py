"""Child side of the simulator: the seams.

Runs inside a forked process.  Every effect the code under test can have
(files, network, clock, randomness, subprocesses, signals, exit) is turned into
one message to the kernel process, which answers when the simulated system call
is to complete.  Reads below a few real prefixes (the repository, the
interpreter's libraries) are served by the real file system; writes there are
refused and reported.
"""
import dis
import marshal
import os
import struct
import sys

from . import heap

SYS = 1000                     # first virtual descriptor
_real = {}
_sock = None
_rbuf = b""

REAL_PREFIXES = []
VIRTUAL_HINT = ()


class Ctx:
    cwd = "/"
    pid = 4242
    enc = "utf-8"
    environ = {}
    fdpath = {}
    handlers = {}
    repo = "/repo/"
    deferred = None            # a signal that arrived while none are looked for
    masked = frozenset()
    threads = 0                # depth of simulated threads: signals go to the main one


ctx = Ctx()
_busy = False


class SimKilled(BaseException):
    pass


def _send(obj):
    b = marshal.dumps(obj)
    _sock.sendall(struct.pack("<I", len(b)) + b)


def _recvn(n):
    out = b""
    while len(out) < n:
        c = _sock.recv(n - len(out))
        if not c:
            _real["_exit"](99)
        out += c
    return out


def _recv():
    n = struct.unpack("<I", _recvn(4))[0]
    return marshal.loads(_recvn(n))


def rpc(op, *args):
    global _busy
    if ctx.deferred is not None and op != "struck":
        late()
    if _busy:          # re-entrancy would break the lockstep protocol
        _real["_exit"](98)
    _busy = True
    try:
        _send((op,) + args)
        r = _recv()
    finally:
        _busy = False
    k = r[0]
    if k == 0:
        return r[1]
    if k == 1:
        e, names = r[1], r[2]
        raise OSError(e, os.strerror(e), *names)
    if k in (2, 4) and held(r[1]):
        ctx.deferred = r[1]
        return r[2] if k == 2 else rpc(op, *args)
    if k == 2:          # signal delivered during the call
        deliver(r[1])
        return r[2]
    if k == 4:          # signal delivered before the call, which is then made
        deliver(r[1])
        return rpc(op, *args)
    if k == 5:          # the call is done; the process is struck a little later, between calls
        arm(r[2], r[3])
        return r[1]
    if k == 3:
        import socket
        kind, msg = r[1], r[2]
        if kind == "timeout":
            raise TimeoutError(msg)
        if kind == "gaierror":
            raise socket.gaierror(-2, "Name or service not known")
        if kind == "memory":
            raise MemoryError()
        raise RuntimeError("sim: " + kind)
    raise RuntimeError("sim: bad reply")


_back = {}


def backward(code):
    """Offsets of the jumps at which the interpreter looks for signals (it does not at those out of an except clause)."""
    b = _back.get(code)
    if b is None:
        op, raw = dis.opmap["JUMP_BACKWARD"], code.co_code
        b = _back[code] = {i for i in range(0, len(raw), 2) if raw[i] == op}
    return b


WITHIN = ("/textx/", "/arpeggio/", "/json/", "/click/", "/site-packages/requests/models.py")
TOOL = 4


def arm(after, what):
    """SIGINT or a failing allocation at the after-th function entry or backward jump from here in the code under test
    (where CPython looks for signals)."""
    m = sys.monitoring
    e = m.events
    left = [after]

    def event(entry):
        left[0] -= 1
        if left[0] > 0 or _busy or what == "memory" and not entry:
            return
        m.set_events(TOOL, 0)
        rpc("struck", what)
        if what == "memory":
            raise MemoryError()
        import signal
        if held(signal.SIGINT):
            ctx.deferred = signal.SIGINT
            return
        deliver(signal.SIGINT)

    def start(code, off):
        f = code.co_filename
        if not f.startswith(ctx.repo) and not any(w in f for w in WITHIN):
            return m.DISABLE
        event(True)

    def jump(code, off, dest):
        f = code.co_filename
        if dest > off or off not in backward(code) or not f.startswith(ctx.repo) and not any(w in f for w in WITHIN):
            return m.DISABLE
        event(False)
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, "verif-strike")
    m.register_callback(TOOL, e.PY_START, start)
    m.register_callback(TOOL, e.JUMP, jump)
    m.set_events(TOOL, e.PY_START | e.JUMP)
    m.restart_events()


def in_dealloc():
    """In the finaliser of a file?  It is C code in reality: Python looks for signals only after it."""
    f = sys._getframe(1)
    while f is not None:
        if f.f_code.co_name == "__del__" and f.f_code.co_filename.endswith("/_pyio.py"):
            return True
        f = f.f_back
    return False


def held(sig):
    return ctx.threads > 0 or sig in ctx.masked or in_dealloc()


def late():
    """Deliver the signal that had to wait, if it may come now."""
    if ctx.deferred is not None and not held(ctx.deferred):
        sig, ctx.deferred = ctx.deferred, None
        deliver(sig)


def s_sigmask(how, mask):
    import signal
    old, mask = ctx.masked, frozenset(int(x) for x in mask)
    ctx.masked = old | mask if how == signal.SIG_BLOCK else old - mask if how == signal.SIG_UNBLOCK else mask
    late()
    return {signal.Signals(x) for x in old}


def s_submit(self, fn, /, *a, **k):
    """ThreadPoolExecutor.submit: the schedule in which the task runs at once."""
    from concurrent.futures import Future
    if self._shutdown:
        raise RuntimeError("cannot schedule new futures after shutdown")
    f = Future()
    f.set_running_or_notify_cancel()
    ctx.threads += 1
    try:
        r = fn(*a, **k)
    except BaseException as e:
        f.set_exception(e)
    else:
        f.set_result(r)
    finally:
        ctx.threads -= 1
    return f


def s_start(self):
    """Thread.start: the schedule in which the thread runs to its end at once; a timer's never comes to run."""
    import threading
    if self._started.is_set():
        raise RuntimeError("threads can only be started once")
    self._started.set()
    self._is_stopped = True
    if isinstance(self, threading.Timer):
        return
    ctx.threads += 1
    try:
        self.run()
    except SystemExit:
        pass
    except BaseException:
        import traceback
        sys.stderr.write("Exception in thread %s:\n%s" % (self.name, traceback.format_exc(limit=-1)))
    finally:
        ctx.threads -= 1


def s_join(self, timeout=None):
    pass


def deliver(sig):
    import signal
    h = ctx.handlers.get(sig)
    if h is None:
        if sig == signal.SIGINT:
            raise KeyboardInterrupt
        rpc("die", sig)
        _real["_exit"](97)
    if h == signal.SIG_IGN:
        return
    if h == signal.SIG_DFL:
        rpc("die", sig)
        _real["_exit"](97)
    h(sig, sys._getframe(2))


# ------------------------------------------------------------------ paths
def _fs(path, dir_fd=None):
    if isinstance(path, int):
        return path
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if "\0" in p:
        raise ValueError("embedded null byte")
    if dir_fd is not None and not p.startswith("/"):
        p = ctx.fdpath.get(dir_fd, "/") + "/" + p
    return p


def _is_real(p):
    if not isinstance(p, str):
        return isinstance(p, int) and 2 < p < SYS
    if not p.startswith("/"):
        p = ctx.cwd + "/" + p
    for pre in REAL_PREFIXES:
        if p.startswith(pre) and (len(p) == len(pre) or p[len(pre)] == "/"):
            return True
    return False


def _deny(op, p):
    import errno
    rpc("escape", op, p)
    raise OSError(errno.EROFS, os.strerror(errno.EROFS), p)


def _mkstat(t):
    m, ino, dev, nl, u, g, sz, a, mt, c = t
    ns = [int(x * 1e9) for x in (a, mt, c)]
    return os.stat_result((m, ino, dev, nl, u, g, sz, int(a), int(mt), int(c),
                           a, mt, c, ns[0], ns[1], ns[2], 4096, (sz + 511) // 512, 0))


def s_open(path, flags, mode=0o777, *, dir_fd=None):
    p = _fs(path, dir_fd)
    if _is_real(p):
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            _deny("open", p)
        return _real["open"](p, flags, mode)
    fd = rpc("open", p, flags, mode)
    ctx.fdpath[fd] = p if p.startswith("/") else ctx.cwd + "/" + p
    return fd


def _v(fd):
    return isinstance(fd, int) and (fd >= SYS or 0 <= fd <= 2)


def s_close(fd):
    if not _v(fd):
        return _real["close"](fd)
    rpc("close", fd)
    ctx.fdpath.pop(fd, None)


def s_closerange(a, b):
    return None


def s_read(fd, n):
    if not _v(fd):
        return _real["read"](fd, n)
    return rpc("read", fd, n)


def s_write(fd, data):
    if not _v(fd):
        return _real["write"](fd, data)
    return rpc("write", fd, bytes(data))


def s_pread(fd, n, off):
    if not _v(fd):
        return _real["pread"](fd, n, off)
    return rpc("pread", fd, n, off)


def s_pwrite(fd, data, off):
    return rpc("pwrite", fd, bytes(data), off)


def s_readv(fd, bufs):
    n = 0
    for b in bufs:
        d = s_read(fd, len(b))
        b[:len(d)] = d
        n += len(d)
        if len(d) < len(b):
            break
    return n


def s_writev(fd, bufs):
    return s_write(fd, b"".join(bytes(b) for b in bufs))


def s_lseek(fd, pos, how):
    if 0 <= fd <= 2:
        raise OSError(29, os.strerror(29))
    if not _v(fd):
        return _real["lseek"](fd, pos, how)
    return rpc("lseek", fd, pos, how)


def s_fstat(fd):
    if 0 <= fd <= 2:
        return _mkstat((0o010600, 3, 0, 1, 1000, 1000, 0, 0.0, 0.0, 0.0))
    if not _v(fd):
        return _real["fstat"](fd)
    return _mkstat(rpc("fstat", fd))


def s_stat(path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return s_fstat(path)
    p = _fs(path, dir_fd)
    if _is_real(p):
        return _real["stat"](p, follow_symlinks=follow_symlinks)
    return _mkstat(rpc("stat", p, bool(follow_symlinks)))


def s_lstat(path, *, dir_fd=None):
    return s_stat(path, dir_fd=dir_fd, follow_symlinks=False)


def s_ftruncate(fd, n):
    if not _v(fd):
        return _real["ftruncate"](fd, n)
    rpc("ftruncate", fd, n)


def s_truncate(path, n):
    if isinstance(path, int):
        return s_ftruncate(path, n)
    p = _fs(path)
    if _is_real(p):
        _deny("truncate", p)
    rpc("truncate", p, n)


def s_fsync(fd):
    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    if _v(fd):
        rpc("fsync", fd)


def s_sync():
    rpc("sync")


def _two(op):
    def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
        a, b = _fs(src, src_dir_fd), _fs(dst, dst_dir_fd)
        if _is_real(a) or _is_real(b):
            _deny(op, b)
        rpc(op, a, b)
    return f


s_rename = _two("rename")
s_link = _two("link")


def s_symlink(src, dst, target_is_directory=False, *, dir_fd=None):
    b = _fs(dst, dir_fd)
    if _is_real(b):
        _deny("symlink", b)
    rpc("symlink", _fs(src), b)


def _one(op):
    def f(path, *a, dir_fd=None, follow_symlinks=True):
        p = _fs(path, dir_fd)
        if _is_real(p):
            _deny(op, p)
        rpc(op, p, *a)
    return f


s_unlink = _one("unlink")
s_rmdir = _one("rmdir")


def s_mkdir(path, mode=0o777, *, dir_fd=None):
    p = _fs(path, dir_fd)
    if _is_real(p):
        _deny("mkdir", p)
    rpc("mkdir", p, mode)


def s_chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return s_fchmod(path, mode)
    p = _fs(path, dir_fd)
    if _is_real(p):
        _deny("chmod", p)
    rpc("chmod", p, mode)


def s_fchmod(fd, mode):
    rpc("fchmod", fd, mode)


def s_utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    p = _fs(path, dir_fd)
    if isinstance(p, int):
        return
    if _is_real(p):
        _deny("utime", p)
    rpc("utime", p)


def s_access(path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
    p = _fs(path, dir_fd)
    if _is_real(p):
        return _real["access"](p, mode) and not mode & os.W_OK
    return rpc("access", p, mode)


def s_chown(*a, **k):
    return None


def s_xattr(*a, **k):
    import errno
    raise OSError(errno.ENOTSUP, os.strerror(errno.ENOTSUP))


def s_listdir(path="."):
    if isinstance(path, int) and _v(path):
        p = ctx.fdpath[path]
    else:
        p = _fs(path)
    if _is_real(p):
        return _real["listdir"](p)
    r = [n for n, _ in rpc("scandir", p)]
    if isinstance(path, bytes):
        r = [os.fsencode(n) for n in r]
    return r


class SimDirEntry:
    __slots__ = ("name", "path", "_kind")

    def __init__(self, name, path, kind):
        self.name, self.path, self._kind = name, path, kind

    def is_dir(self, *, follow_symlinks=True):
        if self._kind == "l" and follow_symlinks:
            try:
                import stat
                return stat.S_ISDIR(s_stat(self.path).st_mode)
            except OSError:
                return False
        return self._kind == "d"

    def is_file(self, *, follow_symlinks=True):
        if self._kind == "l" and follow_symlinks:
            try:
                import stat
                return stat.S_ISREG(s_stat(self.path).st_mode)
            except OSError:
                return False
        return self._kind == "f"

    def is_symlink(self):
        return self._kind == "l"

    def is_junction(self):
        return False

    def inode(self):
        return s_lstat(self.path).st_ino

    def stat(self, *, follow_symlinks=True):
        return s_stat(self.path, follow_symlinks=follow_symlinks)

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return "<DirEntry %r>" % self.name


class _Scan:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        self.it = iter(())


def s_scandir(path="."):
    if isinstance(path, int):
        p = ctx.fdpath[path]
        base = ""
    else:
        p = _fs(path)
        base = p if p.endswith("/") else p + "/"
    if _is_real(p):
        return _real["scandir"](p)
    return _Scan([SimDirEntry(n, base + n, k) for n, k in rpc("scandir", p)])


def s_readlink(path, *, dir_fd=None):
    p = _fs(path, dir_fd)
    if _is_real(p):
        return _real["readlink"](p)
    return rpc("readlink", p)


def s_getcwd():
    return ctx.cwd


def s_chdir(path):
    p = _fs(path)
    ctx.cwd = rpc("chdir", p)


def s_umask(m):
    return rpc("umask", m)


def s_getpid():
    return ctx.pid


def s_isatty(fd):
    if not _v(fd):
        return _real["isatty"](fd)
    return False


def s_dup(fd, *a):
    if not _v(fd):
        return _real["dup"](fd)
    n = rpc("dup", fd)
    ctx.fdpath[n] = ctx.fdpath.get(fd, "")
    return n


def s_dup2(fd, fd2, inheritable=True):
    if not (0 <= fd <= 2 or fd >= SYS) or not (0 <= fd2 <= 2 or fd2 >= SYS):
        return _real["dup2"](fd, fd2)
    rpc("dup2", fd, fd2)
    ctx.fdpath[fd2] = ctx.fdpath.get(fd, "")
    return fd2


def s_false(*a, **k):
    return False


def s_none(*a, **k):
    return None


def s_urandom(n):
    return rpc("urandom", n)


def s_kill(pid, sig):
    rpc("killpid", pid, int(sig))


def s_unsupported(name):
    def f(*a, **k):
        import errno
        rpc("unsupported", name)
        raise OSError(errno.ENOSYS, "not simulated: " + name)
    return f


def s_flock(fd, op):
    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    rpc("flock", fd, int(op))


def s_lockf(fd, op, *a):
    s_flock(fd, op)


def s_terminal_size(*a):
    import errno
    raise OSError(errno.ENOTTY, "not a tty")


# ------------------------------------------------------------------ clock
def s_time():
    return rpc("now") + 1.8e9


def s_mono():
    return rpc("now") + 1000.0


def s_time_ns():
    return int(s_time() * 1e9)


def s_mono_ns():
    return int(s_mono() * 1e9)


def calendar():
    """time's and datetime's views of the simulated clock."""
    import datetime as dt
    import time
    for n in ("localtime", "gmtime", "ctime"):
        def f(secs=None, real=getattr(time, n)):
            return real(s_time() if secs is None else secs)
        setattr(time, n, f)
    strftime, asctime = time.strftime, time.asctime
    time.strftime = lambda fmt, t=None: strftime(fmt, time.localtime() if t is None else t)
    time.asctime = lambda t=None: asctime(time.localtime() if t is None else t)
    time.clock_gettime = lambda c: s_time() if c == time.CLOCK_REALTIME else s_mono()
    time.clock_gettime_ns = lambda c: int(time.clock_gettime(c) * 1e9)
    date, datetime = dt.date, dt.datetime

    class Like(type):
        def __instancecheck__(cls, x):
            return isinstance(x, cls.__mro__[1])

        def __subclasscheck__(cls, c):
            return issubclass(c, cls.__mro__[1])

    class Date(date, metaclass=Like):
        @classmethod
        def today(cls):
            return date.fromtimestamp(s_time())

    class DateTime(datetime, metaclass=Like):
        @classmethod
        def now(cls, tz=None):
            return datetime.fromtimestamp(s_time(), tz)

        @classmethod
        def utcnow(cls):
            return datetime.fromtimestamp(s_time(), dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return datetime.fromtimestamp(s_time())
    Date.__name__ = Date.__qualname__ = "date"
    DateTime.__name__ = DateTime.__qualname__ = "datetime"
    dt.date, dt.datetime = Date, DateTime


def s_sleep(t):
    rpc("sleep", float(t))


# ------------------------------------------------------------------ network
class SimSocket:
    """Stream socket of the simulated network."""

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        import socket
        self.family = family if family != -1 else socket.AF_INET
        self.type = type if type != -1 else socket.SOCK_STREAM
        self.proto = 0
        t = socket.getdefaulttimeout()
        self._timeout = t
        self._c = None
        self._io_refs = 0
        self._closed = False
        self._peer = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def fileno(self):
        return -1 if self._closed else 900000 + (self._c or 0)

    def settimeout(self, t):
        self._timeout = None if t is None else float(t)

    def gettimeout(self):
        return self._timeout

    def setblocking(self, b):
        self._timeout = None if b else 0.0

    timeout = property(gettimeout)

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def bind(self, addr):
        pass

    def connect(self, addr):
        self._c = rpc("connect", addr[0], int(addr[1]), self._timeout)
        self._peer = addr

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno or 1
        return 0

    def getpeername(self):
        return self._peer

    def getsockname(self):
        return ("10.0.0.1", 50000)

    def send(self, data, flags=0):
        return rpc("send", self._c, bytes(data), self._timeout)

    def sendall(self, data, flags=0):
        data = bytes(data)
        while data:
            n = self.send(data)
            data = data[n:]

    def recv(self, n, flags=0):
        return rpc("recv", self._c, n, self._timeout)

    def recv_into(self, buf, nbytes=0, flags=0):
        n = nbytes or len(buf)
        d = self.recv(n)
        buf[:len(d)] = d
        return len(d)

    def shutdown(self, how):
        rpc("shutdown", self._c, how)

    def _real_close(self):
        if self._c is not None:
            c, self._c = self._c, None
            try:
                rpc("sockclose", c)
            except OSError:
                pass

    def _decref_socketios(self):
        if self._io_refs > 0:
            self._io_refs -= 1
        if self._closed:
            self.close()

    def close(self):
        self._closed = True
        if self._io_refs <= 0:
            self._real_close()

    def detach(self):
        return -1

    def unwrap(self):
        return self

    def makefile(self, mode="r", buffering=None, *, encoding=None, errors=None, newline=None):
        return _real["makefile"](self, mode, buffering, encoding=encoding, errors=errors, newline=newline)

    # the TLS layer is transparent in the simulation
    def getpeercert(self, binary_form=False):
        return b"" if binary_form else {"subject": ()}

    def version(self):
        return "TLSv1.3"

    def cipher(self):
        return ("SIM", "TLSv1.3", 256)

    def selected_alpn_protocol(self):
        return None

    def do_handshake(self):
        pass

    def pending(self):
        return 0


def s_getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    import socket
    if isinstance(host, bytes):
        host = host.decode()
    ip = rpc("resolve", host)
    return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", (ip, int(port)))]


def s_create_connection(address, timeout=None, source_address=None, *, all_errors=False):
    import socket
    if timeout is socket._GLOBAL_DEFAULT_TIMEOUT:
        timeout = socket.getdefaulttimeout()
    host, port = address
    res = s_getaddrinfo(host, port)
    s = SimSocket()
    s.settimeout(timeout)
    try:
        s.connect(res[0][4])
    except BaseException:
        s.close()
        raise
    return s


# ------------------------------------------------------------------ subprocess
class _PipeRaw:
    pass


def make_pipes():
    import io

    class PipeIn(io.RawIOBase):
        def __init__(self, h):
            self.h = h

        def writable(self):
            return True

        def write(self, b):
            return rpc("pwrite_stdin", self.h, bytes(b))

        def close(self):
            if not self.closed:
                super().close()
                rpc("pclose_stdin", self.h)

    class PipeOut(io.RawIOBase):
        def __init__(self, h, which):
            self.h, self.which = h, which

        def readable(self):
            return True

        def readinto(self, buf):
            d = rpc("pread_out", self.h, self.which, len(buf))
            buf[:len(d)] = d
            return len(d)
    return PipeIn, PipeOut


class SimPopen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, startupinfo=None, creationflags=0,
                 restore_signals=True, start_new_session=False, pass_fds=(), *,
                 user=None, group=None, extra_groups=None, encoding=None, errors=None,
                 text=None, umask=-1, pipesize=-1, process_group=None):
        import io
        import subprocess
        self.args = args
        if isinstance(args, (str, bytes)) or hasattr(args, "__fspath__"):
            if shell:
                import shlex
                av = shlex.split(os.fsdecode(args))
            else:
                av = [os.fsdecode(args)]
        else:
            av = [os.fsdecode(a) for a in args]
        self.text_mode = bool(encoding or errors or text or universal_newlines)
        self.encoding = encoding or ("utf-8" if ctx.enc is None else ctx.enc)

        def dst(x, name):
            if x is None:
                return "inherit"
            if x == subprocess.PIPE:
                return "pipe"
            if x == subprocess.DEVNULL:
                return "null"
            if x == subprocess.STDOUT:
                return "stdout"
            fd = x if isinstance(x, int) else x.fileno()
            return ("fd", fd)
        self._dirs = [dst(stdin, "stdin"), dst(stdout, "stdout"), dst(stderr, "stderr")]
        self.stdin = self.stdout = self.stderr = None
        self.returncode = None
        wd = os.fsdecode(cwd) if cwd is not None else ctx.cwd
        self._h, self.pid = rpc("spawn", av, wd, self._dirs, bool(shell))
        PipeIn, PipeOut = make_pipes()
        if self._dirs[0] == "pipe":
            f = io.BufferedWriter(PipeIn(self._h))
            self.stdin = io.TextIOWrapper(f, encoding=self.encoding, errors=errors, write_through=True) if self.text_mode else f
        if self._dirs[1] == "pipe":
            f = io.BufferedReader(PipeOut(self._h, 1))
            self.stdout = io.TextIOWrapper(f, encoding=self.encoding, errors=errors) if self.text_mode else f
        if self._dirs[2] == "pipe":
            f = io.BufferedReader(PipeOut(self._h, 2))
            self.stderr = io.TextIOWrapper(f, encoding=self.encoding, errors=errors) if self.text_mode else f

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        for f in (self.stdout, self.stderr):
            if f:
                f.close()
        try:
            if self.stdin:
                self.stdin.close()
        finally:
            if et is KeyboardInterrupt:
                return
            self.wait()

    def communicate(self, input=None, timeout=None):
        import subprocess
        if self.stdin:
            try:
                if input:
                    self.stdin.write(input)
                self.stdin.close()
            except BrokenPipeError:
                pass
        # reading both streams in one call: the kernel waits for process end
        r = rpc("wait", self._h, None if timeout is None else float(timeout))
        if r is None:
            raise subprocess.TimeoutExpired(self.args, timeout)
        out = self.stdout.read() if self.stdout else None
        er = self.stderr.read() if self.stderr else None
        self.returncode = r
        return out, er

    def wait(self, timeout=None):
        import subprocess
        if self.returncode is None:
            r = rpc("wait", self._h, None if timeout is None else float(timeout))
            if r is None:
                raise subprocess.TimeoutExpired(self.args, timeout)
            self.returncode = r
        return self.returncode

    def poll(self):
        if self.returncode is None:
            self.returncode = rpc("wait", self._h, 0.0)
        return self.returncode

    def send_signal(self, sig):
        if self.returncode is None:
            rpc("psignal", self._h, int(sig))

    def kill(self):
        self.send_signal(9)

    def terminate(self):
        self.send_signal(15)


# ------------------------------------------------------------------ install
def install(sock, conf):
    global _sock
    import _pyio
    import _io
    import builtins
    import io
    import gc
    import locale
    import random
    import shutil
    import signal
    import socket
    import ssl
    import subprocess
    import tempfile
    import time
    import weakref
    import atexit
    _sock = sock
    gc.disable()
    ctx.cwd = conf["cwd"]
    ctx.pid = conf["pid"]
    ctx.enc = conf["enc"]
    ctx.heap = conf.get("heap")
    REAL_PREFIXES[:] = conf["real_prefixes"]
    for n in ("open close read write pread lseek fstat stat lstat ftruncate listdir scandir readlink "
              "access isatty dup _exit getpid").split():
        _real[n] = getattr(os, n)
    _real["makefile"] = socket.socket.makefile

    table = dict(open=s_open, close=s_close, closerange=s_closerange, read=s_read, write=s_write,
                 pread=s_pread, pwrite=s_pwrite, readv=s_readv, writev=s_writev, lseek=s_lseek,
                 fstat=s_fstat, stat=s_stat, lstat=s_lstat, ftruncate=s_ftruncate, truncate=s_truncate,
                 fsync=s_fsync, fdatasync=s_fsync, sync=s_sync, rename=s_rename, replace=s_rename,
                 link=s_link, symlink=s_symlink, unlink=s_unlink, remove=s_unlink, rmdir=s_rmdir,
                 mkdir=s_mkdir, chmod=s_chmod, fchmod=s_fchmod, utime=s_utime, access=s_access,
                 chown=s_chown, fchown=s_chown, lchown=s_chown, listdir=s_listdir, scandir=s_scandir,
                 readlink=s_readlink, getcwd=s_getcwd, getcwdb=lambda: s_getcwd().encode(),
                 chdir=s_chdir, umask=s_umask, getpid=s_getpid, isatty=s_isatty, dup=s_dup, dup2=s_dup2,
                 get_inheritable=s_false, set_inheritable=s_none, urandom=s_urandom, kill=s_kill,
                 get_terminal_size=s_terminal_size, posix_fallocate=s_none, posix_fadvise=s_none,
                 getxattr=s_xattr, setxattr=s_xattr, listxattr=s_xattr,
                 getuid=lambda: 1000, geteuid=lambda: 1000, getgid=lambda: 1000, getegid=lambda: 1000,
                 cpu_count=lambda: 4, getloadavg=lambda: (0.0, 0.0, 0.0), getlogin=lambda: "user")
    for n in ("fork forkpty vfork posix_spawn posix_spawnp execv execve system popen pipe pipe2 openpty "
              "sendfile copy_file_range splice statvfs fstatvfs mkfifo mknod chroot fchdir "
              "memfd_create eventfd getrandom waitpid wait").split():
        if hasattr(os, n):
            table[n] = s_unsupported(n)
    for n, f in table.items():
        if hasattr(os, n):
            setattr(os, n, f)
    for s in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks, os.supports_effective_ids):
        s.clear()
    os.environ.clear()
    os.environ.update(conf["environ"])

    # io
    def p_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        return _pyio.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    builtins.open = p_open
    io.open = p_open
    _io.open = p_open
    io.FileIO = _pyio.FileIO
    _pyio.text_encoding = io.text_encoding = lambda enc, stacklevel=2: "locale" if enc is None else enc    # as without UTF-8 mode
    locale.getencoding = lambda: ctx.enc
    locale.getpreferredencoding = lambda do_setlocale=True: ctx.enc
    _pyio.DEFAULT_BUFFER_SIZE = conf.get("bufsize", 8192)
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    try:
        import fcntl
        fcntl.flock = s_flock
        fcntl.lockf = s_lockf
    except ImportError:
        pass

    # randomness
    random._urandom = s_urandom
    rs = conf["rseed"]

    class SeededRandom(random.Random):
        _k = [0]

        def __init__(self, x=None):
            if x is None:
                SeededRandom._k[0] += 1
                x = "%s/%d" % (rs, SeededRandom._k[0])
            super().__init__(x)
    tempfile._Random = SeededRandom
    random.Random = SeededRandom
    random.seed(rs)
    tempfile.tempdir = None
    tempfile._name_sequence = None

    # clock
    time.time, time.monotonic, time.perf_counter = s_time, s_mono, s_mono
    time.time_ns, time.monotonic_ns, time.perf_counter_ns = s_time_ns, s_mono_ns, s_mono_ns
    time.process_time = s_mono
    time.sleep = s_sleep
    calendar()
    time.tzset()
    subprocess._time = s_mono
    import threading
    threading._time = s_mono
    threading.Thread.start, threading.Thread.join = s_start, s_join
    import concurrent.futures.thread
    concurrent.futures.thread.ThreadPoolExecutor.submit = s_submit

    # network
    socket.socket = SimSocket
    socket.SocketType = SimSocket
    socket.create_connection = s_create_connection
    socket.getaddrinfo = s_getaddrinfo
    socket.gethostbyname = lambda h: s_getaddrinfo(h, 0)[0][4][0]
    socket.gethostname = lambda: "simhost"
    socket.getfqdn = lambda n="": n or "simhost"
    socket.has_ipv6 = False
    ssl.SSLContext.wrap_socket = lambda self, sock, *a, **k: sock
    ssl.SSLContext.load_verify_locations = s_none
    ssl.SSLContext.load_default_certs = s_none
    ssl.SSLContext.set_default_verify_paths = s_none
    import select
    select.select = s_unsupported("select")
    if hasattr(select, "poll"):
        select.poll = s_unsupported("poll")
    try:
        import urllib3.util.connection
        urllib3.util.connection.HAS_IPV6 = False
        import urllib3.util.wait as uw
        uw.wait_for_socket = lambda sock, read=False, write=False, timeout=None: True
        import urllib3.connection
        urllib3.connection.wait_for_read = lambda sock, timeout=None: True
    except ImportError:
        pass

    # processes and signals
    subprocess.Popen = SimPopen

    def s_signal(num, h):
        old = ctx.handlers.get(num, signal.default_int_handler if num == signal.SIGINT else signal.SIG_DFL)
        ctx.handlers[num] = None if h is signal.default_int_handler else h
        return old
    signal.signal = s_signal
    signal.pthread_sigmask = s_sigmask
    for n in ("alarm", "setitimer", "pause", "sigwait", "set_wakeup_fd"):
        setattr(signal, n, s_unsupported("signal." + n))
    signal.getsignal = lambda num: ctx.handlers.get(num) or (signal.default_int_handler if num == signal.SIGINT else signal.SIG_DFL)

    atexit._clear()
    weakref.finalize._registered_with_atexit = False
    weakref.finalize._registry.clear()

    def std(fd, mode, line):
        raw = _pyio.FileIO(fd, mode, closefd=False)
        if mode == "r":
            b = _pyio.BufferedReader(raw)
            return _pyio.TextIOWrapper(b, encoding="utf-8", errors="surrogateescape")
        b = _pyio.BufferedWriter(raw)
        errors = "backslashreplace" if fd == 2 else "surrogateescape" if ctx.enc == "utf-8" else "strict"
        return _pyio.TextIOWrapper(b, encoding=ctx.enc, errors=errors, line_buffering=line)
    sys.stdin = sys.__stdin__ = std(0, "r", False)
    sys.stdout = sys.__stdout__ = std(1, "w", False)
    sys.stderr = sys.__stderr__ = std(2, "w", True)


def run_main(argv, repo):
    """What `python -m tealish` (the console script) does, to the exit status."""
    import atexit
    import gc
    import traceback
    ctx.heap = heap.perturb(ctx.heap)
    ctx.repo = repo.rstrip("/") + "/"
    sys.argv = ["tealish"] + list(argv)
    if repo not in sys.path[:1]:
        sys.path.insert(0, repo)
    code = 0
    try:
        try:
            from tealish.cli import cli
            code = cli.main(args=list(argv), prog_name="tealish", standalone_mode=True)
            code = 0 if code is None else code
        except SystemExit as e:
            c = e.code
            if c is None:
                code = 0
            elif isinstance(c, int):
                code = c & 0xFF
            else:
                sys.stderr.write(str(c) + "\n")
                code = 1
        except KeyboardInterrupt:
            sys.stderr.write("KeyboardInterrupt\n")
            code = 130
        except BaseException as e:
            sys.stderr.write("Traceback (most recent call last):\n"
                             + "".join("  %s:%d %s\n" % (f.filename, f.lineno, f.name)
                                       for f in traceback.extract_tb(e.__traceback__, limit=-3))
                             + "".join(traceback.format_exception_only(e)))
            code = 1
    except KeyboardInterrupt:
        code = 130
    except BaseException:
        code = 1
    try:
        import threading
        threading._shutdown()
        atexit._run_exitfuncs()
    except BaseException:
        pass
    try:
        sys.stdout.flush()
    except BaseException:
        code = 120
    try:
        sys.stderr.flush()
    except BaseException:
        pass
    try:
        gc.collect()
    except BaseException:
        pass
    while True:
        try:
            rpc("exit", int(code))
            break
        except KeyboardInterrupt:
            continue
        except BaseException:
            break
    _real["_exit"](0)
