"""In-memory file system owned by the simulator.

It models what a POSIX file system promises and nothing more:

* visible state: what any running process sees (every completed call at once);
* durable state: what survives a power failure.  File data is durable only
  after fsync/fdatasync of that file; directory operations form one ordered
  journal of which a power failure keeps an arbitrary prefix (fsync of a
  directory makes everything journalled so far durable).

Killing a process loses nothing that reached the VFS.  A power failure replaces
every un-synced file by one of the contents the model allows.
"""
import errno
import os
import stat as st

S_FILE, S_DIR, S_LINK = "f", "d", "l"


def err(code, *paths):
    return OSError(code, os.strerror(code), *paths)


MOUNTS = ("/tmp", "/var/tmp", "/dev")


def mount(path):
    """The file system a path is on: /tmp and the like are not on the disk of the sources."""
    return next((m for m in MOUNTS if path == m or path.startswith(m + "/")), "/")


class Inode:
    __slots__ = ("ino", "kind", "data", "sdata", "mode", "entries", "target",
                 "mtime", "nlink", "pinned")

    def __init__(self, ino, kind, mode):
        self.ino = ino
        self.kind = kind
        self.mode = mode
        self.data = bytearray() if kind == S_FILE else None
        self.sdata = b"" if kind == S_FILE else None  # durable content
        self.entries = {} if kind == S_DIR else None
        self.target = None
        self.mtime = 0.0
        self.nlink = 1
        self.pinned = False


class OFD:
    """Open file description."""
    __slots__ = ("ino", "pos", "flags", "path", "dirpath")

    def __init__(self, ino, flags, path):
        self.ino = ino
        self.pos = 0
        self.flags = flags
        self.path = path


class VFS:
    def __init__(self):
        self._n = 1
        self.root = self._new(S_DIR, 0o755)
        self.version = 0          # bumped by every change of visible state
        self.journal = []         # (dir inode, name, old inode|None, new inode|None)
        self.touched = []         # paths changed by the current call (for oracles)
        self.full_at = None       # remaining bytes before ENOSPC, None = infinite
        self.clock = lambda: 0.0
        self.log_changes = []     # (verb, path) since last drain

    def _new(self, kind, mode):
        i = Inode(self._n, kind, mode)
        self._n += 1
        return i

    # ---------------------------------------------------------------- lookup
    def split(self, path):
        return [c for c in path.split("/") if c and c != "."]

    def resolve(self, path, follow=True, _depth=0):
        """-> (parent inode, name, inode or None, canonical path)."""
        if _depth > 20:
            raise err(errno.ELOOP, path)
        if not path.startswith("/"):
            raise err(errno.ENOENT, path)
        if "\0" in path:
            raise ValueError("embedded null byte")
        comps = self.split(path)
        chain = [("", self.root)]
        i = 0
        while i < len(comps):
            c = comps[i]
            cur = chain[-1][1]
            if cur.kind != S_DIR:
                raise err(errno.ENOTDIR, path)
            if c == "..":
                if len(chain) > 1:
                    chain.pop()
                i += 1
                continue
            if len(c.encode("utf-8", "surrogateescape")) > 255:
                raise err(errno.ENAMETOOLONG, path)
            nxt = cur.entries.get(c)
            last = i == len(comps) - 1
            if nxt is None:
                if last:
                    return cur, c, None, self._join(chain, c)
                raise err(errno.ENOENT, path)
            if nxt.kind == S_LINK and (follow or not last):
                base = self._join(chain[:-1], chain[-1][0]) if len(chain) > 1 else "/"
                tgt = nxt.target
                if not tgt.startswith("/"):
                    tgt = base + "/" + tgt
                rest = "/".join(comps[i + 1:])
                return self.resolve(tgt + ("/" + rest if rest else ""), follow, _depth + 1)
            if last:
                if path.endswith("/") and nxt.kind != S_DIR:
                    raise err(errno.ENOTDIR, path)
                return cur, c, nxt, self._join(chain, c)
            chain.append((c, nxt))
            i += 1
        cur = chain[-1][1]
        if len(chain) == 1:
            return None, "", self.root, "/"
        return chain[-2][1], chain[-1][0], cur, self._join(chain[:-1], chain[-1][0])

    @staticmethod
    def _join(chain, name):
        return "/" + "/".join([n for n, _ in chain[1:]] + [name])

    def get(self, path, follow=True):
        p, n, i, c = self.resolve(path, follow)
        if i is None:
            raise err(errno.ENOENT, path)
        return i

    # ----------------------------------------------------------- set-up (durable)
    def put_dir(self, path, mode=0o755):
        comps = self.split(path)
        cur = self.root
        for c in comps:
            if c not in cur.entries:
                cur.entries[c] = self._new(S_DIR, 0o755)
            cur = cur.entries[c]
        cur.mode = mode
        return cur

    def put(self, path, data, mode=0o644):
        d, n = path.rsplit("/", 1)
        dd = self.put_dir(d) if d else self.root
        i = self._new(S_FILE, mode)
        i.data = bytearray(data)
        i.sdata = bytes(data)
        dd.entries[n] = i
        self.version += 1
        return i

    def put_link(self, path, target):
        d, n = path.rsplit("/", 1)
        i = self._new(S_LINK, 0o777)
        i.target = target
        self.put_dir(d).entries[n] = i

    # ------------------------------------------------------------- observation
    def read(self, path):
        """Visible bytes of a file, None when there is none (oracle use)."""
        try:
            i = self.get(path)
        except OSError:
            return None
        if i.kind != S_FILE:
            return None
        return bytes(i.data)

    def tree(self):
        """{path: (kind, bytes|target|None, mode)} of the visible tree."""
        out = {}

        def walk(i, p):
            for n in sorted(i.entries):
                c = i.entries[n]
                q = p + "/" + n
                if c.kind == S_DIR:
                    out[q] = ("d", None, c.mode)
                    walk(c, q)
                elif c.kind == S_LINK:
                    out[q] = ("l", c.target, c.mode)
                else:
                    out[q] = ("f", bytes(c.data), c.mode)
        walk(self.root, "")
        return out

    # --------------------------------------------------------------- mutation
    def _bind(self, d, name, new, path):
        old = d.entries.get(name)
        if new is None:
            d.entries.pop(name, None)
        else:
            d.entries[name] = new
        self.journal.append((d, name, old, new))
        self.version += 1
        d.mtime = self.clock()
        self.log_changes.append(("bind" if new is not None else "unbind", path))

    def _room(self, n):
        """Bytes that may still be written out of n (disk-full model)."""
        if self.full_at is None:
            return n
        k = min(n, self.full_at)
        self.full_at -= k
        return k

    def open(self, path, flags, mode, umask):
        acc = flags & os.O_ACCMODE
        follow = not (flags & os.O_NOFOLLOW) and not (flags & os.O_EXCL and flags & os.O_CREAT)
        d, n, i, canon = self.resolve(path, follow)
        if i is None:
            if not flags & os.O_CREAT:
                raise err(errno.ENOENT, path)
            if path.endswith("/"):
                raise err(errno.EISDIR, path)
            if not d.mode & 0o200:
                raise err(errno.EACCES, path)
            if self.full_at == 0:
                raise err(errno.ENOSPC, path)
            i = self._new(S_FILE, mode & ~umask & 0o7777)
            i.mtime = self.clock()
            self._bind(d, n, i, canon)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise err(errno.EEXIST, path)
            if i.kind == S_LINK:
                raise err(errno.ELOOP, path)
            if i.kind == S_DIR and acc != os.O_RDONLY:
                raise err(errno.EISDIR, path)
            if flags & getattr(os, "O_DIRECTORY", 0) and i.kind != S_DIR:
                raise err(errno.ENOTDIR, path)
            if i.kind == S_FILE:
                if acc != os.O_WRONLY and not i.mode & 0o400:
                    raise err(errno.EACCES, path)
                if acc != os.O_RDONLY and not i.mode & 0o200:
                    raise err(errno.EACCES, path)
                if flags & os.O_TRUNC and acc != os.O_RDONLY and i.data:
                    del i.data[:]
                    self._changed(i, canon)
        o = OFD(i, flags, canon)
        return o

    def _changed(self, i, path, verb="data"):
        i.mtime = self.clock()
        self.version += 1
        self.log_changes.append((verb, path))

    def write(self, o, data, pos=None):
        i = o.ino
        if o.flags & os.O_ACCMODE == os.O_RDONLY:
            raise err(errno.EBADF)
        if not data:
            return 0
        p = o.pos if pos is None else pos
        if o.flags & os.O_APPEND:
            p = len(i.data)
        k = self._room(len(data))
        if k == 0:
            raise err(errno.ENOSPC)
        data = data[:k]
        if p > len(i.data):
            i.data.extend(b"\0" * (p - len(i.data)))
        i.data[p:p + k] = data
        if pos is None:
            o.pos = p + k
        self._changed(i, o.path)
        return k

    def read_fd(self, o, n, pos=None):
        i = o.ino
        if i.kind == S_DIR:
            raise err(errno.EISDIR)
        if o.flags & os.O_ACCMODE == os.O_WRONLY:
            raise err(errno.EBADF)
        p = o.pos if pos is None else pos
        out = bytes(i.data[p:p + n])
        if pos is None:
            o.pos = p + len(out)
        return out

    def truncate(self, i, size, path):
        if i.kind != S_FILE:
            raise err(errno.EINVAL)
        if size == len(i.data):
            return
        if size < len(i.data):
            del i.data[size:]
        else:
            i.data.extend(b"\0" * (size - len(i.data)))
        self._changed(i, path)

    def fsync(self, i):
        if i.kind == S_FILE:
            i.sdata = bytes(i.data)
        else:
            self.journal.clear()

    def mkdir(self, path, mode, umask):
        d, n, i, c = self.resolve(path.rstrip("/") or "/", False)
        if i is not None:
            raise err(errno.EEXIST, path)
        if not d.mode & 0o200:
            raise err(errno.EACCES, path)
        if self.full_at == 0:
            raise err(errno.ENOSPC, path)
        self._bind(d, n, self._new(S_DIR, mode & ~umask & 0o7777), c)

    def rmdir(self, path):
        d, n, i, c = self.resolve(path, False)
        if i is None:
            raise err(errno.ENOENT, path)
        if i.kind != S_DIR:
            raise err(errno.ENOTDIR, path)
        if i.entries:
            raise err(errno.ENOTEMPTY, path)
        self._bind(d, n, None, c)

    def unlink(self, path):
        d, n, i, c = self.resolve(path, False)
        if i is None:
            raise err(errno.ENOENT, path)
        if i.kind == S_DIR:
            raise err(errno.EISDIR, path)
        if not d.mode & 0o200:
            raise err(errno.EACCES, path)
        self._bind(d, n, None, c)

    def rename(self, a, b):
        da, na, ia, ca = self.resolve(a, False)
        if ia is None:
            raise err(errno.ENOENT, a, b)
        db, nb, ib, cb = self.resolve(b, False)
        if mount(ca) != mount(cb):
            raise err(errno.EXDEV, a, b)
        if not da.mode & 0o200 or not db.mode & 0o200:
            raise err(errno.EACCES, a, b)
        if ib is ia:
            return
        if ib is not None:
            if ib.kind == S_DIR and ia.kind != S_DIR:
                raise err(errno.EISDIR, a, b)
            if ia.kind == S_DIR and ib.kind != S_DIR:
                raise err(errno.ENOTDIR, a, b)
            if ib.kind == S_DIR and ib.entries:
                raise err(errno.ENOTEMPTY, a, b)
        old_b = db.entries.get(nb)
        # one journal record: both names change together
        da.entries.pop(na)
        db.entries[nb] = ia
        self.journal.append(("rename", da, na, ia, db, nb, old_b))
        self.version += 1
        self.log_changes.append(("unbind", ca))
        self.log_changes.append(("bind", cb))

    def link(self, a, b):
        _, _, ia, ca = self.resolve(a, False)
        if ia is None:
            raise err(errno.ENOENT, a, b)
        db, nb, ib, cb = self.resolve(b, False)
        if mount(ca) != mount(cb):
            raise err(errno.EXDEV, a, b)
        if ib is not None:
            raise err(errno.EEXIST, a, b)
        if ia.kind == S_DIR:
            raise err(errno.EPERM, a, b)
        ia.nlink += 1
        self._bind(db, nb, ia, cb)

    def symlink(self, target, path):
        d, n, i, c = self.resolve(path, False)
        if i is not None:
            raise err(errno.EEXIST, target, path)
        x = self._new(S_LINK, 0o777)
        x.target = target
        self._bind(d, n, x, c)

    def chmod(self, i, mode, path):
        if i.mode != mode & 0o7777:
            i.mode = mode & 0o7777
            self._changed(i, path, "mode")

    def stat(self, i):
        kind = {S_FILE: st.S_IFREG, S_DIR: st.S_IFDIR, S_LINK: st.S_IFLNK}[i.kind]
        size = len(i.data) if i.kind == S_FILE else (len(i.target) if i.kind == S_LINK else 4096)
        t = i.mtime
        return (kind | i.mode, i.ino, 1, i.nlink, 0, 0, size, t, t, t)

    # -------------------------------------------------------------- power loss
    @staticmethod
    def data_options(i):
        """Contents an un-synced file may have after a power failure."""
        cur, syn = bytes(i.data), i.sdata
        if cur == syn:
            return [cur]
        opts = [syn, cur, b""]
        for k in (len(cur) // 2, (len(cur) // 4096) * 4096):
            opts.append(cur[:k])
            if len(syn) > k:
                opts.append(cur[:k] + syn[k:])
            opts.append(cur[:k] + b"\0" * (len(cur) - k))
        seen, out = set(), []
        for o in opts:
            if o not in seen:
                seen.add(o)
                out.append(o)
        return out

    def crash_options(self, path):
        """Every content `path` may show after a power failure now (None = absent)."""
        try:
            d, n, i, c = self.resolve(path)
        except OSError:
            return [None]
        bindings = [i]
        for r in self.journal:
            if r[0] == "rename":
                _, da, na, ia, db, nb, old_b = r
                if da is d and na == n:
                    bindings += [ia, None]
                if db is d and nb == n:
                    bindings += [old_b, ia]
            elif r[0] is d and r[1] == n:
                bindings += [r[2], r[3]]
        out, seen = [], set()
        for b in bindings:
            if b is None:
                if None not in seen:
                    seen.add(None)
                    out.append(None)
            elif b.kind == S_FILE:
                for o in self.data_options(b):
                    if o not in seen:
                        seen.add(o)
                        out.append(o)
        return out

    def power_loss(self, pick):
        """Drop volatile state. pick(n, what) -> index chooses each outcome."""
        keep = pick(len(self.journal) + 1, "journal")
        for r in reversed(self.journal[keep:]):
            if r[0] == "rename":
                _, da, na, ia, db, nb, old_b = r
                if old_b is None:
                    db.entries.pop(nb, None)
                else:
                    db.entries[nb] = old_b
                da.entries[na] = ia
            else:
                d, n, old, new = r
                if old is None:
                    d.entries.pop(n, None)
                else:
                    d.entries[n] = old
        self.journal.clear()

        def walk(i):
            for n in sorted(i.entries):
                c = i.entries[n]
                if c.kind == S_DIR:
                    walk(c)
                elif c.kind == S_FILE:
                    opts = self.data_options(c)
                    o = opts[pick(len(opts), "data")] if len(opts) > 1 else opts[0]
                    c.data = bytearray(o)
                    c.sdata = bytes(o)
        walk(self.root)
        self.version += 1
        self.full_at = None
