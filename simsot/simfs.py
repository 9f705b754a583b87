"""A simulated disk under the checkpoint directory.

While a SimFS is installed, open/os.open/os.write/os.fsync/os.rename/os.replace/
os.remove/os.link/... on paths below its scratch directory go through it.
Every step of such an operation (create or truncate, each raw write, fsync,
close, rename, unlink) is one fault point, where the plan can

  * crash the process: the step happens partly or not at all, nothing that the
    program does afterwards reaches the disk, buffered data is lost;
  * fail the step with ENOSPC or EIO (a write may have stored a part first);
  * make a raw write short.

A crash can also be a power loss: the directory is rolled back to some point
of the metadata history not older than the last fsync, and files keep what was
fsynced plus an arbitrary part of what was not.

The data lives in a real scratch directory, so an operation the simulator does
not know simply happens; power loss is then downgraded to a process crash.
"""
import builtins
import errno
import io
import os
import shutil
import tempfile


class SimCrash(BaseException):
    """The simulated process died."""


class InjectedOSError(OSError):
    pass


class _Inode(object):
    __slots__ = ("data", "synced")

    def __init__(self):
        self.data = bytearray()
        self.synced = b""


_real = dict(
    open=builtins.open, io_open=io.open, os_open=os.open, os_write=os.write, os_close=os.close, fsync=os.fsync,
    fdatasync=os.fdatasync, rename=os.rename, replace=os.replace, remove=os.remove, unlink=os.unlink, link=os.link,
    ftruncate=os.ftruncate, truncate=os.truncate, fdopen=os.fdopen,
)


class _RawFile(io.FileIO):
    """The raw (unbuffered) side of a simulated file."""

    def __init__(self, fs, path, mode, fd=None):
        self._fs, self._path, self._epoch = fs, path, fs.epoch
        if fd is None:
            if not mode.startswith("r") or "+" in mode:
                fs.step("create", path)
            super().__init__(path, mode)
        else:
            super().__init__(fd, mode)
        if fd is None and ("w" in mode or "x" in mode or "a" in mode):
            fs._on_create(path, truncate="w" in mode)
        self._writing = mode != "r"
        fs.fds[self.fileno()] = (path, fs.inode_of(path))

    def write(self, b):
        if self._epoch != self._fs.epoch:
            raise SimCrash()
        b = bytes(b)
        n = self._fs.step("write", self._path, b)
        part = b if n is None else b[:n]
        r = super().write(part)
        self._fs._on_write(self.fileno(), part, self.tell() - len(part))
        if n is not None:
            self._fs.after_partial()
        return r

    def truncate(self, size=None):
        if self._epoch != self._fs.epoch:
            raise SimCrash()
        r = super().truncate(size)
        ino = self._fs.fds.get(self.fileno(), (None, None))[1]
        if ino is not None:
            ino.data = ino.data[: r]
        return r

    def close(self):
        if not self.closed:
            try:
                fd = self.fileno()
            except Exception:
                fd = None
            self._fs.fds.pop(fd, None)
            super().close()
            if self._writing and self._epoch == self._fs.epoch and not self._fs.dead:
                self._fs.step("close", self._path)


class SimFS(object):
    def __init__(self, buffer_size=8192):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="simsot_", dir=scratch_base()))
        self.buffer_size = buffer_size
        self.epoch = 0
        self.dead = False
        self.ops = 0  # steps in this incarnation
        self.plan = {}  # step index -> (kind, arg)
        self.fired = {}  # fault kind -> count
        self.log = []  # (step, op, name)
        self.names = {}
        self.fds = {}
        self.journal = []  # metadata operations since the last fsync: snapshots of names
        self.unmodelled = False
        self._pending_partial = None

    # -- fault points ----------------------------------------------------------
    def step(self, op, path, data=None):
        """One fault point.  Returns a number of bytes for a partial write, else None."""
        if self.dead:
            raise SimCrash()
        k = self.ops
        self.ops += 1
        name = os.path.basename(path)
        self.log.append((k, op, len(data) if data is not None else 0))
        fault = self.plan.get(k)
        if fault is None:
            return None
        kind, arg = fault
        if kind == "short":
            if op != "write" or len(data) < 2:
                return None
            self._count("short_write")
            self._pending_partial = None
            return max(1, (arg % 97) * len(data) // 97)
        if kind in ("enospc", "eio"):
            self._count(kind + "_" + op)
            err = InjectedOSError(getattr(errno, kind.upper()), "injected %s in %s" % (kind, op), name)
            if op == "write" and arg % 3:
                self._pending_partial = err
                return (arg % 97) * len(data) // 97
            raise err
        if kind == "crash":
            self._count("crash_in_" + op)
            if op == "write" and arg % 3:
                self._pending_partial = SimCrash()
                return (arg % 97) * len(data) // 97
            self.die()
            raise SimCrash()
        return None

    def after_partial(self):
        err, self._pending_partial = self._pending_partial, None
        if isinstance(err, SimCrash):
            self.die()
        if err is not None:
            raise err

    def _count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def die(self):
        self.dead = True

    def alive(self):
        if self.dead:
            raise SimCrash()

    # -- model of durable state ------------------------------------------------
    def inode_of(self, path):
        return self.names.get(os.path.realpath(path))

    def _meta(self):
        self.journal.append(dict(self.names))

    def _on_create(self, path, truncate):
        path = os.path.realpath(path)
        if path not in self.names:
            self._meta()
            self.names[path] = _Inode()
        elif truncate:
            self.names[path].data = bytearray()

    def _on_write(self, fd, data, pos):
        ino = self.fds.get(fd, (None, None))[1]
        if ino is None:
            self.unmodelled = True
            return
        if len(ino.data) < pos:
            ino.data.extend(b"\0" * (pos - len(ino.data)))
        ino.data[pos:pos + len(data)] = data

    def _on_fsync(self, fd):
        ino = self.fds.get(fd, (None, None))[1]
        if ino is not None:
            ino.synced = bytes(ino.data)
        self.journal = []  # an fsync commits the metadata journal

    # -- reboot ------------------------------------------------------------------
    def reboot(self, power_loss=False, pick=None):
        """Forget the dead process; with power_loss also forget what was not durable."""
        self.epoch += 1
        self.dead = False
        self.ops = 0
        self.plan = {}
        self.fds = {}
        self._pending_partial = None
        if power_loss and not self.unmodelled:
            on_disk = {os.path.join(self.root, f) for f in self.listing()}
            if on_disk != set(self.names) or any(self.read(p) != bytes(i.data) for p, i in self.names.items()):
                self.unmodelled = True
                self._count("power_loss_downgraded")
        if power_loss and not self.unmodelled:
            self._count("power_loss")
            if self.journal:
                j = pick(len(self.journal) + 1)  # 0: everything reached the disk
                if j:
                    self.names = dict(self.journal[-j])
                    self._count("lost_metadata")
            for f in self.listing():
                _real["remove"](os.path.join(self.root, f))
            for path, ino in self.names.items():
                data = bytes(ino.data)
                if data != ino.synced:
                    how = pick(4)  # 0: written back, 1: nothing new, 2: a part, 3: zeroes
                    if how:
                        self._count("lost_unsynced_data")
                    if how == 1:
                        data = ino.synced
                    elif how == 2:
                        data = data[: (1 + pick(96)) * len(data) // 97]
                    elif how == 3:
                        data = bytes(len(data))
                ino.data = bytearray(data)
                ino.synced = data
                with _real["open"](path, "wb") as f:
                    f.write(data)
        self.journal = []

    # -- helpers for the oracle ----------------------------------------------------
    def read(self, name):
        try:
            with _real["open"](os.path.join(self.root, name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def listing(self):
        return sorted(os.path.relpath(os.path.join(d, f), self.root)
                      for d, _, fs in os.walk(self.root) for f in fs)

    def mine(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p.startswith(self.root + os.sep)

    def destroy(self):
        shutil.rmtree(self.root, ignore_errors=True)

    # -- installation -------------------------------------------------------------
    def __enter__(self):
        fs = self

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if isinstance(file, int):
                if file in fs.fds and any(c in mode for c in "wax+"):
                    raw = _RawFile(fs, fs.fds[file][0], mode.replace("t", "").replace("b", ""), fd=file)
                    return fs._wrap(raw, mode, encoding, errors, newline)
                return _real["io_open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            writing = any(c in mode for c in "wax+")
            if opener is not None and writing:  # tempfile opens the directory with an opener
                flags = (os.O_RDWR if "+" in mode else os.O_WRONLY) | os.O_CREAT
                fd = opener(file, flags | (os.O_TRUNC if "w" in mode else 0))
                return sim_open(fd, mode, buffering, encoding, errors, newline, closefd)
            if not fs.mine(file):
                return _real["io_open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            fs.alive()
            if not writing:
                return _real["io_open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            raw = _RawFile(fs, os.fspath(file), mode.replace("t", "").replace("b", ""))
            return fs._wrap(raw, mode, encoding, errors, newline, buffering)

        def sim_os_open(path, flags, *a, **k):
            if not fs.mine(path):
                return _real["os_open"](path, flags, *a, **k)
            fs.alive()
            wr = flags & (os.O_WRONLY | os.O_RDWR)
            if wr:
                fs.step("create", path)
            fd = _real["os_open"](path, flags, *a, **k)
            if wr:
                if flags & os.O_CREAT or flags & os.O_TRUNC:
                    fs._on_create(path, bool(flags & os.O_TRUNC))
                fs.fds[fd] = (path, fs.inode_of(path))
            return fd

        def sim_os_write(fd, data):
            if fd not in fs.fds:
                return _real["os_write"](fd, data)
            n = fs.step("write", fs.fds[fd][0], bytes(data))
            part = bytes(data) if n is None else bytes(data)[:n]
            pos = os.lseek(fd, 0, os.SEEK_CUR)
            r = _real["os_write"](fd, part)
            fs._on_write(fd, part, pos)
            if n is not None:
                fs.after_partial()
            return r

        def sim_os_close(fd):
            if fd in fs.fds:
                path = fs.fds.pop(fd)[0]
                _real["os_close"](fd)
                if not fs.dead:
                    fs.step("close", path)
                return
            return _real["os_close"](fd)

        def sim_fsync(real):
            def f(fd):
                n = fd if isinstance(fd, int) else fd.fileno()
                if n in fs.fds:
                    fs.step("fsync", fs.fds[n][0])
                    fs._on_fsync(n)
                    return None
                return real(fd)
            return f

        def sim_rename(real, op):
            def f(src, dst, **k):
                if not (fs.mine(src) or fs.mine(dst)):
                    return real(src, dst, **k)
                fs.step(op, dst)
                real(src, dst, **k)
                s, d = os.path.realpath(os.fspath(src)), os.path.realpath(os.fspath(dst))
                if s in fs.names and fs.mine(d):
                    fs._meta()
                    fs.names[d] = fs.names[s]
                    if op != "link":
                        del fs.names[s]
                else:
                    fs.unmodelled = True
                return None
            return f

        def sim_remove(real):
            def f(path, **k):
                if "dir_fd" in k or not fs.mine(path):
                    return real(path, **k)
                fs.step("unlink", path)
                real(path, **k)
                p = os.path.realpath(os.fspath(path))
                if p in fs.names:
                    fs._meta()
                    del fs.names[p]
                return None
            return f

        builtins.open = sim_open
        io.open = sim_open
        os.open = sim_os_open
        os.write = sim_os_write
        os.close = sim_os_close
        os.fsync = sim_fsync(_real["fsync"])
        os.fdatasync = sim_fsync(_real["fdatasync"])
        os.rename = sim_rename(_real["rename"], "rename")
        os.replace = sim_rename(_real["replace"], "rename")
        os.link = sim_rename(_real["link"], "link")
        os.remove = sim_remove(_real["remove"])
        os.unlink = sim_remove(_real["unlink"])
        return self

    def _wrap(self, raw, mode, encoding=None, errors=None, newline=None, buffering=-1):
        if buffering == 0:
            return raw
        size = self.buffer_size if buffering in (-1, 1) else min(buffering, self.buffer_size)
        buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline)

    def __exit__(self, *exc):
        builtins.open = _real["open"]
        io.open = _real["io_open"]
        for k in ("fsync", "fdatasync", "rename", "replace", "link", "remove", "unlink"):
            setattr(os, k, _real[k])
        os.open, os.write, os.close = _real["os_open"], _real["os_write"], _real["os_close"]
        return False


def scratch_base():
    base = os.environ.get("SIMSOT_SCRATCH")
    if base:
        return base
    return "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
