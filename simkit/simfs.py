"""Filesystem seam: a real scratch directory with simulated faults and crashes.

Everything the code writes below the run's root goes through here.  Bytes
handed to write() sit in a user-space buffer until flush/close, as in CPython;
a process crash keeps an arbitrary prefix of that buffer (a torn write), and
every open/write/flush/close/replace/remove/mkdir is a point where the run can
crash or the call can fail with ENOSPC/EIO.
"""
import builtins
import errno
import io
import os
import random
import shutil

from . import kernel

_real_open = builtins.open
_real_io_open = io.open
_real = {n: getattr(os, n) for n in
         ("replace", "rename", "remove", "unlink", "makedirs", "mkdir", "rmdir",
          "listdir", "scandir", "fsync", "open", "link", "truncate")}

FS = None  # active SimFS


class SimFS:

    def __init__(self, sim, root, plan=None):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.op = 0
        self.plan = {int(k): v for k, v in (plan or [])}
        self.dead = False
        self.open_files = []
        self.ops = []
        self.fired = []
        self.listings = 0
        self.hook = None  # called before each op with (kind, path)
        self._clock = None

    def run_clock(self, jumps=True):
        """The wall clock moves with every operation, and sometimes jumps."""
        self._clock = random.Random("clock-%s" % (self.sim.seed,))
        self._jumpy = jumps and self._clock.random() < 0.5
        if self._jumpy:
            self.sim.clock_offset = self._clock.choice([0, -7200, 0, 86400])

    def tick(self):
        rng = self._clock
        if rng is None:
            return
        step = rng.random() * 0.3
        if self._jumpy and rng.random() < 0.02:
            step = rng.choice([-3600, -60, 3600])
            self.sim.count("fault:clock-jump")
        self.sim.clock_offset = getattr(self.sim, "clock_offset", 0.0) + step

    def stamp(self, f):
        """File times come from the simulated clock, in whole seconds."""
        if self._clock is not None:
            t = int(1.5e9 + getattr(self.sim, "clock_offset", 0.0) +
                    self.sim.now)
            os.utime(f.fileno(), (t, t))

    def owns(self, path):
        if self.dead and path is None:
            return True
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            return False
        p = os.path.abspath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def rel(self, path):
        return os.path.relpath(os.path.abspath(os.fspath(path)), self.root)

    def point(self, kind, path):
        """One fault point: may crash the process or raise an OSError."""
        if self.dead:
            raise kernel.SimKilled()
        self.op += 1
        self.tick()
        rel = self.rel(path)
        self.ops.append((self.op, kind, rel))
        self.sim.log("fs", kind, rel)
        if self.hook is not None:
            self.hook(kind, rel)
        if kernel.current_sim() is self.sim and len(self.sim.threads) > 1:
            self.sim.yield_point("fs")
        f = self.plan.get(self.op)
        if f is None:
            return
        fk = f[0]
        if fk == "crash":
            self.fired.append((self.op, "crash", kind, rel))
            self.sim.count("fault:crash@" + kind)
            self.crash(f[1] if len(f) > 1 else 0.0)
        if fk in ("ENOSPC", "EIO") and kind == "listdir":
            # Listing a directory does not fail here: the standard library's
            # glob hides such an error from the code under test.
            self.plan.setdefault(self.op + 1, f)
            return
        if fk in ("ENOSPC", "EIO"):
            self.fired.append((self.op, fk, kind, rel))
            self.sim.count("fault:%s@%s" % (fk, kind))
            raise OSError(getattr(errno, fk), os.strerror(getattr(errno, fk)),
                          str(path))

    def crash(self, keep_fraction):
        for f in self.open_files:
            f._crash(keep_fraction)
        self.open_files = []
        self.dead = True
        if kernel.current_sim() is self.sim:
            self.sim.kill_process()
        raise kernel.SimKilled()


class SimFile(io.RawIOBase):
    """A file opened for writing under the simulated root."""

    def __init__(self, fs, path, mode, fd=None):
        super().__init__()
        self._fs = fs
        self.name = os.fspath(path)
        self.mode = mode
        flags = mode.replace("t", "").replace("b", "") + "b"
        self._readable = "+" in mode or "r" in mode
        self._f = _real_open(fd if fd is not None else path, flags, buffering=0)
        self._buf = bytearray()
        fs.open_files.append(self)

    def readable(self):
        return self._readable

    def writable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        return self._f.fileno()

    def write(self, b):
        b = bytes(memoryview(b).cast("B"))
        if self._fs.dead:
            return len(b)
        try:
            self._fs.point("write", self.name)
        except OSError:
            # A short write reached the disk before the error.
            self._buf += b[:len(b) // 2]
            raise
        self._buf += b
        if len(self._buf) > 8192:
            self._drain()
        return len(b)

    def _drain(self):
        if self._buf:
            self._f.write(bytes(self._buf))
            self._buf = bytearray()

    def flush(self):
        if self.closed or self._fs.dead:
            return
        if self._buf:
            self._fs.point("flush", self.name)
            self._drain()

    def _crash(self, frac):
        n = int(len(self._buf) * frac)
        if n:
            self._f.write(bytes(self._buf[:n]))
        self._buf = bytearray()
        self._fs.stamp(self._f)
        self._f.close()

    def read(self, n=-1):
        self._drain()
        return self._f.read(n)

    def readinto(self, b):
        self._drain()
        return self._f.readinto(b)

    def seek(self, pos, whence=0):
        if self._fs.dead:
            return 0
        self.flush()
        return self._f.seek(pos, whence)

    def tell(self):
        if self._fs.dead:
            return 0
        return self._f.tell() + len(self._buf)

    def truncate(self, size=None):
        self.flush()
        return self._f.truncate(size if size is not None else self._f.tell())

    def close(self):
        if self.closed:
            return
        fs = self._fs
        if fs.dead:
            super().close()
            return
        try:
            if fs.sim.killed:
                # The thread is unwinding (end of run / deadlock).
                self._drain()
                fs.stamp(self._f)
                self._f.close()
            else:
                try:
                    fs.point("close", self.name)
                except OSError:
                    half = bytes(self._buf[:len(self._buf) // 2])
                    self._buf = bytearray()
                    if half:
                        self._f.write(half)
                    fs.stamp(self._f)
                    self._f.close()
                    raise
                if not fs.dead:
                    self._drain()
                    fs.stamp(self._f)
                    self._f.close()
        finally:
            if self in fs.open_files:
                fs.open_files.remove(self)
            # Mark closed without flushing again.
            self._buf = bytearray()
            super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    fs = FS
    if fs is None or kernel.current_sim() is not fs.sim or isinstance(file, int):
        if (fs is not None and fs.dead and isinstance(file, (str, os.PathLike)) and
                fs.owns(file) and any(c in mode for c in "wax+")):
            raise kernel.SimKilled()
        return _real_open(file, mode, buffering, encoding, errors, newline,
                          closefd, opener)
    if not fs.owns(file):
        return _real_open(file, mode, buffering, encoding, errors, newline,
                          closefd, opener)
    writing = any(c in mode for c in "wax+")
    if not writing:
        fs.point("open_r", file)
        return _real_open(file, mode, buffering, encoding, errors, newline,
                          closefd, opener)
    fs.point("open_w", file)
    if opener is not None:
        fd = opener(file, os.O_RDWR)
        raw = SimFile(fs, file, mode, fd)
    else:
        raw = SimFile(fs, file, mode)
    # After truncation/creation: a crash here leaves an empty file.
    fs.point("opened_w", file)
    if "b" in mode:
        return raw
    return io.TextIOWrapper(raw, encoding=encoding or "utf-8", errors=errors,
                            newline=newline, write_through=True)


def _wrap1(name, kind):
    real = _real[name]

    def f(path, *a, **k):
        fs = FS
        if fs is not None and isinstance(path, (str, os.PathLike)) and \
                fs.owns(path):
            if fs.dead:
                raise kernel.SimKilled()
            if kernel.current_sim() is fs.sim:
                fs.point(kind, path)
        return real(path, *a, **k)

    f.__name__ = name
    return f


def _wrap2(name, kind):
    real = _real[name]

    def f(src, dst, *a, **k):
        fs = FS
        if fs is not None and fs.owns(dst):
            if fs.dead:
                raise kernel.SimKilled()
            if kernel.current_sim() is fs.sim:
                fs.point(kind, dst)
                r = real(src, dst, *a, **k)
                fs.point(kind + "d", dst)
                return r
        return real(src, dst, *a, **k)

    f.__name__ = name
    return f


def _fsync(fd):
    return None


def _order(fs, path, names):
    """Directory order is unspecified: a seeded permutation, per call."""
    names = sorted(names)
    fs.listings += 1
    rng = random.Random("dir-%s-%s-%d" % (fs.sim.seed, fs.rel(path),
                                          fs.listings))
    rng.shuffle(names)
    return names


def _listdir(path="."):
    fs = FS
    names = _real["listdir"](path)
    if fs is not None and isinstance(path, (str, os.PathLike)) and \
            fs.owns(path):
        if kernel.current_sim() is fs.sim:
            fs.point("listdir", path)
            names = _real["listdir"](path)
        names = _order(fs, path, names)
    return names


class _Scan:

    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


def _scandir(path="."):
    fs = FS
    if fs is None or not isinstance(path, (str, os.PathLike)) or \
            not fs.owns(path):
        return _real["scandir"](path)
    if kernel.current_sim() is fs.sim:
        fs.point("listdir", path)
    with _real["scandir"](path) as it:
        entries = {e.name: e for e in it}
    return _Scan([entries[n] for n in _order(fs, path, entries)])


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.replace = _wrap2("replace", "replace")
    os.rename = _wrap2("rename", "rename")
    os.remove = _wrap1("remove", "remove")
    os.unlink = _wrap1("unlink", "remove")
    os.mkdir = _wrap1("mkdir", "mkdir")
    os.fsync = _fsync
    os.listdir = _listdir
    os.scandir = _scandir


class active:
    """Context manager: run with a SimFS."""

    def __init__(self, fs):
        self.fs = fs

    def __enter__(self):
        global FS
        FS = self.fs
        return self.fs

    def __exit__(self, *a):
        global FS
        FS = None
