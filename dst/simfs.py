"""File seam: files under the run's scratch directory, opened by simulated
processes, go through here.  The data is on the real (scratch) file system; what
is simulated is when a process dies between two file operations, short and torn
writes, full disks and other I/O errors."""

import builtins
import errno
import io
import os

from . import core

real_open = builtins.open
_real = {}
_prefix = None


def setup(prefix):
    global _prefix
    _prefix = prefix.rstrip("/") + "/"
    if _real:
        return
    builtins.open = sim_open
    io.open = sim_open
    for name in ("replace", "rename", "remove", "unlink", "fsync", "mkdir", "truncate", "rmdir", "chmod"):
        _real[name] = getattr(os, name)
    for name in ("replace", "rename"):
        setattr(os, name, _two(name))
    for name in ("remove", "unlink", "mkdir", "truncate", "rmdir", "chmod"):
        setattr(os, name, _one(name))
    os.fsync = _fsync


def _mine(path):
    if _prefix is None:
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if not isinstance(p, str) or not os.path.abspath(p).startswith(_prefix):
        return None
    s = core._in_sim()
    if s is None:
        return None
    if getattr(s.current.proc, "fs_on", False):
        return s
    return None


class Faults:
    """Per-run file faults: s.ctx["fs"]."""

    def __init__(self, sim):
        self.sim = sim
        self.crash_after = {}  # proc name -> number of further file operations
        self.on_crash = None
        self.error_until = {}  # proc name -> (time, errno)
        self.ops = []
        self.watch = None  # only paths containing this text count

    def point(self, kind, path):
        """called before every file operation; may not return"""
        s = self.sim
        proc = s.current.proc
        if not proc.alive:
            raise core.SimKilled()
        if self.watch is not None and self.watch not in str(path):
            return
        self.ops.append((s.now, proc.name, kind, os.path.basename(str(path))))
        e = self.error_until.get(proc.name)
        if e is not None and s.now < e[0] and kind in ("open", "write", "replace", "rename", "mkdir"):
            s.count("fault:fs_error")
            raise OSError(e[1], os.strerror(e[1]), str(path))
        n = self.crash_after.get(proc.name)
        if n is not None:
            if n <= 0:
                self.die(proc)
            self.crash_after[proc.name] = n - 1

    def die(self, proc):
        s = self.sim
        self.crash_after.pop(proc.name, None)
        s.count("fault:fs_crash")
        if self.on_crash is not None:
            self.on_crash(proc)
        if proc.alive:
            proc.kill(-9)
        s.sleep(0)  # unwinds this thread
        raise core.SimKilled()


def faults(s):
    f = s.ctx.get("fs")
    if f is None:
        f = s.ctx["fs"] = Faults(s)
    return f


class SimRaw(io.RawIOBase):
    """raw file of a simulated process"""

    def __init__(self, s, path, mode):
        self._f = real_open(path, mode.replace("t", "").replace("b", "") + "b", buffering=0)
        self._s = s
        self._proc = s.current.proc
        self._path = path
        self.name = path
        self.mode = mode

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return True

    def readinto(self, b):
        return self._f.readinto(b)

    def write(self, b):
        if not self._proc.alive:
            return len(b)  # a dead process' buffers are lost
        n = len(b)
        fl = faults(self._s)
        if self._s.current is not None and self._s.current.proc is self._proc:
            if n > 1 and fl.crash_after.get(self._proc.name) == 0 and (
                    fl.watch is None or fl.watch in str(self._path)):
                # torn: part of the data reaches the file
                k = self._s.choices.draw("fs", lambda r: r.randrange(n + 1))
                self._f.write(bytes(b)[:min(k, n)])
            fl.point("write", self._path)
        return self._f.write(b)

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, *a):
        return self._f.truncate(*a)

    def fileno(self):
        return self._f.fileno()

    def close(self):
        if not self.closed:
            try:
                self._f.close()
            finally:
                super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    s = None
    if opener is None and isinstance(file, (str, os.PathLike)) and any(c in mode for c in "wax+"):
        s = _mine(file)
    if s is None:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = os.fspath(file)
    fl = faults(s)
    fl.point("open", path)
    raw = SimRaw(s, path, mode)
    if "+" in mode:
        buf = io.BufferedRandom(raw)
    else:
        buf = io.BufferedWriter(raw)
    if "w" in mode:
        try:
            fl.point("opened", path)
        except BaseException:
            raise
    if "b" in mode:
        return raw if buffering == 0 else buf
    return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)


def _two(name):
    def fn(a, b, *args, **kw):
        s = _mine(a) or _mine(b)
        if s is not None:
            faults(s).point(name, b)
        r = _real[name](a, b, *args, **kw)
        if s is not None:
            faults(s).point("done", b)
        return r
    return fn


def _one(name):
    def fn(a, *args, **kw):
        s = _mine(a)
        if s is not None:
            faults(s).point(name, a)
        return _real[name](a, *args, **kw)
    return fn


def _fsync(fd):
    s = core._in_sim()
    if s is not None:
        return None
    return _real["fsync"](fd)
