"""Simulated filesystem layer: every operation of a simulated task on the run's scratch directory is a scheduling
point, a fault point and a kill point. Files are real files in the scratch directory, so what a killed process had
handed to the OS survives and what sat in its buffers does not. Mutations outside the scratch directory are refused."""
from __future__ import annotations

import builtins
import errno
import io
import mmap
import os
import shutil
import _thread

from . import core
from .core import SimKilled, HarnessError

R = {}  # originals
_installed = False


class Escape(OSError):
    pass


class FS:
    """Per simulation state: scratch root, path classes, fault plan."""

    def __init__(self, sim, root):
        self.sim = sim
        self.root = root.rstrip("/")
        self.prefix = self.root + "/"
        self.classes = []          # [(prefix, name)]
        self.faults = []           # fault dicts
        self.counters = {}
        self.latency = {}          # class -> callable() -> seconds per open/read
        self.list_rng = None
        self.observers = []        # f(kind, path)
        self.escapes = []
        self.chunk = 0             # split writes larger than this
        self.trace = None

    def classify(self, p):
        for pre, name in self.classes:
            if p.startswith(pre):
                return name
        return "other"

    def notify(self, kind, path):
        for f in self.observers:
            f(kind, path)


def _task():
    s = core.SIM
    return s.current() if s is not None else None


def _norm(p):
    if isinstance(p, int):
        return None
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = p.decode("utf8", "surrogateescape")
    if not p.startswith("/"):
        p = os.path.join(R["getcwd"](), p)
    if "/../" in p or "/./" in p or "//" in p:
        p = os.path.normpath(p)
    return p


def _in(fs, p):
    return p is not None and (p.startswith(fs.prefix) or p == fs.root)


MUT = {"write", "create", "remove", "rename", "mkdir", "rmdir", "truncate", "link", "copy"}


def point(kind, path, mut=False, extra=None):
    """Scheduling/fault/kill point before an operation. Returns a fault effect the caller must apply, or None."""
    s = core.SIM
    t = s.current()
    fs = s.fs
    if t.killed:
        raise SimKilled
    proc = t.proc
    s.yield_point(kind)
    if t.killed:
        raise SimKilled
    proc.ops += 1
    if mut:
        proc.mut_ops += 1
        ka = proc.kill_at
        if ka is not None and proc.mut_ops >= ka and kind != "write":
            s.fired("kill")
            proc.kill_at = None
            s.kill_proc(proc)
    eff = None
    if fs.faults:
        cls = fs.classify(path)
        for f in fs.faults:
            if f.get("done") and not f.get("repeat"):
                continue
            if f["op"] != kind and f["op"] != "any":
                continue
            if "cls" in f and f["cls"] != cls:
                continue
            if "match" in f and f["match"] not in path:
                continue
            if "proc" in f and f["proc"] not in proc.name:
                continue
            f["_n"] = f.get("_n", 0) + 1
            n = f.get("nth", 1)
            if f["_n"] < n or f["_n"] >= n + f.get("count", 1):
                continue
            s.fired("%s:%s" % (kind, f["effect"]))
            if f["effect"] == "kill":
                s.kill_proc(proc)
            elif f["effect"] == "delay":
                s.sleep(f.get("delay", 1.0))
            elif f["effect"] in ERR:
                raise OSError(ERR[f["effect"]], os.strerror(ERR[f["effect"]]), path)
            else:
                eff = f
    lat = fs.latency.get((kind, fs.classify(path))) if fs.latency else None
    if lat is not None:
        d = lat()
        if d > 0:
            s.sleep(d)
    if fs.trace is not None:
        fs.trace.append((s.now, proc.name, t.id, kind, path))
    return eff


ERR = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "ENOENT": errno.ENOENT,
       "ETIMEDOUT": errno.ETIMEDOUT, "ECONNRESET": errno.ECONNRESET}


def _guard(fs, p, what):
    """Refuse mutations outside the scratch directory."""
    if p is None or _in(fs, p) or p.startswith("/dev/"):
        return
    fs.escapes.append((what, p))
    raise Escape(errno.EPERM, f"simulated task tried to {what} outside its scratch directory", p)


# ------------------------------------------------------------------------------------------------ files
class SimRaw(io.FileIO):
    def __init__(self, path, mode):
        s = core.SIM
        self._sim_ok = False
        self._sim_path = path
        t = s.current()
        self._sim_proc = t.proc
        self._sim_w = any(c in mode for c in "wax+")
        super().__init__(path, mode)
        self._sim_ok = True

    def write(self, b):
        s = core.SIM
        proc = self._sim_proc
        if not proc.alive or s.ending is not None:
            return len(b)
        t = s.current()
        if t is None:
            return super().write(b)
        if t.killed:
            return len(b)
        mv = memoryview(b).cast("B")
        n = len(mv)
        eff = point("write", self._sim_path, mut=True)
        if not proc.alive:
            return n
        fs = s.fs
        ka = proc.kill_at
        if ka is not None and proc.mut_ops >= ka:
            # torn write: a prefix reaches the file, then the process dies
            k = (proc.mut_ops * 7919 + n * 31) % (n + 1)
            if k:
                super().write(mv[:k])
                fs.notify("write", self._sim_path)
            s.fired("kill")
            s.fired("torn_write")
            proc.kill_at = None
            s.kill_proc(proc)
        if eff is not None and eff["effect"] == "torn_kill":
            k = int(n * eff.get("frac", 0.5))
            if k:
                super().write(mv[:k])
                fs.notify("write", self._sim_path)
            s.kill_proc(proc)
        if eff is not None and eff["effect"] == "short_ENOSPC":
            k = n // 2
            if k:
                super().write(mv[:k])
                fs.notify("write", self._sim_path)
            raise OSError(errno.ENOSPC, "No space left on device", self._sim_path)
        if n > 1 and fs.chunk and n > fs.chunk:
            k = max(1, n // 2)
            r = super().write(mv[:k])
            fs.notify("write", self._sim_path)
            return r  # BufferedWriter comes back for the rest: another scheduling point in between
        r = super().write(mv)
        fs.notify("write", self._sim_path)
        return r

    def _rp(self):
        s = core.SIM
        t = s.current() if s is not None else None
        if t is not None and not t.killed and s.ending is None:
            eff = point("read", self._sim_path)
            return eff
        if t is not None and t.killed:
            raise SimKilled
        return None

    def readinto(self, b):
        self._rp()
        return super().readinto(b)

    def read(self, n=-1):
        self._rp()
        return super().read(n)

    def readall(self):
        self._rp()
        return super().readall()

    def truncate(self, size=None):
        s = core.SIM
        t = s.current() if s is not None else None
        if t is not None:
            if t.killed or not self._sim_proc.alive:
                raise SimKilled
            point("truncate", self._sim_path, mut=True)
        return super().truncate(size)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    t = _task()
    if t is None or isinstance(file, int) or opener is not None:
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    s = core.SIM
    fs = s.fs
    p = _norm(file)
    w = any(c in mode for c in "wax+")
    if not _in(fs, p):
        if w:
            _guard(fs, p, "open for writing")
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    creating = w and ("w" in mode or "x" in mode or ("a" in mode and not R["path_exists"](p)))
    point("create" if creating else "open", p, mut=creating)
    rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
    existed = creating and R["path_exists"](p)
    raw = SimRaw(p, rawmode)
    raw.name_ = p
    if creating:
        fs.notify("truncate" if existed else "create", p)
    if buffering == 0:
        if "b" not in mode:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line_buffering = buffering == 1
    if buffering < 0 or buffering == 1:
        buffering = 8192
    if "+" in mode:
        buf = io.BufferedRandom(raw, buffering)
    elif w:
        buf = io.BufferedWriter(raw, buffering)
    else:
        buf = io.BufferedReader(raw, buffering)
    if "b" in mode:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering)
    text.mode = mode
    return text


# ------------------------------------------------------------------------------------------------ os functions
def _wrap1(name, kind, mut):
    orig = getattr(os, name)
    R[name] = orig

    def f(path, *a, **k):
        t = _task()
        if t is None:
            return orig(path, *a, **k)
        fs = core.SIM.fs
        p = _norm(path)
        if k.get("dir_fd") is not None:
            raise HarnessError("dir_fd not simulated")
        if not _in(fs, p):
            if mut:
                if name == "mkdir" and R["path_isdir"](p):
                    raise FileExistsError(errno.EEXIST, "File exists", p)
                _guard(fs, p, name)
            return orig(path, *a, **k)
        point(kind, p, mut=mut)
        r = orig(path, *a, **k)
        if mut:
            fs.notify(kind, p)
        return r

    f.__name__ = name
    setattr(os, name, f)
    return f


def _wrap2(name, kind):
    orig = getattr(os, name)
    R[name] = orig

    def f(src, dst, *a, **k):
        t = _task()
        if t is None:
            return orig(src, dst, *a, **k)
        fs = core.SIM.fs
        ps, pd = _norm(src), _norm(dst)
        if name in ("rename", "replace"):
            _guard(fs, ps, name)
        _guard(fs, pd, name)
        point(kind, pd, mut=True)
        r = orig(src, dst, *a, **k)
        fs.notify(kind, pd)
        return r

    f.__name__ = name
    setattr(os, name, f)


def _order(fs, names):
    names = sorted(names)
    if fs.list_rng is not None:
        fs.list_rng.shuffle(names)
    return names


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        return None


def install():
    global _installed
    if _installed:
        return
    _installed = True
    R["open"] = builtins.open
    R["getcwd"] = os.getcwd
    R["stat"] = os.stat
    R["listdir"] = os.listdir
    R["scandir"] = os.scandir
    R["os_open"] = os.open
    R["os_close"] = os.close
    R["disk_usage"] = shutil.disk_usage
    R["mmap"] = mmap.mmap

    _stat = os.stat

    def exists(p):
        try:
            _stat(p)
            return True
        except OSError:
            return False

    def isdir(p):
        import stat as st
        try:
            return st.S_ISDIR(_stat(p).st_mode)
        except OSError:
            return False

    R["path_exists"] = exists
    R["path_isdir"] = isdir

    builtins.open = sim_open
    io.open = sim_open

    for name in ("remove", "unlink"):
        _wrap1(name, "remove", True)
    _wrap1("rmdir", "rmdir", True)
    _wrap1("mkdir", "mkdir", True)
    _wrap1("truncate", "truncate", True)
    _wrap1("utime", "utime", False)
    _wrap1("chmod", "chmod", False)
    _wrap1("access", "stat", False)
    for name in ("rename", "replace"):
        _wrap2(name, "rename")
    for name in ("link", "symlink"):
        _wrap2(name, "link")

    def stat_(path, *a, **k):
        t = _task()
        if t is None or isinstance(path, int):
            return _stat(path, *a, **k)
        p = _norm(path)
        if _in(core.SIM.fs, p):
            point("stat", p)
        return _stat(path, *a, **k)

    os.stat = stat_
    _lstat = os.lstat
    R["lstat"] = _lstat

    def listdir(path="."):
        t = _task()
        if t is None or isinstance(path, int):
            return R["listdir"](path)
        p = _norm(path)
        fs = core.SIM.fs
        if _in(fs, p):
            point("list", p)
            return _order(fs, R["listdir"](path))
        return R["listdir"](path)

    os.listdir = listdir

    def scandir(path="."):
        t = _task()
        if t is None or isinstance(path, int):
            return R["scandir"](path)
        p = _norm(path)
        fs = core.SIM.fs
        if _in(fs, p):
            point("list", p)
            with R["scandir"](path) as it:
                d = {e.name: e for e in it}
            return _Scan([d[n] for n in _order(fs, list(d))])
        return R["scandir"](path)

    os.scandir = scandir

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        t = _task()
        if t is None or dir_fd is not None:
            return R["os_open"](path, flags, mode, dir_fd=dir_fd)
        p = _norm(path)
        s = core.SIM
        w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        if not _in(s.fs, p):
            if w:
                _guard(s.fs, p, "os.open")
            return R["os_open"](path, flags, mode)
        point("create" if flags & os.O_CREAT else "open", p, mut=bool(flags & os.O_CREAT))
        fd = R["os_open"](path, flags, mode)
        t.proc.fds.add(fd)
        if flags & os.O_CREAT:
            s.fs.notify("create", p)
        return fd

    os.open = os_open

    def os_close(fd):
        t = _task()
        if t is not None:
            t.proc.fds.discard(fd)
        return R["os_close"](fd)

    os.close = os_close

    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    if hasattr(shutil, "_USE_CP_COPY_FILE_RANGE"):
        shutil._USE_CP_COPY_FILE_RANGE = False
    shutil.COPY_BUFSIZE = 64 * 1024

    def disk_usage(path):
        s = core.SIM
        if _task() is None:
            return R["disk_usage"](path)
        du = getattr(s, "disk_usage", None)
        if du is not None:
            return du(path)
        return shutil._ntuple_diskusage(10**13, 10**12, 9 * 10**12)

    shutil.disk_usage = disk_usage
    os.cpu_count_real = os.cpu_count

    def cpu_count():
        return 4 if _task() is not None else os.cpu_count_real()

    os.cpu_count = cpu_count

    class SimMmap(mmap.mmap):
        """Private mapping whose close() overwrites the memory, so that a use after unmapping shows as garbage
        instead of crashing the simulator."""

        def __new__(cls, fileno, length, *a, **k):
            if _task() is None:
                return R["mmap"](fileno, length, *a, **k)
            off = k.get("offset", 0)
            point("mmap", core.SIM.fs.root + "/mmap")
            obj = super().__new__(cls, fileno, length, access=mmap.ACCESS_COPY, offset=off)
            obj._sim_closed = False
            return obj

        def close(self):
            if not self._sim_closed:
                self._sim_closed = True
                try:
                    n = len(self)
                    self[0:n] = b"\xdb" * n
                except (ValueError, TypeError):
                    pass
                s = core.SIM
                if s is not None:
                    s.probe("munmap")

        def __del__(self):
            pass

        @property
        def closed(self):
            return self._sim_closed

    R["SimMmap"] = SimMmap
    mmap.mmap = SimMmap
