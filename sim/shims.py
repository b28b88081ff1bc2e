"""Replacements for the standard library's sources of nondeterminism. Must be installed before litdata, torch and
friends are imported. Outside a simulated task every shim behaves like the original."""
from __future__ import annotations

import _thread
import collections.abc
import os
import random
import sys
import threading
import time

from . import core
from .core import SimKilled, SimAbort

_real = {}
_installed = False
_alloc = _thread.allocate_lock
_get_ident = _thread.get_ident


def sim_task():
    s = core.SIM
    if s is None:
        return None
    return s.current()


# ------------------------------------------------------------------------------------------------ locks
class SimLock:
    __slots__ = ("_real", "_waiters", "__weakref__")

    def __init__(self):
        self._real = _alloc()
        self._waiters = None

    def acquire(self, blocking=True, timeout=-1):
        s = core.SIM
        t = s.current() if s is not None else None
        if t is None:
            return self._real.acquire(blocking, timeout)
        if blocking and not t.killed and timeout != 0:
            s.yield_point("lock")
        if self._real.acquire(False):
            return True
        if not blocking:
            return False
        if t.killed:
            raise SimKilled
        if s.ending is not None:
            raise SimAbort
        deadline = None if timeout is None or timeout < 0 else s.now + timeout
        if self._waiters is None:
            self._waiters = []
        while True:
            self._waiters.append(t)
            try:
                left = None if deadline is None else max(0.0, deadline - s.now)
                woken = s.block(("lock",), left)
            finally:
                if t in self._waiters:
                    self._waiters.remove(t)
            if self._real.acquire(False):
                return True
            if not woken or (deadline is not None and s.now >= deadline):
                return False

    def release(self):
        self._real.release()
        w = self._waiters
        if w:
            s = core.SIM
            for t in list(w):
                s.wake(t)
            w.clear()

    def locked(self):
        return self._real.locked()

    def _at_fork_reinit(self):
        self._real = _alloc()
        self._waiters = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __repr__(self):
        return f"<SimLock {'locked' if self._real.locked() else 'unlocked'}>"


# ------------------------------------------------------------------------------------------------ threads
def _sim_start_new_thread(fn, args, kwargs=None):
    s = core.SIM
    t = s.current() if s is not None else None
    if t is None:
        return _real["start_new_thread"](fn, args, kwargs or {})
    owner = getattr(fn, "__self__", None)
    name = getattr(owner, "name", None) or "thread"
    task, ident = s.spawn_thread(fn, args, kwargs, name=type(owner).__name__ if owner is not None else name)
    task.daemon = bool(getattr(owner, "daemon", True))
    if owner is not None:
        owner._sim_task = task
        task.thread = owner
    return ident


def _patch_thread():
    orig_wait = threading.Thread._wait_for_tstate_lock
    orig_bootstrap = threading.Thread._bootstrap

    def _wait_for_tstate_lock(self, block=True, timeout=-1):
        task = getattr(self, "_sim_task", None)
        s = core.SIM
        cur = s.current() if s is not None else None
        if task is None or cur is None:
            return orig_wait(self, block, timeout)
        if task.state != "done":
            if not block:
                return
            s.yield_point("join")
            if task.state != "done":
                task.done_waiters.append(cur)
                s.block(("tjoin", task.id), None if timeout is None or timeout < 0 else timeout)
                if cur in task.done_waiters:
                    task.done_waiters.remove(cur)
            if task.state != "done":
                return
        # the task is over in simulated terms
        self._is_stopped = True

    threading.Thread._wait_for_tstate_lock = _wait_for_tstate_lock

    orig_start = threading.Thread.start

    def start(self):
        t = sim_task()
        if t is not None:
            core.SIM.yield_point("thread.start")
        return orig_start(self)

    threading.Thread.start = start


# ------------------------------------------------------------------------------------------------ time
def _t_time():
    s = core.SIM
    if s is not None and s.current() is not None:
        return s.now
    return _real["time"]()


def _t_monotonic():
    s = core.SIM
    if s is not None and s.current() is not None:
        return s.now - core.START_TIME + 1000.0
    return _real["monotonic"]()


def _t_perf():
    s = core.SIM
    if s is not None and s.current() is not None:
        return s.now - core.START_TIME + 500.0
    return _real["perf_counter"]()


def _t_ns(f):
    return lambda: int(f() * 1e9)


def _t_sleep(d):
    s = core.SIM
    if s is not None and s.current() is not None:
        return s.sleep(d)
    if s is not None and s.in_event:
        return None
    return _real["sleep"](d)


# ------------------------------------------------------------------------------------------------ environ
class SimEnviron(collections.abc.MutableMapping):
    def __init__(self, base):
        self._base = base

    def _map(self):
        s = core.SIM
        if s is not None and s.cur is not None and s.cur.ident == _get_ident() and s.cur.proc is not None:
            return s.cur.proc.env
        return self._base

    def __getitem__(self, k):
        return self._map()[k]

    def __setitem__(self, k, v):
        if not isinstance(v, str):
            raise TypeError("str expected, not %s" % type(v).__name__)
        self._map()[k] = v

    def __delitem__(self, k):
        del self._map()[k]

    def __iter__(self):
        return iter(list(self._map()))

    def __len__(self):
        return len(self._map())

    def copy(self):
        return dict(self._map())

    def setdefault(self, k, v):
        if k not in self:
            self[k] = v
        return self[k]

    def encodekey(self, k):
        return k

    def __repr__(self):
        return repr(dict(self._map()))

    def __or__(self, o):
        d = dict(self)
        d.update(o)
        return d


def _putenv_noop(*a):
    return None


# ------------------------------------------------------------------------------------------------ install
def install():
    global _installed
    if _installed:
        return
    _installed = True
    import queue
    import uuid
    import tempfile
    import signal

    _real.update(time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter, sleep=time.sleep,
                 start_new_thread=_thread.start_new_thread, environ=os.environ, getpid=os.getpid,
                 urandom=os.urandom, system=os.system, signal=signal.signal, disk_usage=None,
                 Lock=threading.Lock, uuid4=uuid.uuid4)

    # locks and threads
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading._CRLock = None
    threading._start_new_thread = _sim_start_new_thread
    threading._time = _t_monotonic
    _patch_thread()
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = _t_monotonic
    queue_get = queue.Queue.get

    def get(self, block=True, timeout=None):
        s = core.SIM
        limit = getattr(s, "poll_stretch", 0) if s is not None else 0
        t = s.current() if limit and timeout is not None and timeout < limit else None
        if t is None:
            return queue_get(self, block, timeout)
        t.polls = t.polls + 1
        item = queue_get(self, block, timeout * 2 ** min(t.polls // 8, 6))
        t.polls = 0
        return item
    queue.Queue.get = get

    # the threads of a pool are joined in the order in which they were started (a set has the order of their addresses)
    from concurrent.futures import ThreadPoolExecutor
    pool_init = ThreadPoolExecutor.__init__

    class InOrder(list):
        add = list.append

    def init(self, *a, **kw):
        pool_init(self, *a, **kw)
        self._threads = InOrder()
    ThreadPoolExecutor.__init__ = init
    from concurrent.futures import _base
    future_init = _base.Future.__init__

    def finit(self):
        future_init(self)
        s = core.SIM
        n = getattr(s, "futures", 0) + 1 if s is not None else 0
        if s is not None:
            s.futures = n
        self._nr = n
    _base.Future.__init__ = finit
    _base.Future.__hash__ = lambda self: getattr(self, "_nr", 0)
    _base.id = lambda f: getattr(f, "_nr", 0)

    # time
    time.time = _t_time
    time.monotonic = _t_monotonic
    time.perf_counter = _t_perf
    time.time_ns = _t_ns(_t_time)
    time.monotonic_ns = _t_ns(_t_monotonic)
    time.perf_counter_ns = _t_ns(_t_perf)
    time.sleep = _t_sleep

    # environment: real environment outside of simulated tasks, the simulated process's own inside
    base = dict(os.environ)
    os.environ = SimEnviron(os.environ)

    # randomness
    def urandom(n):
        s = core.SIM
        t = s.current() if s is not None else None
        if t is None:
            return _real["urandom"](n)
        return s.rnd_bytes(n)

    os.urandom = urandom

    def uuid4():
        s = core.SIM
        t = s.current() if s is not None else None
        if t is None:
            return _real["uuid4"]()
        return uuid.UUID(bytes=s.rnd_bytes(16), version=4)

    uuid.uuid4 = uuid4

    class _Names:
        def __iter__(self):
            return self

        def __next__(self):
            s = core.SIM
            if s is not None and s.current() is not None:
                return s.rnd_bytes(5).hex()
            return _real["urandom"](6).hex()

    names = _Names()
    tempfile._get_candidate_names = lambda: names

    # processes and signals
    def getpid():
        s = core.SIM
        t = s.current() if s is not None else None
        return _real["getpid"]() if t is None else t.proc.pid

    # filelock compares its creator's pid with os.getpid(): simulated pids are consistent per simulated process
    os.getpid = getpid

    _real_getppid = os.getppid

    def getppid():
        t = sim_task()
        if t is None:
            return _real_getppid()
        p = t.proc.parent
        return 1 if p is None or not p.alive else p.pid

    os.getppid = getppid

    def sig(signum, handler):
        if sim_task() is not None:
            return None
        return _real["signal"](signum, handler)

    signal.signal = sig

    def _exit(code):
        s = core.SIM
        t = s.current() if s is not None else None
        if t is None:
            return _real_exit(code)
        s.kill_proc(t.proc, code)

    _real_exit = os._exit
    _real["_exit"] = _real_exit
    os._exit = _exit

    def kill(pid, signum):
        s = core.SIM
        t = s.current() if s is not None else None
        if t is None:
            return _real_kill(pid, signum)
        for p in s.procs:
            if p.pid == pid and p.alive:
                if signum == 0:
                    return None
                s.kill_proc(p, -int(signum))
                return None
        raise ProcessLookupError(3, "No such process")

    _real_kill = os.kill
    os.kill = kill

    def system(cmd):
        s = core.SIM
        t = s.current() if s is not None else None
        if t is None:
            return _real["system"](cmd)
        s.probe("os.system")
        return 1

    os.system = system

    core.Sim.rnd_bytes = _rnd_bytes
    sys.unraisablehook = _unraisable
    threading.excepthook = _thread_excepthook


def _rnd_bytes(self, n):
    r = getattr(self, "_idrng", None)
    if r is None:
        r = self._idrng = random.Random("ids-%s" % (self.sched.get("idseed", 0),))
    return r.randbytes(n)


def _unraisable(u):
    if u.exc_type in (SimKilled, SimAbort):
        return
    if core.SIM is not None and core.SIM.ending is not None:
        return
    sys.__unraisablehook__(u)


def _thread_excepthook(args):
    s = core.SIM
    if args.exc_type in (SimKilled, SimAbort, SystemExit):
        return
    t = s.current() if s is not None else None
    if t is not None:
        import traceback
        s.task_excs.append((t.name, t.proc.name, repr(args.exc_value),
                            "".join(traceback.format_exception(args.exc_type, args.exc_value, args.exc_traceback))))
        return
    sys.__excepthook__(args.exc_type, args.exc_value, args.exc_traceback)
