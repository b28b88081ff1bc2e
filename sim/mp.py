"""Simulated multiprocessing: processes are groups of tasks, arguments cross by pickling, queues deliver through a
per-producer feeder whose timing the scheduler decides."""
from __future__ import annotations

import multiprocessing
import pickle
import queue as _queue
from collections import deque

from . import core
from .core import HarnessError, SimKilled, SimAbort

_real = {}


def _lookup(oid):
    return core.SIM.objects[oid]


class SimQueue:
    def __init__(self, maxsize=0, *, ctx=None):
        s = core.SIM
        if s is None or s.current() is None:
            raise HarnessError("simulated Queue created outside a simulation")
        self._sim = s
        self._oid = s.register_object(self)
        self._pipe = deque()
        self._getters = []
        self._putters = []
        self._maxsize = maxsize or 0
        self._pending = {}     # proc -> deque of objects
        self._events = {}      # proc -> Event
        self._count = 0
        self._closed = set()

    def __reduce__(self):
        return (_lookup, (self._oid,))

    # producer side
    def put(self, obj, block=True, timeout=None):
        s = self._sim
        t = s.current()
        if t is None:
            raise HarnessError("put outside a task")
        if t.proc.pid in self._closed:
            raise ValueError("Queue is closed")
        s.yield_point("q.put")
        if t.killed:
            raise SimKilled
        deadline = None if timeout is None else s.now + timeout
        while self._maxsize and self._count >= self._maxsize:
            if not block:
                raise _queue.Full
            self._putters.append(t)
            left = None if deadline is None else max(0, deadline - s.now)
            ok = s.block(("q.put", self._oid), left)
            if t in self._putters:
                self._putters.remove(t)
            if not ok and self._count >= self._maxsize:
                raise _queue.Full
        self._count += 1
        p = t.proc
        d = self._pending.get(p)
        if d is None:
            d = self._pending[p] = deque()
        p.feeders[self] = True
        d.append(obj)
        if p not in self._events:
            self._schedule(p)

    def _schedule(self, p):
        self._events[p] = self._sim.post_event(lambda: self._deliver(p), p)

    def _deliver(self, p):
        self._events.pop(p, None)
        d = self._pending.get(p)
        if not d:
            return
        obj = d.popleft()
        self._send(obj, p)
        if d:
            self._schedule(p)

    def _send(self, obj, p):
        s = self._sim
        try:
            data = pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)
        except Exception as e:  # as the real feeder: the object is dropped, an error printed
            self._count -= 1
            s.task_excs.append(("feeder", p.name, repr(e), "pickling failed in queue feeder"))
            return
        self._pipe.append(data)
        for g in self._getters:
            s.wake(g)

    def _flush(self, p):
        ev = self._events.pop(p, None)
        if ev is not None:
            self._sim.cancel_event(ev)
        d = self._pending.get(p)
        while d:
            self._send(d.popleft(), p)

    def _drop(self, p):
        ev = self._events.pop(p, None)
        if ev is not None:
            self._sim.cancel_event(ev)
        d = self._pending.pop(p, None)
        if d:
            self._count -= len(d)

    # consumer side
    def get(self, block=True, timeout=None):
        s = self._sim
        t = s.current()
        if t is None:
            raise HarnessError("get outside a task")
        s.yield_point("q.get")
        if t.killed:
            raise SimKilled
        # a polling loop: idle polls get slower, as on a loaded machine, so that waiting costs few steps
        if timeout is not None and timeout < (getattr(s, "poll_stretch", 0) or 0):
            t.polls = t.polls + 1
            timeout *= 2 ** min(t.polls // 4, 6)
        deadline = None if timeout is None else s.now + timeout
        while not self._pipe:
            if not block:
                raise _queue.Empty
            self._getters.append(t)
            try:
                left = None if deadline is None else max(0.0, deadline - s.now)
                ok = s.block(("q.get", self._oid), left)
            finally:
                if t in self._getters:
                    self._getters.remove(t)
            if not ok and not self._pipe:
                raise _queue.Empty
        t.polls = 0
        data = self._pipe.popleft()
        self._count -= 1
        for w in self._putters:
            s.wake(w)
        return pickle.loads(data)

    def put_nowait(self, obj):
        return self.put(obj, False)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return self._count

    def empty(self):
        self._sim.yield_point("q.empty")
        return not self._pipe

    def full(self):
        return bool(self._maxsize) and self._count >= self._maxsize

    def close(self):
        t = self._sim.current()
        if t is not None:
            self._closed.add(t.proc.pid)

    def join_thread(self):
        t = self._sim.current()
        if t is not None:
            self._flush(t.proc)

    def cancel_join_thread(self):
        pass

    def __hash__(self):
        return self._oid

    def __eq__(self, o):
        return self is o


class _Shared:
    """Base of simulated shared synchronisation objects (identity survives pickling)."""

    def __init__(self):
        s = core.SIM
        self._sim = s
        self._oid = s.register_object(self) if s is not None else 0  # 0: created at import, never crosses processes

    def __reduce__(self):
        if not self._oid:
            raise HarnessError("shared object created outside a simulation")
        return (_lookup, (self._oid,))


class SimEvent(_Shared):
    def __init__(self, ctx=None):
        super().__init__()
        self._flag = False
        self._waiters = []

    def is_set(self):
        return self._flag

    def set(self):
        if self._sim.current() is not None:
            self._sim.yield_point("ev.set")
        self._flag = True
        for t in self._waiters:
            self._sim.wake(t)

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        s = self._sim
        t = s.current()
        if self._flag:
            return True
        self._waiters.append(t)
        try:
            s.block(("ev", self._oid), timeout)
        finally:
            if t in self._waiters:
                self._waiters.remove(t)
        return self._flag


class SimMPLock(_Shared):
    def __init__(self, ctx=None):
        super().__init__()
        from .shims import SimLock
        self._l = SimLock()

    def acquire(self, block=True, timeout=None):
        return self._l.acquire(block, -1 if timeout is None else timeout)

    def release(self):
        self._l.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SimProcess:
    """Stands in for multiprocessing.Process (target or subclass with run())."""
    _sim_fields = ("_sim_proc",)

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs or {})
        self._pname = name
        self._daemonic = bool(daemon) if daemon is not None else False
        self._sim_proc = None
        self._started_here = True

    @property
    def name(self):
        return self.__dict__.get("_pname") or type(self).__name__

    @name.setter
    def name(self, v):
        self._pname = v

    @property
    def daemon(self):
        return self.__dict__.get("_daemonic", False)

    @daemon.setter
    def daemon(self, v):
        self._daemonic = v

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = core.SIM
        t = s.current() if s is not None else None
        if t is None:
            raise HarnessError("process started outside a simulation")
        if self.__dict__.get("_sim_proc") is not None:
            raise AssertionError("cannot start a process twice")
        s.yield_point("proc.start")
        state = {k: v for k, v in self.__dict__.items() if k != "_sim_proc"}
        try:
            blob = pickle.dumps((type(self), state), protocol=pickle.HIGHEST_PROTOCOL)
        except Exception as e:
            raise HarnessError(f"cannot pickle process arguments: {e!r}") from e
        base = getattr(self._target, "__name__", None) or type(self).__name__
        n = s.__dict__.setdefault("_proc_names", {})
        n[base] = n.get(base, 0) + 1
        proc = s.new_proc(f"{base}#{n[base]}", parent=t.proc)
        proc.daemon = self.daemon
        self._sim_proc = proc
        hook = getattr(s, "on_proc_start", None)
        if hook is not None:
            hook(proc)

        def main():
            cls, st = pickle.loads(blob)
            obj = cls.__new__(cls)
            obj.__dict__.update(st)
            obj.__dict__["_sim_proc"] = proc
            obj.run()

        s.start_proc(proc, main)

    def is_alive(self):
        p = self.__dict__.get("_sim_proc")
        s = core.SIM
        if p is None:
            return False
        if s.current() is not None:
            s.yield_point("is_alive")
        return p.alive

    def join(self, timeout=None):
        p = self._sim_proc
        assert p is not None, "can only join a started process"
        core.SIM.join_proc(p, timeout)

    def terminate(self):
        p = self.__dict__.get("_sim_proc")
        if p is not None and p.alive:
            core.SIM.kill_proc(p, -15)

    def kill(self):
        p = self.__dict__.get("_sim_proc")
        if p is not None and p.alive:
            core.SIM.kill_proc(p, -9)

    def close(self):
        pass

    @property
    def exitcode(self):
        p = self.__dict__.get("_sim_proc")
        return None if p is None else p.exitcode

    @property
    def pid(self):
        p = self.__dict__.get("_sim_proc")
        return None if p is None else p.pid

    ident = pid

    @property
    def sentinel(self):
        return self._sim_proc


class SimContext:
    Process = SimProcess

    def __init__(self, method="spawn"):
        self._m = method

    def Queue(self, maxsize=0):
        return SimQueue(maxsize)

    def SimpleQueue(self):
        return SimQueue()

    JoinableQueue = Queue

    def Event(self):
        return SimEvent()

    def Lock(self):
        return SimMPLock()

    def get_start_method(self, allow_none=False):
        return self._m

    def set_start_method(self, m, force=False):
        self._m = m

    def get_context(self, m=None):
        return self

    def current_process(self):
        return multiprocessing.current_process()


_CTX = SimContext()


def _queue_factory(maxsize=0):
    return SimQueue(maxsize)


def install():
    """Patch multiprocessing's public names (before litdata and torch bind them)."""
    if _real:
        return
    for n in ("Process", "Queue", "SimpleQueue", "Event", "Lock", "get_context", "set_start_method", "get_start_method"):
        _real[n] = getattr(multiprocessing, n)
    multiprocessing.Process = SimProcess
    multiprocessing.Queue = SimQueue
    multiprocessing.SimpleQueue = SimQueue
    multiprocessing.Event = SimEvent
    multiprocessing.Lock = SimMPLock
    multiprocessing.get_context = lambda m=None: _CTX if core.SIM is not None else _real["get_context"](m)
    multiprocessing.set_start_method = lambda m, force=False: None


def install_torch():
    import torch.multiprocessing as tm
    import torch.utils.data._utils.worker as w
    import torch.utils.data._utils.signal_handling as sh
    import torch.utils.data.dataloader as dl
    tm.Process = SimProcess
    tm.Queue = SimQueue
    tm.SimpleQueue = SimQueue
    tm.Event = SimEvent
    tm.get_context = lambda m=None: _CTX
    # C level signal handlers and pid bookkeeping: nothing to watch, processes are simulated
    sh._set_worker_signal_handlers = lambda *a: None
    sh._set_worker_pids = lambda *a: None
    sh._remove_worker_pids = lambda *a: None
    sh._error_if_any_worker_fails = lambda *a: None
    sh._set_SIGCHLD_handler = lambda *a: None
    return [(w, "_worker_info")]
