"""Deterministic scheduler: real threads, exactly one released at a time; simulated clock; simulated processes.

Everything that can make a difference between two runs is decided here from `Scenario['sched']`, which is either
a seeded policy or an explicit (minimised) list of decisions.
"""
from __future__ import annotations

import _thread
import heapq
import os
import random
import sys
import threading
import traceback
from collections import deque

_real_lock = _thread.allocate_lock
_get_ident = _thread.get_ident
_real_start_new_thread = _thread.start_new_thread

START_TIME = 1_700_000_000.0
TICK = 1e-5

_STACK = bool(os.environ.get("SIM_STACK"))
SIM = None  # the active simulation of this OS process (one per OS process)


class SimKilled(BaseException):
    """Unwinds the threads of a simulated process that was killed (SIGKILL semantics)."""


class SimAbort(BaseException):
    """Unwinds every task at the end of the simulation."""


class HarnessError(Exception):
    """The machinery itself failed: never a verdict about litdata."""


class Violation(Exception):
    def __init__(self, cls, detail=""):
        super().__init__(f"{cls}: {detail}")
        self.cls = cls
        self.detail = detail


class Proc:
    """A simulated OS process: a group of tasks with its own environment."""

    def __init__(self, sim, name, env, parent=None, host=None):
        self.sim = sim
        self.pid = sim.next_pid()
        self.name = name
        self.env = env
        self.parent = parent
        self.host = host or (parent.host if parent else "host0")
        self.tasks = []
        self.alive = True
        self.started = False
        self.exitcode = None
        self.waiters = []
        self.globals = {}
        self.rng = None
        self.mut_ops = 0
        self.ops = 0
        self.fds = set()
        self.feeders = {}
        self.exc = None
        self.kill_at = None
        self.daemon = False
        self.start_time = sim.now

    def __repr__(self):
        return f"<Proc {self.name}>"


class Task:
    __slots__ = ("polls", "id", "name", "proc", "ident", "lock", "state", "killed", "wait_reason", "timed_out", "timer_seq",
                 "daemon", "done_waiters", "is_main", "thread", "prio", "last_label", "streak", "wake_seq", "nokill")

    def __init__(self, id, name, proc):
        self.id = id
        self.name = name
        self.proc = proc
        self.ident = None
        self.lock = _real_lock()
        self.lock.acquire()
        self.state = "new"
        self.killed = False
        self.wait_reason = None
        self.timed_out = False
        self.timer_seq = 0
        self.daemon = True
        self.done_waiters = []
        self.is_main = False
        self.thread = None
        self.prio = 0.0
        self.last_label = ""
        self.streak = 0
        self.polls = 0
        self.wake_seq = 0

    def __repr__(self):
        return f"<T{self.id} {self.name} {self.state}>"


class Event:
    """A micro event (e.g. delivery of a queue message): run inline by the scheduler when chosen."""
    __slots__ = ("id", "fn", "proc", "prio", "wake_seq")

    def __init__(self, id, fn, proc):
        self.id = id
        self.fn = fn
        self.proc = proc
        self.prio = 0.0
        self.wake_seq = 0


class Sim:
    def __init__(self, sched=None, max_steps=400_000, max_time=3600.0, swap_rng=False):
        self.sched = dict(sched or {})
        self.now = START_TIME
        self.steps = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self.tasks = {}
        self.by_ident = {}
        self.runnable = []  # Task/Event in wake order
        self.timers = []
        self._tid = 0
        self._seq = 0
        self._pid = 1000
        self.cur = None
        self.procs = []
        self.objects = {}
        self._oid = 0
        self.ending = None
        self.outcome = None
        self.ctl = _real_lock()
        self.ctl.acquire()
        self.in_event = False
        self.stats = {"switches": 0, "stalls": 0, "kills": 0, "yields": 0, "line_yields": 0}
        self.faults_fired = {}
        self.probes = {}
        self.decisions = {}      # idx -> recorded non default decision
        self.idx = 0
        self.log = None          # list when logging is requested
        self.hash = 1469598103934665603
        self.task_excs = []
        self.swap_rng = swap_rng
        self.globals_registry = []   # (module, name)
        self.swapped_proc = None
        self.killed_pending = []
        self.observers = []
        self.stack_dump = None
        self.harness_exc = None
        self.mode = self.sched.get("mode", "default")
        self.rng = random.Random(("sched", self.sched.get("seed", 0)).__repr__())
        self.replay = {(k if k.startswith('L') else int(k)): v for k, v in self.sched.get("map", {}).items()}
        self.lidx = 0
        self.p_switch = self.sched.get("p", 0.2)
        self.p_stall = self.sched.get("stall_p", 0.0)
        self.max_stalls = self.sched.get("max_stalls", 0)
        self.stall_lens = self.sched.get("stall_lens", [0.05, 0.3, 2.0])
        self.p_line = self.sched.get("line_p", 0.0)
        self.max_streak = 3000
        self.pct_points = set()
        if self.mode == "pct":
            horizon = self.sched.get("horizon", 3000)
            for _ in range(self.sched.get("depth", 3)):
                self.pct_points.add(self.rng.randrange(horizon))
        self.switch_log = []     # digest of interleaving (sequence of task ids)
        self.ihash = 0

    # ------------------------------------------------------------------ helpers
    def next_pid(self):
        self._pid += 1
        return self._pid

    def register_object(self, obj):
        self._oid += 1
        self.objects[self._oid] = obj
        return self._oid

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fired(self, name, n=1):
        self.faults_fired[name] = self.faults_fired.get(name, 0) + n

    def current(self):
        t = self.cur
        if t is not None and t.ident == _get_ident() and not self.in_event:
            return t
        return None

    def _mix(self, *vals):
        h = self.hash
        for v in vals:
            if isinstance(v, str):
                for ch in v.encode("utf8", "replace"):
                    h = ((h ^ ch) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
            else:
                h = ((h ^ (int(v) & 0xFFFFFFFF)) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
        self.hash = h

    # ------------------------------------------------------------------ tasks
    def new_task(self, name, proc):
        self._tid += 1
        t = Task(self._tid, name, proc)
        t.prio = self.rng.random()
        self.tasks[t.id] = t
        proc.tasks.append(t)
        return t

    def spawn_thread(self, fn, args=(), kwargs=None, name=None, proc=None):
        """Start a real thread that runs as task (used for threading.Thread and for process mains)."""
        parent = self.current()
        proc = proc or (parent.proc if parent else None)
        task = self.new_task(name or f"thread", proc)
        # the thread must own no reference once its task is over: what it would free afterwards, it would free at a
        # moment the simulator does not control
        payload = [(fn, args, kwargs or {})]
        del fn, args, kwargs

        def bootstrap():
            task.ident = _get_ident()
            threading._active.pop(task.ident, None)   # left by a dummy thread whose ident the kernel reused
            self.by_ident[task.ident] = task
            task.lock.acquire()
            try:
                if not task.killed and self.ending is None:
                    self._enable_lines()
                    f, a, k = payload.pop()
                    try:
                        f(*a, **k)
                    finally:
                        f = a = k = None
            except (SimKilled, SimAbort):
                pass
            except BaseException as e:  # noqa: BLE001
                self.task_excs.append((task.name, task.proc.name, repr(e), traceback.format_exc()))
            finally:
                payload.clear()
                threading._active.pop(task.ident, None)
                self._task_exit(task)

        ident = _real_start_new_thread(bootstrap, ())
        self._make_runnable(task)
        return task, ident

    def _enable_lines(self):
        pass

    def _task_exit(self, task):
        try:
            task.state = "done"
            self.by_ident.pop(task.ident, None)
            for w in task.done_waiters:
                self.wake(w)
            task.done_waiters = []
            if task in task.proc.tasks:
                task.proc.tasks.remove(task)
            self._mix("exit", task.id)
            self._dispatch(task, exiting=True)
        except BaseException:  # noqa: BLE001
            self.harness_exc = traceback.format_exc()
            self._finish("harness")

    def _make_runnable(self, t):
        t.state = "runnable"
        self._seq += 1
        t.wake_seq = self._seq
        self.runnable.append(t)

    def post_event(self, fn, proc):
        self._tid += 1
        e = Event(self._tid, fn, proc)
        e.prio = self.rng.random()
        self._seq += 1
        e.wake_seq = self._seq
        self.runnable.append(e)
        return e

    def cancel_event(self, e):
        if e in self.runnable:
            self.runnable.remove(e)

    # ------------------------------------------------------------------ time
    def add_timer(self, when, task):
        self._seq += 1
        task.timer_seq = self._seq
        heapq.heappush(self.timers, (when, self._seq, task))

    def call_later(self, delay, fn, proc=None):
        self._seq += 1
        heapq.heappush(self.timers, (self.now + delay, self._seq, fn))

    def _fire_timers(self):
        fired = False
        while self.timers and self.timers[0][0] <= self.now:
            when, seq, t = heapq.heappop(self.timers)
            if isinstance(t, Task):
                if t.state == "blocked" and t.timer_seq == seq:
                    t.timed_out = True
                    self._make_runnable(t)
                    fired = True
            else:
                self.post_event(t, None)
                fired = True
        return fired

    # ------------------------------------------------------------------ blocking / waking
    def wake(self, t):
        if t.state == "blocked":
            t.timer_seq = 0
            t.timed_out = False
            self._make_runnable(t)
            return True
        return False

    def block(self, reason, timeout=None):
        """Block the current task; returns True when woken, False on timeout."""
        t = self.cur
        if t.killed:
            raise SimKilled
        t.wait_reason = reason
        t.state = "blocked"
        t.timed_out = False
        t.streak = 0
        if timeout is not None:
            self.add_timer(self.now + max(timeout, 0.0), t)
        self._dispatch(t)
        t.wait_reason = None
        return not t.timed_out

    def sleep(self, d):
        t = self.current()
        if t is None:
            raise HarnessError("sleep outside a task")
        if t.killed:
            raise SimKilled
        if d <= 0:
            self.yield_point("sleep0")
            return
        self.block(("sleep", d), d)

    # ------------------------------------------------------------------ scheduling
    def yield_point(self, label="", force=False):
        if self.in_event:
            return
        t = self.cur
        if t is None or t.ident != _get_ident():
            return
        if t.killed:
            raise SimKilled
        if self.ending is not None:
            raise SimAbort
        self.stats["yields"] += 1
        t.last_label = label
        t.streak += 1
        self._check_caps(t)
        self.now += TICK
        if self.timers and self.timers[0][0] <= self.now:
            self._fire_timers()
        idx = self.idx
        self.idx += 1
        if self.log is not None:
            st = ""
            if _STACK:
                fr, parts = sys._getframe(1), []
                while fr is not None and len(parts) < 14:
                    parts.append(f"{os.path.basename(fr.f_code.co_filename)}:{fr.f_lineno}:{fr.f_code.co_name}")
                    fr = fr.f_back
                st = " < ".join(parts)
            self.log.append(f"   y {idx} T{t.id} {label} {st}")
        choice = None
        if self.mode == "replay" or self.mode == "default":
            d = self.replay.get(idx)
            if d is not None:
                if isinstance(d, list):
                    self._stall(t, idx, d[1])
                    return
                choice = d
            elif (force or t.streak > self.max_streak) and self.runnable:
                choice = self._head_id()
        else:
            if self.p_stall and self.stats["stalls"] < self.max_stalls and self.rng.random() < self.p_stall:
                self._stall(t, idx, self.rng.choice(self.stall_lens))
                return
            if self.runnable:
                choice = self._policy(t, idx, force or t.streak > self.max_streak)
        if choice is None or choice == t.id:
            return
        if not any(r.id == choice for r in self.runnable):
            return
        self.decisions[idx] = choice
        self._make_runnable(t)
        t.streak = 0
        self._dispatch(t, choice=choice)

    def line_point(self):
        """A possible preemption between two source lines of litdata."""
        if self.in_event or self.ending is not None:
            return
        t = self.cur
        if t is None or t.ident != _get_ident() or t.killed:
            return
        self.stats["line_yields"] += 1
        self.lidx += 1
        key = "L%d" % self.lidx
        if self.mode in ("replay", "default"):
            choice = self.replay.get(key)
            if choice is None:
                return
        else:
            if not self.runnable or self.rng.random() >= self.p_line:
                return
            choice = self.runnable[self.rng.randrange(len(self.runnable))].id
        if not any(r.id == choice for r in self.runnable):
            return
        self.decisions[key] = choice
        self._check_caps(t)
        t.last_label = "line"
        self._make_runnable(t)
        t.streak = 0
        self._dispatch(t, choice=choice)

    def _head_id(self):
        return self.runnable[0].id

    def _stall(self, t, idx, d):
        self.decisions[idx] = ["s", d]
        self.stats["stalls"] += 1
        self.fired("stall")
        self.block(("stall", d), d)

    def _policy(self, t, idx, force):
        mode = self.mode
        cands = self.runnable
        if mode == "random":
            if force or self.rng.random() < self.p_switch:
                return cands[self.rng.randrange(len(cands))].id
            return None
        if mode == "pct":
            if idx in self.pct_points:
                t.prio = -self.rng.random() - len(self.pct_points)
            best = t
            if force:
                t.prio = -10.0 - self.rng.random()
            for c in cands:
                if c.prio > best.prio:
                    best = c
            return None if best is t else best.id
        if mode == "rr":
            return cands[0].id
        return None

    def _pick(self, t, choice):
        """Choose the next entry of `runnable` once the current task cannot continue (or gave way)."""
        if choice is not None:
            for r in self.runnable:
                if r.id == choice:
                    return r
        idx = self.idx
        self.idx += 1
        if self.mode in ("replay", "default"):
            d = self.replay.get(idx)
            if d is not None and not isinstance(d, list):
                for r in self.runnable:
                    if r.id == d:
                        return r
            return self.runnable[0]
        if self.mode == "random":
            k = self.rng.randrange(len(self.runnable)) if self.rng.random() < 0.5 else 0
            if k:
                self.decisions[idx] = self.runnable[k].id
            return self.runnable[k]
        if self.mode == "pct":
            best = self.runnable[0]
            for r in self.runnable:
                if r.prio > best.prio:
                    best = r
            if best is not self.runnable[0]:
                self.decisions[idx] = best.id
            return best
        return self.runnable[0]

    def _check_caps(self, t):
        self.steps += 1
        if self.steps > self.max_steps:
            self._finish("steps")
            raise SimAbort
        if self.now - START_TIME > self.max_time:
            self._finish("time")
            raise SimAbort

    def _dispatch(self, me, choice=None, exiting=False):
        """Hand the baton on. `me` is blocked, done or already in runnable."""
        while True:
            if self.ending is not None:
                nxt = None
                break
            self.steps += 1
            if self.steps > self.max_steps:
                self._finish("steps")
                nxt = None
                break
            # killed tasks unwind first, atomically
            nxt = None
            if self.killed_pending:
                k = self.killed_pending[0]
                if k.state == "done":
                    self.killed_pending.pop(0)
                    continue
                if k in self.runnable:
                    self.runnable.remove(k)
                nxt = k
                if nxt is me and exiting:
                    self.killed_pending.pop(0)
                    continue
                break
            if self.timers and self.timers[0][0] <= self.now:
                self._fire_timers()
            if not self.runnable:
                if not self.timers:
                    self._finish("deadlock")
                    nxt = None
                    break
                self.now = max(self.now, self.timers[0][0])
                if self.now - START_TIME > self.max_time:
                    self._finish("time")
                    nxt = None
                    break
                self._fire_timers()
                continue
            nxt = self._pick(me, choice)
            choice = None
            self.runnable.remove(nxt)
            if isinstance(nxt, Event):
                self._mix("ev", nxt.id)
                self.in_event = True
                try:
                    nxt.fn()
                finally:
                    self.in_event = False
                continue
            break
        if nxt is None:  # simulation over
            if exiting:
                return
            raise SimAbort
        nxt.state = "running"
        if nxt is not me:
            self.stats["switches"] += 1
            self._mix("sw", nxt.id, self.idx)
            self.ihash = (self.ihash * 1000003 + nxt.id) & 0xFFFFFFFFFFFFFFFF
            if self.log is not None:
                self.log.append(f"{self.now - START_TIME:.5f} idx={self.idx} -> T{nxt.id} {nxt.name}/{nxt.proc.name} (from T{me.id} at {me.last_label!r}, {me.wait_reason})")
        self.cur = nxt
        if nxt.proc is not self.swapped_proc:
            self._swap(nxt.proc)
        if nxt is not me:
            nxt.lock.release()
            if exiting:
                return
            me.lock.acquire()
        if self.ending is not None:
            raise SimAbort
        if me.killed:
            raise SimKilled

    def _swap(self, proc):
        old = self.swapped_proc
        if old is not None:
            for mod, name, *_ in self.globals_registry:
                old.globals[(mod, name)] = getattr(mod, name, None)
            if self.swap_rng:
                import numpy as np
                old.rng = (random.getstate(), np.random.get_state())
        for mod, name, *default in self.globals_registry:      # (module or class, attribute, value in a new process)
            if (mod, name) in proc.globals:
                setattr(mod, name, proc.globals[(mod, name)])
            else:
                setattr(mod, name, default[0] if default else None)
        if self.swap_rng:
            import numpy as np
            if proc.rng is None:
                random.seed(proc.pid)
                np.random.seed(proc.pid)
            else:
                random.setstate(proc.rng[0])
                np.random.set_state(proc.rng[1])
        self.swapped_proc = proc

    # ------------------------------------------------------------------ end
    def _finish(self, outcome):
        if self.ending is None:
            self.ending = outcome
            self.outcome = outcome
            if outcome in ("deadlock", "time", "steps"):
                self.stack_dump = self.dump()
            self.ctl.release()

    def finish(self, outcome="done"):
        self._finish(outcome)
        raise SimAbort

    def dump(self):
        frames = sys._current_frames()
        out = []
        for t in self.tasks.values():
            if t.state == "done":
                continue
            lines = []
            f = frames.get(t.ident)
            while f is not None:
                fn = f.f_code.co_filename
                if "/litdata/" in fn:
                    lines.append(f"{os.path.basename(fn)}:{f.f_lineno}:{f.f_code.co_name}")
                f = f.f_back
            out.append(f"T{t.id} {t.name}/{t.proc.name} {t.state} {t.wait_reason!r:.60} at {t.last_label}: " + " < ".join(lines[:6]))
        return out

    # ------------------------------------------------------------------ processes
    def new_proc(self, name, env=None, parent=None, host=None):
        if env is None:
            env = dict(parent.env) if parent else {}
        p = Proc(self, name, env, parent, host)
        self.procs.append(p)
        return p

    def start_proc(self, proc, fn, args=(), kwargs=None):
        proc.started = True
        kwargs = kwargs or {}

        def main():
            code = 0
            try:
                fn(*args, **kwargs)
            except (SimKilled, SimAbort):
                raise
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException as e:  # noqa: BLE001
                proc.exc = e
                proc.exc_tb = traceback.format_exc()
                code = 1
            self._proc_main_done(proc, code)

        t, _ = self.spawn_thread(main, name=f"main", proc=proc)
        t.is_main = True
        t.daemon = False
        return t

    def _proc_main_done(self, proc, code):
        # wait for non-daemon threads, flush queue feeders, then drop daemon threads (process exit)
        me = self.cur
        while True:
            others = [t for t in proc.tasks if t is not me and not t.daemon and t.state != "done"]
            if not others:
                break
            others[0].done_waiters.append(me)
            self.block(("exit-join", others[0].id), None)
        # multiprocessing's exit function: daemonic children are terminated, the others waited for
        for c in [p for p in self.procs if p.parent is proc and p.alive and p.started and p.daemon]:
            self.kill_proc(c, -15)
        for c in [p for p in self.procs if p.parent is proc and p.started and not p.daemon]:
            self.join_proc(c)
        for q in list(proc.feeders):
            q._flush(proc)
        self._end_proc(proc, code, skip=me)

    def _end_proc(self, proc, code, skip=None):
        if not proc.alive:
            return
        proc.alive = False
        proc.exitcode = code
        for t in list(proc.tasks):
            if t is skip or t.state == "done":
                continue
            t.killed = True
            t.timer_seq = 0
            if t.state == "blocked":
                t.state = "runnable"
            if t in self.runnable:
                self.runnable.remove(t)
            self.killed_pending.append(t)
        for q in list(proc.feeders):
            q._drop(proc)
        self._release_fds(proc)
        for w in proc.waiters:
            self.wake(w)
        proc.waiters = []
        self._mix("pend", proc.pid, code)

    def _release_fds(self, proc):
        import fcntl
        for fd in list(proc.fds):
            try:
                fcntl.flock(fd, fcntl.LOCK_UN)
            except OSError:
                pass
        proc.fds.clear()

    def kill_proc(self, proc, code=-9):
        """SIGKILL: all tasks unwind at once, nothing they hold survives (only durable files do)."""
        if not proc.alive or not proc.started:
            return
        self.stats["kills"] += 1
        t = self.current()
        self_kill = t is not None and t.proc is proc
        self._end_proc(proc, code, skip=t if self_kill else None)
        # orphans keep running, as on POSIX; daemonic children of a killed process too
        if self_kill:
            t.killed = True
            raise SimKilled
        if self.killed_pending and t is not None:
            self._make_runnable(t)
            self._dispatch(t, choice=t.id)

    def join_proc(self, proc, timeout=None):
        t = self.current()
        if t is None:
            raise HarnessError("join outside sim")
        self.yield_point("proc.join")
        if not proc.alive:
            return True
        proc.waiters.append(t)
        ok = self.block(("join", proc.name), timeout)
        if t in proc.waiters:
            proc.waiters.remove(t)
        return ok or not proc.alive

    # ------------------------------------------------------------------ run
    def run(self, fn, env=None, wall=None):
        """Run `fn` as main of process 'driver'; returns when the simulation ended."""
        global SIM
        SIM = self
        proc = self.new_proc("driver", env=env or {})
        self.driver = proc
        result = {}

        def main():
            try:
                result["value"] = fn()
                result["ok"] = True
            except Violation as v:
                result["violation"] = v
            except (SimKilled, SimAbort):
                raise
            except BaseException as e:  # noqa: BLE001
                result["exc"] = e
                result["tb"] = traceback.format_exc()
            self._finish("done")
            raise SimAbort

        first, _ = self.spawn_thread(main, name="main", proc=proc)
        first.is_main = True
        proc.started = True
        self.runnable.remove(first)
        first.state = "running"
        self.cur = first
        self._swap(proc)
        first.lock.release()
        if wall is not None:
            got = self.ctl.acquire(True, wall)
            if not got:
                self.outcome = "wall"
                self.stack_dump = self.dump()
        else:
            self.ctl.acquire()
        return result
