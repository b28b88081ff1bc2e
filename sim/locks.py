"""File locks. The installed filelock keeps process-wide fork bookkeeping that misreads simulated processes as forks, so
its Unix lock is replaced by this one with the same contract: flock on the lock file, an unlinked inode does not count
as locked, polling every 0.05 s, Timeout, re-entrancy, the file stays behind on release, a dead process drops its locks."""
from __future__ import annotations

import fcntl
import os
import time


class SimFileLock:
    def __init__(self, lock_file, timeout=-1, mode=0o644, thread_local=True, *, blocking=True, is_singleton=False,
                 poll_interval=0.05, **kw):
        self._path = os.fspath(lock_file)
        self.timeout = timeout
        self.blocking = blocking
        self.poll_interval = poll_interval
        self._fd = None
        self._count = 0

    lock_file = property(lambda self: self._path)
    is_locked = property(lambda self: self._fd is not None)
    lock_counter = property(lambda self: self._count)

    def __getstate__(self):
        raise TypeError("cannot pickle a file lock")

    def _try(self):
        flags = os.O_RDWR | os.O_NONBLOCK
        try:
            fd = os.open(self._path, flags | os.O_CREAT | os.O_EXCL, 0o644)
        except FileExistsError:
            try:
                fd = os.open(self._path, flags, 0o644)
            except FileNotFoundError:
                return
        except FileNotFoundError:
            if os.path.exists(os.path.dirname(self._path)):
                return
            raise
        try:
            fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
            ok = os.fstat(fd).st_nlink > 0
        except OSError:
            ok = False
        if ok:
            self._fd = fd
        else:
            os.close(fd)

    def acquire(self, timeout=None, poll_interval=None, *, poll_intervall=None, blocking=None, cancel_check=None):
        from filelock import Timeout
        timeout = self.timeout if timeout is None else timeout
        blocking = self.blocking if blocking is None else blocking
        poll = self.poll_interval if poll_interval is None else poll_interval
        if self._fd is None:
            start = time.perf_counter()
            parent = os.path.dirname(os.path.abspath(self._path))
            os.makedirs(parent, exist_ok=True)
            while True:
                self._try()
                if self._fd is not None:
                    break
                if not blocking or (timeout >= 0 and time.perf_counter() - start >= timeout):
                    raise Timeout(self._path)
                d = poll
                if timeout >= 0:
                    d = min(d, max(start + timeout - time.perf_counter(), 0.0))
                time.sleep(d)
        self._count += 1
        return _Proxy(self)

    def release(self, force=False):
        if self._fd is None:
            return
        self._count = 0 if force else self._count - 1
        if self._count <= 0:
            self._count = 0
            fd, self._fd = self._fd, None
            fcntl.flock(fd, fcntl.LOCK_UN)
            os.close(fd)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __del__(self):
        fd, self._fd = self.__dict__.get("_fd"), None
        if fd is not None:
            try:
                fcntl.flock(fd, fcntl.LOCK_UN)
                os.close(fd)
            except BaseException:  # noqa: BLE001
                pass


class _Proxy:
    def __init__(self, lock):
        self.lock = lock

    def __enter__(self):
        return self.lock

    def __exit__(self, *a):
        self.lock.release()


def install():
    import filelock
    filelock.FileLock = SimFileLock
    filelock.UnixFileLock = SimFileLock
