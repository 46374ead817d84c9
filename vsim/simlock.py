"""Locks created by the code under test cooperate with the simulated scheduler
(a parked owner must not block the whole simulation)."""
import _thread
import os
import sys
import threading

_real_lock = _thread.allocate_lock
_current_sched = [None]          # set by sched.Sched.run


def _yield_blocked(lock):
    s = _current_sched[0]
    if s is not None and s.managed():
        s.block(lock)
        return True
    return False


class SimLock:
    _reentrant = False

    def __init__(self):
        self._l = _real_lock()
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._reentrant and self._owner == me:
            self._n += 1
            return True
        while not self._l.acquire(False):
            if not blocking:
                return False
            if not _yield_blocked(self):
                if not self._l.acquire(True, timeout):
                    return False
                break
        self._owner = me
        self._n = 1
        return True

    def release(self):
        if self._reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._n -= 1
            if self._n:
                return
        self._owner = None
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock(SimLock):
    _reentrant = True


def install(repo):
    root = os.path.join(os.path.realpath(repo), "robuststats")
    orig_lock, orig_rlock = threading.Lock, threading.RLock

    def from_sut():
        return os.path.realpath(sys._getframe(2).f_code.co_filename).startswith(root)

    def Lock():
        return SimLock() if from_sut() else orig_lock()

    def RLock(*a, **k):
        return SimRLock() if from_sut() else orig_rlock(*a, **k)

    threading.Lock = Lock
    threading.RLock = RLock
