"""Simulated locks: a lock created by the package (or the libraries it uses,
after the installation) hands the control to the scheduler instead of blocking
the operating system thread.
"""
import _thread
import threading

SCHED = None    # scheduler of the current simulated execution


class SimRLock:
    _reentrant = True

    def __init__(self):
        self._real = _thread.RLock() if self._reentrant else _thread.allocate_lock()
        self._owner = None
        self._count = 0
        self._waiting = []

    def acquire(self, blocking=True, timeout=-1):
        sched = SCHED
        me = sched.me() if sched is not None else -1
        if me < 0:
            got = self._real.acquire(blocking, timeout)
            return got
        sched.point()
        while True:
            if self._owner is None:
                self._owner, self._count = me, 1
                return True
            if self._reentrant and self._owner == me:
                self._count += 1
                return True
            if not blocking or timeout == 0:
                return False
            if timeout is not None and timeout > 0:
                # simulated time-out: may expire at any moment
                sched.timeouts += 1
                sched.point()
                if self._owner is not None:
                    return False
                continue
            self._waiting.append(me)
            if sched.block():
                raise RuntimeError("simulated deadlock")

    def release(self):
        sched = SCHED
        me = sched.me() if sched is not None else -1
        if me < 0:
            self._real.release()
            return
        if self._owner is None or (self._reentrant and self._owner != me):
            raise RuntimeError("release of un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            waiting, self._waiting = self._waiting, []
            for tid in waiting:
                sched.unblock(tid)
        sched.point()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()

    def locked(self):
        if self._owner is not None:
            return True
        if not self._reentrant:
            return self._real.locked()
        if self._real.acquire(False):
            self._real.release()
            return False
        return True

    # interface used by the condition variables
    def _is_owned(self):
        sched = SCHED
        me = sched.me() if sched is not None else -1
        if me < 0:
            if self._reentrant:
                return self._real._is_owned()
            if self._real.acquire(False):
                self._real.release()
                return False
            return True
        return self._owner == me

    def _release_save(self):
        sched = SCHED
        me = sched.me() if sched is not None else -1
        if me < 0:
            if self._reentrant:
                return ("real", self._real._release_save())
            self._real.release()
            return ("real", None)
        count, self._count = self._count, 1
        self.release()
        return ("sim", count)

    def _acquire_restore(self, state):
        kind, value = state
        if kind == "real":
            if self._reentrant:
                self._real._acquire_restore(value)
            else:
                self._real.acquire()
            return
        self.acquire()
        self._count = value


class SimLock(SimRLock):
    _reentrant = False


def install():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
