"""Locks made by the code under test yield to the simulator instead of blocking the process."""
import functools
import threading
import _thread

real_allocate = _thread.allocate_lock
ALONE = False  # a simulated run: no threads but the simulator's


class Deadlock(BaseException):
    pass


CURRENT = None  # the running sched.Sim, if any


class SimLock:
    def __init__(self):
        self._lock = real_allocate()

    def acquire(self, blocking=True, timeout=-1):
        if self._lock.acquire(False):
            return True
        if not blocking:
            return False
        sim = CURRENT
        if sim is None and ALONE:
            # one thread, and nobody left to give the lock back
            if timeout is not None and timeout >= 0:
                return False
            raise Deadlock("a lock nobody will release is waited for")
        if sim is None or not sim.is_sim_thread():
            return self._lock.acquire(blocking, timeout)
        patience = 1000 if timeout is not None and timeout >= 0 else None
        while not self._lock.acquire(False):
            if not sim.wait_for_lock(self):
                if patience is not None:
                    return False
                sim.deadlock()
            if patience is not None:
                patience -= 1
                if patience <= 0:
                    return False
        return True

    def release(self):
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._lock = real_allocate()


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _at_fork_reinit(self):
        self.__init__()


def install():
    """Locks created from here on (by the code under test) are the simulator's."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    functools.RLock = SimRLock
