"""Simulated locks, sleep, threads, clock and process number. Installed before the code under test is imported.

Outside of a running simulation the objects behave like uncontended ones.
"""
import datetime
import os
import sys
import threading
import time
import _thread

KERNEL = None  # the running kernel, if any
HELD = 0  # number of simulated locks that are held

real_allocate = _thread.allocate_lock
real_start = _thread.start_new_thread
real_ident = _thread.get_ident
real_time = time.time
real_gmtime, real_localtime, real_ctime = time.gmtime, time.localtime, time.ctime
real_date, real_datetime = datetime.date, datetime.datetime
real_monotonic = time.monotonic
real_sleep = time.sleep
real_getpid = os.getpid
PID = 4711  # number of the simulated process; a planned fork counts it up


class Deadlock(BaseException):
    """Raised in parked simulated threads to unwind them at the end of a run."""


class SimLock:
    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        r = self._acquire(blocking, timeout)
        if r:
            global HELD
            HELD += 1
        return r

    def _acquire(self, blocking=True, timeout=-1):
        k = KERNEL
        t = k.me() if k else None
        if t is None:
            if self.owner is not None:
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError("deadlock outside of simulation")
            self.owner = "main"
            return True
        while self.owner is not None:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                k.clock += timeout
                k.block(t, lambda: True)
                if self.owner is not None:
                    return False
                break
            k.block(t, lambda: self.owner is None)
        self.owner = t
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None
        global HELD
        HELD -= 1

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner = None


class SimRLock:
    def __init__(self):
        self.lock = SimLock()
        self.count = 0

    def _me(self):
        k = KERNEL
        return (k.me() if k else None) or "main"

    def acquire(self, blocking=True, timeout=-1):
        if self.lock.owner is not None and self.lock.owner == self._me():
            self.count += 1
            return True
        if self.lock.acquire(blocking, timeout):
            self.count = 1
            return True
        return False

    def release(self):
        if self.lock.owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.lock.owner == self._me()

    def _release_save(self):
        c, self.count = self.count, 0
        self.lock.release()
        return c

    def _acquire_restore(self, c):
        self.lock.acquire()
        self.count = c

    def _recursion_count(self):
        return self.count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self.lock.owner = None
        self.count = 0


def sim_sleep(s):
    k = KERNEL
    t = k.me() if k else None
    if t is None:
        return
    k.clock += s
    k.block(t, lambda: True)


def sim_now():
    """Monotonic clock."""
    k = KERNEL
    return 1.0e9 + (k.clock + k.steps * 1e-6 if k else 0.0)


def sim_wall():
    """Wall clock, which can be set forward and back."""
    k = KERNEL
    return sim_now() + (k.wall if k else 0.0)


def _ns(f):
    return lambda: int(f() * 1e9)


class SimDate(real_date):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(sim_wall())


class SimDatetime(real_datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(sim_wall(), tz)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(sim_wall())

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(sim_wall(), datetime.timezone.utc).replace(tzinfo=None)


def _now_default(f):
    return lambda s=None, *a: f(sim_wall() if s is None else s, *a)


class SimThread(threading.Thread):
    """threading.Thread whose execution is a simulated thread."""

    def start(self):
        k = KERNEL
        if k is None or k.me() is None:
            self._sim_done = False
            self.run()
            self._sim_done = True
            return
        self._sim_done = False

        def body():
            try:
                self.run()
            finally:
                self._sim_done = True

        k.spawn(body)

    def join(self, timeout=None):
        k = KERNEL
        t = k.me() if k else None
        if t is not None and not self._sim_done:
            if timeout is not None:
                k.clock += timeout
                k.block(t, lambda: True)
            else:
                k.block(t, lambda: self._sim_done)

    def is_alive(self):
        return not getattr(self, "_sim_done", True)


def install():
    os.getpid = lambda: PID
    os.getppid = lambda: PID - 1
    threading.Lock = threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock
    threading.Thread = SimThread
    time.sleep = sim_sleep
    time.time = sim_wall
    time.monotonic = time.perf_counter = time.process_time = time.thread_time = sim_now
    time.time_ns = _ns(sim_wall)
    time.monotonic_ns = time.perf_counter_ns = time.process_time_ns = time.thread_time_ns = _ns(sim_now)
    time.gmtime, time.localtime, time.ctime = map(_now_default, (real_gmtime, real_localtime, real_ctime))
    datetime.date = SimDate
    datetime.datetime = SimDatetime
    sys.modules.pop("queue", None)
    try:
        import queue

        queue.SimpleQueue = queue._PySimpleQueue
    except ImportError:
        pass
