"""Virtual threading and time, installed over the stdlib names before the agent is imported."""
import itertools
import random
import threading
import time

from . import core

REAL = {n: getattr(threading, n) for n in (
    "Thread", "Lock", "RLock", "Event", "Condition", "Semaphore", "BoundedSemaphore",
    "current_thread", "get_ident")}
REAL_SLEEP = time.sleep


class Hook(object):
    """Per execution switches (reset by World)."""
    thread_start_fault = None  # callable() -> bool: this Thread.start() fails


HOOK = Hook()


def _s():
    return core.S


def _me():
    s = core.S
    if s is None or s.current is None:
        return "hub"
    return s.current


def _wait(pred, timeout, why):
    """Block the calling task; outside of tasks a wait that cannot succeed is a harness error."""
    s = core.S
    if pred():
        return True
    if s is None or s.current is None:
        if timeout is not None:
            if s is not None:
                s.now += timeout
            return pred()
        raise core.Violation("deadlock: %s blocks for ever" % why)
    return s.block(pred, timeout, why)


def _point(why):
    s = core.S
    if s is not None:
        s.point(why)


class VLock(object):
    def __init__(self):
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        _point("lock.acquire")
        if self._owner is not None:
            if not blocking:
                return False
            ok = _wait(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout,
                       "Lock.acquire")
            if not ok:
                return False
        self._owner = _me()
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._owner = None
        _point("lock.release")

    def locked(self):
        _point("lock.locked")
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._owner = None


class VRLock(object):
    def _at_fork_reinit(self):
        self.__init__()

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _me()
        if self._owner is me:
            self._count += 1
            return True
        _point("rlock.acquire")
        if self._owner is not None:
            if not blocking:
                return False
            ok = _wait(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout,
                       "RLock.acquire")
            if not ok:
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is not _me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            _point("rlock.release")

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is _me()

    # for Condition
    def _release_save(self):
        state = self._count
        self._count = 0
        self._owner = None
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count = state


class VCondition(object):
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else VRLock()
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        w = [False]
        self._waiters.append(w)
        if hasattr(self._lock, "_release_save"):
            state = self._lock._release_save()
        else:
            self._lock.release()
            state = None
        ok = _wait(lambda: w[0], timeout, "Condition.wait")
        if w in self._waiters:
            self._waiters.remove(w)
        if state is not None:
            self._lock._acquire_restore(state)
        else:
            self._lock.acquire()
        return ok

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else core.S.now + timeout
        r = predicate()
        while not r:
            left = None
            if end is not None:
                left = end - core.S.now
                if left <= 0:
                    break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        for w in self._waiters[:n]:
            w[0] = True
            self._waiters.remove(w)
        _point("notify")

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class VEvent(object):
    def __init__(self):
        self._flag = False

    def is_set(self):
        _point("event.is_set")
        return self._flag

    isSet = is_set

    def set(self):
        _point("event.set")
        self._flag = True

    def clear(self):
        _point("event.clear")
        self._flag = False

    def wait(self, timeout=None):
        _point("event.wait")
        return bool(_wait(lambda: self._flag, timeout, "Event.wait"))


class VSemaphore(object):
    def __init__(self, value=1):
        if value < 0:
            raise ValueError("semaphore initial value must be >= 0")
        self._value = value
        self._initial = None

    def acquire(self, blocking=True, timeout=None):
        _point("sem.acquire")
        if self._value <= 0:
            if not blocking:
                return False
            if not _wait(lambda: self._value > 0, timeout, "Semaphore.acquire"):
                return False
        self._value -= 1
        return True

    def release(self, n=1):
        self._value += n
        if self._initial is not None and self._value > self._initial:
            raise ValueError("Semaphore released too many times")
        _point("sem.release")

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class VBoundedSemaphore(VSemaphore):
    def __init__(self, value=1):
        VSemaphore.__init__(self, value)
        self._initial = value


_names = itertools.count(1)


class VThread(object):
    """threading.Thread over scheduler tasks."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.name = str(name or "Thread")
        self.daemon = bool(daemon)
        self._task = None
        self._mc_init = True

    def start(self):
        if not getattr(self, "_mc_init", False):
            raise RuntimeError("thread.__init__() not called")
        if self._task is not None:
            raise RuntimeError("threads can only be started once")
        s = core.S
        if s is None:
            # constructed outside of an execution: never runs
            return
        if HOOK.thread_start_fault is not None and HOOK.thread_start_fault(self):
            raise RuntimeError("can't start new thread")
        self._task = s.spawn(self.run, type(self).__name__, kind="agent")
        s.point("thread.start")

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def is_alive(self):
        return self._task is not None and not self._task.done

    isAlive = is_alive

    def join(self, timeout=None):
        if self._task is None:
            raise RuntimeError("cannot join thread before it is started")
        if self._task is _me():
            raise RuntimeError("cannot join current thread")
        _point("join")
        _wait(lambda: self._task.done, timeout, "Thread.join")

    @property
    def ident(self):
        return None if self._task is None else self._task.id + 1

    native_id = ident

    def setDaemon(self, d):
        self.daemon = d

    def isDaemon(self):
        return self.daemon

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n


class VTimer(VThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        VThread.__init__(self)
        self.interval = interval
        self.function = function
        self.args = args or []
        self.kwargs = kwargs or {}
        self.finished = VEvent()

    def cancel(self):
        self.finished.set()

    def run(self):
        if not self.finished.wait(self.interval):
            self.function(*self.args, **self.kwargs)
        self.finished.set()


def v_time():
    s = core.S
    if s is None:
        return core.START_TIME
    s.now += 1e-6  # time never stands still
    on_time = getattr(s, "on_time", None)
    if on_time is not None:
        on_time()
    now = s.now + s.clock_offset if hasattr(s, "clock_offset") else s.now
    grain = getattr(s, "grain", None)  # a clock that ticks slowly
    return now // grain * grain if grain else now


def v_monotonic():
    s = core.S
    if s is None:
        return 1000.0
    s.now += 1e-6
    return s.now - core.START_TIME + 1000.0


def v_sleep(seconds):
    s = core.S
    if s is None:
        return
    s.sleep(seconds)


def v_random():
    return 0.5


def install():
    for name, v in (("Thread", VThread), ("Lock", VLock), ("RLock", VRLock), ("Event", VEvent),
                    ("Condition", VCondition), ("Semaphore", VSemaphore),
                    ("BoundedSemaphore", VBoundedSemaphore), ("Timer", VTimer)):
        setattr(threading, name, v)
    time.time = v_time
    time.monotonic = v_monotonic
    time.perf_counter = v_monotonic
    time.sleep = v_sleep
    random.random = v_random
