"""Controlled scheduler for the Python parts: the threads of the code under test run one at a time, and the explorer
decides at every source line of the files under test (and at every lock, wait, sleep and thread start) which continues.

install() replaces threading's primitives and time.sleep before the code under test is imported. Time is virtual: a
sleeper continues when nobody else can, or as a pre-emption.
"""
import sys
import threading
import time
from _thread import allocate_lock, get_ident, start_new_thread

import mc


class Abort(BaseException):
    """Unwinds a task once the execution is over."""


class Task:
    def __init__(self, fn, name, n):
        self.fn, self.name, self.n = fn, name, n
        self.baton = allocate_lock()
        self.baton.acquire()
        self.pred = None      # blocked until this holds
        self.wake = None      # or (if set) until this virtual time
        self.timed_out = False
        self.done = False
        self.exc = None
        self.daemon = False


current = None  # the scheduler of this execution


class Sched:
    def __init__(self, run, preemptions, files=(), opcodes=False, max_steps=4000, idle_limit=60):
        global current
        self.run, self.preemptions, self.files, self.opcodes = run, preemptions, set(files), opcodes
        self.tasks = []
        self.cur = None
        self.now = 1000.0
        self.aborting = False
        self.failure = None
        self.control = allocate_lock()
        self.control.acquire()
        self.steps, self.max_steps = 0, max_steps
        self.idle, self.idle_limit = 0, idle_limit
        self.clock_events = 0
        self.idents = {}
        current = self

    # ----- scenario side
    def spawn(self, fn, name):
        t = Task(fn, name, len(self.tasks))
        self.tasks.append(t)
        start_new_thread(self._body, (t,))
        return t

    def go(self):
        """Runs all tasks until they are done. Re-raises a violation found on the way."""
        global current
        try:
            self._next(None)
            self.control.acquire()
            self._abort_rest()
        finally:
            current = None
        if self.failure is not None:
            raise self.failure
        self.run.step(self.steps)

    def _abort_rest(self):
        self.aborting = True
        for t in self.tasks:
            if not t.done:
                self.cur = t
                t.baton.release()
                self.control.acquire()

    def blocked(self):
        return [t.name for t in self.tasks if not t.done]

    # ----- task side
    def _body(self, t):
        t.baton.acquire()
        self.idents[get_ident()] = t
        try:
            if self.aborting:
                return
            if self.files:
                sys.settrace(self._trace)
            t.fn()
        except Abort:
            pass
        except (mc.Violation, mc.HarnessError, mc.Prune, mc.Cut) as e:
            if self.failure is None:
                self.failure = e
        except BaseException as e:
            t.exc = e
        finally:
            sys.settrace(None)
            self.idents.pop(get_ident(), None)
            t.done = True
            if self.aborting or self.failure is not None:
                self.aborting = True
                self.control.release()
            else:
                try:
                    self._next(None)
                except BaseException as e:
                    if self.failure is None and not isinstance(e, Abort):
                        self.failure = e
                    self.control.release()

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename not in self.files:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.point(frame)
        return self._local

    def me(self):
        return self.idents.get(get_ident())

    def point(self, what=None):
        t = self.me()
        if t is None:
            return
        if self.aborting:
            raise Abort()
        self.steps += 1
        if self.steps > self.max_steps:
            self._violate(f"no end after {self.max_steps} steps; waiting: {self.blocked()}")
        self._next(t)

    def _violate(self, msg):
        self.failure = mc.Violation(msg)
        self.aborting = True
        raise self.failure

    def _enabled(self, t):
        return not t.done and (t.pred is None and t.wake is None or t.pred is not None and t.pred())

    def _next(self, t):
        """Chooses who continues; returns when t may continue (at once when t is None and somebody was started)."""
        ready = [x for x in self.tasks if x is not t and self._enabled(x)]
        sleepers = [x for x in self.tasks if x is not t and not x.done and x.wake is not None and x not in ready]
        if t is not None and self._enabled(t):
            opts = [t] + ready + sleepers
            c = self.run.deviate(len(opts), self.preemptions, "pre-emption") if len(opts) > 1 else 0
        elif ready:
            k = self.run.deviate(1 + len(sleepers), self.preemptions, "pre-emption") if sleepers else 0
            opts = sleepers if k else ready
            c = k - 1 if k else self.run.choose(len(ready), "next")
        else:
            if t is not None and not t.done and t.wake is not None:
                sleepers.append(t)
            if not sleepers:
                if t is None and all(x.done for x in self.tasks):
                    self.control.release()
                    return
                if all(x.done or x.daemon for x in self.tasks):
                    self.control.release()
                    if t is not None:
                        t.baton.acquire()
                        raise Abort()
                    return
                self._violate(f"no thread can continue; waiting: {self.blocked()}")
            sleepers.sort(key=lambda x: (x.wake, x.n))
            opts, c = sleepers, 0
            self.idle += 1
            if self.idle > self.idle_limit:
                self._violate(f"nothing more happens; still waiting: {self.blocked()}")
        n = opts[c]
        if not self._enabled(n):  # woken by time
            self.now = max(self.now, n.wake)
            n.timed_out = True
        else:
            n.timed_out = False
        n.pred = n.wake = None
        if n is t:
            return
        self.cur = n
        n.baton.release()
        if t is not None:
            t.baton.acquire()
            if self.aborting:
                raise Abort()

    def wait(self, pred, timeout=None):
        """Blocks the calling task until pred() holds; returns False on time-out."""
        t = self.me()
        if self.aborting:
            raise Abort()
        self.steps += 1
        if self.steps > self.max_steps:
            self._violate(f"no end after {self.max_steps} steps; waiting: {self.blocked()}")
        t.pred = pred
        t.wake = None if timeout is None or timeout < 0 else self.now + timeout
        self._next(t)
        return not t.timed_out

    def progress(self):
        self.idle = 0

    def sleep(self, d):
        t = self.me()
        if self.aborting:
            raise Abort()
        self.steps += 1
        if self.steps > self.max_steps:
            self._violate(f"no end after {self.max_steps} steps; waiting: {self.blocked()}")
        t.pred, t.wake = None, self.now + max(0, d)
        self._next(t)


def here():
    """(scheduler, task) of the calling thread, or (None, None)."""
    s = current
    t = s.me() if s else None
    return (s, t) if t else (None, None)


class Lock:
    def __init__(self):
        self.held = False
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        s, t = here()
        if not s:
            if self.held:
                raise mc.Violation("a lock is taken twice by the only thread: it would wait for ever")
            self.held = True
            return True
        s.point()
        if not self.held:
            self.held, self.owner = True, t
            return True
        if not blocking or timeout == 0:
            return False
        if not s.wait(lambda: not self.held, None if timeout is None or timeout < 0 else timeout):
            return False
        self.held, self.owner = True, t
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held, self.owner = False, None
        s, t = here()
        if s and not s.aborting:
            s.point()

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLock:
    def __init__(self):
        self.count, self.owner = 0, None

    def acquire(self, blocking=True, timeout=-1):
        s, t = here()
        if not s:
            self.count += 1
            return True
        s.point()
        if self.count and self.owner is not t:
            if not blocking or timeout == 0:
                return False
            if not s.wait(lambda: not self.count, None if timeout is None or timeout < 0 else timeout):
                return False
        self.count += 1
        self.owner = t
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        s, t = here()
        if self.count == 0:
            self.owner = None
            if s and not s.aborting:
                s.point()

    def _is_owned(self):
        return self.count > 0 and self.owner is here()[1]

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Condition:
    def __init__(self, lock=None):
        self.lock = lock or RLock()
        self.waiters = []
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        s, t = here()
        if not s:
            raise mc.Violation("waits on a condition nobody will signal")
        ticket = [False]
        self.waiters.append(ticket)
        n = getattr(self.lock, "count", 1)
        for _ in range(n):
            self.lock.release()
        ok = s.wait(lambda: ticket[0], timeout)
        if ticket in self.waiters:
            self.waiters.remove(ticket)
        for _ in range(n):
            self.lock.acquire()
        return ok

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            if not self.wait(timeout):
                return predicate()
            r = predicate()
        return r

    def notify(self, n=1):
        for w in self.waiters[:n]:
            w[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class Event:
    def __init__(self):
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True
        s, t = here()
        if s and not s.aborting:
            s.point()

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        s, t = here()
        if self.flag:
            return True
        if not s:
            raise mc.Violation("waits for an event nobody will set")
        s.wait(lambda: self.flag, timeout)
        return self.flag


class Semaphore:
    def __init__(self, value=1):
        self.value = value

    def acquire(self, blocking=True, timeout=None):
        s, t = here()
        if s:
            s.point()
        if self.value <= 0:
            if not blocking:
                return False
            if not s or not s.wait(lambda: self.value > 0, timeout):
                return False
        self.value -= 1
        return True

    def release(self, n=1):
        self.value += n

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class Thread:
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, dict(kwargs or {})
        self.name = name or "thread"
        self.daemon = bool(daemon)
        self._task = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s, t = here()
        if not s:
            raise mc.HarnessError("a thread was started outside the scheduler")
        if self._task:
            raise RuntimeError("threads can only be started once")
        self._task = s.spawn(self.run, self.name)
        self._task.daemon = self.daemon
        self._task.child = True
        s.point()

    def is_alive(self):
        return self._task is not None and not self._task.done

    def join(self, timeout=None):
        s, t = here()
        if self._task is None:
            raise RuntimeError("cannot join thread before it is started")
        if self._task is t:
            raise RuntimeError("cannot join current thread")
        if not s or self._task.done:
            if not self._task.done:
                raise mc.Violation("joins a thread that does not end")
            return
        s.wait(lambda: self._task.done, timeout)

    @property
    def ident(self):
        return self._task and self._task.n

    def setDaemon(self, d):
        self.daemon = d


real_sleep = time.sleep
real_time, real_monotonic = time.time, time.monotonic


def sleep(d):
    s, t = here()
    if s:
        s.sleep(d)


def now():
    s = current
    return s.now if s else 1000.0


def install():
    threading.Lock, threading.RLock, threading.Condition = Lock, RLock, Condition
    threading.Event, threading.Semaphore, threading.Thread = Event, Semaphore, Thread
    threading.BoundedSemaphore = Semaphore
    time.sleep = sleep
    time.time = time.monotonic = time.perf_counter = now
