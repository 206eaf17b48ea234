"""Shims of threading, queue and time.

Nothing runs concurrently here: every operation is reported to the harness's monitor, ctx().ghost["conc"], which holds the
ghost state (what the other thread may have done meanwhile) and decides the outcome.
"""
import queue as _queue

from .core import *
from .core import ctx, unsup
from .shims import mod


class Op:
    """An object that reports to the monitor of the path on which it was made."""
    kind = ""

    def __init__(self):
        self._ctx = ctx()

    def tell(self, op, *a, **k):
        c = ctx()
        if c is None or c is not self._ctx:
            return None
        m = c.ghost.get("conc")
        if m is None or m.off:
            return None
        f = getattr(m, f"{self.kind}_{op}", None)
        if f is None:
            unsup(f"{self.kind}.{op}")
        return f(self, *a, **k)


class Event(Op):
    kind = "event"

    def __init__(self):
        super().__init__()
        self.flag = False

    def is_set(self):
        return self.tell("is_set") or False

    isSet = is_set

    def set(self):
        self.tell("set")

    def clear(self):
        self.tell("clear")

    def wait(self, timeout=None):
        return self.tell("wait", timeout)


class Thread(Op):
    kind = "thread"

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        super().__init__()
        self.target, self.args, self.kwargs, self.daemon, self.name = target, args, kwargs or {}, daemon, name
        self.state = "new"  # new, running, dead
        self.tell("new")

    def start(self):
        self.tell("start")

    def join(self, timeout=None):
        self.tell("join", timeout)

    def is_alive(self):
        return self.tell("is_alive") or False

    ident = property(lambda self: None if self.state == "new" else 1)


class Mutex:
    def __init__(self):
        self.held = 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()
        return False

    def acquire(self, blocking=True, timeout=-1):
        self.held += 1
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held -= 1

    def locked(self):
        return self.held > 0

    def notify(self, n=1):
        if not self.held:
            raise RuntimeError("cannot notify on un-acquired lock")

    def notify_all(self):
        self.notify()

    notifyAll = notify_all


class Shared(Mutex):
    """A condition of a queue: the queue's mutex by another name."""

    def __init__(self, mutex):
        self.m = mutex

    held = property(lambda self: self.m.held)

    def acquire(self, blocking=True, timeout=-1):
        return self.m.acquire()

    def release(self):
        self.m.release()


class Inside:
    """The deque inside a queue."""

    def __init__(self, q):
        self.q = q

    def append(self, x):
        self.q.tell("inside", "append", x)

    def clear(self):
        self.q.tell("inside", "clear", None)

    def popleft(self):
        return self.q.tell("inside", "popleft", None)

    def pop(self):
        return self.q.tell("inside", "pop", None)

    def appendleft(self, x):
        self.q.tell("inside", "appendleft", x)

    def __dv_len__(self):
        return self.q.tell("qsize")

    def __len__(self):
        unsup("len of the deque inside a queue")


class Queue(Op):
    kind = "queue"

    def __init__(self, maxsize=0):
        super().__init__()
        self.maxsize = maxsize
        self.mutex = Mutex()
        self.not_empty, self.not_full, self.all_tasks_done = Shared(self.mutex), Shared(self.mutex), Shared(self.mutex)
        self.queue = Inside(self)
        self.unfinished_tasks = 0
        self.tell("new")

    def get(self, block=True, timeout=None):
        return self.tell("get", block, timeout)

    def get_nowait(self):
        return self.tell("get", False, None)

    def put(self, item, block=True, timeout=None):
        return self.tell("put", item, block, timeout)

    def put_nowait(self, item):
        return self.tell("put", item, False, None)

    def qsize(self):
        return self.tell("qsize")

    def empty(self):
        return self.tell("empty")

    def full(self):
        return self.tell("full")

    def task_done(self):
        pass


class LifoQueue(Queue):
    def __init__(self, *a, **k):
        unsup("LifoQueue")


class PriorityQueue(LifoQueue):
    pass


def clock(*a):
    c = ctx()
    m = c.ghost.get("conc") if c is not None else None
    if c is None:
        return 0.0
    if m is None or not hasattr(m, "clock"):
        unsup("the clock")
    return m.clock()


def sleep(t):
    c = ctx()
    m = c.ghost.get("conc") if c is not None else None
    if m is None or not hasattr(m, "sleep"):
        unsup("time.sleep")
    m.sleep(t)


def shims():
    return {"threading": mod("threading", Thread=Thread, Event=Event, Lock=Mutex, RLock=Mutex, current_thread=lambda: None),
            "queue": mod("queue", Queue=Queue, LifoQueue=LifoQueue, PriorityQueue=PriorityQueue, Empty=_queue.Empty, Full=_queue.Full),
            "time": mod("time", time=clock, monotonic=clock, perf_counter=clock, sleep=sleep)}


class Monitor:
    """Nothing is expected: operations succeed trivially."""
    off = False

    def event_is_set(self, e): return e.flag
    def event_set(self, e): e.flag = True
    def event_clear(self, e): e.flag = False
    def queue_new(self, q): pass
    def thread_new(self, t): pass
    def thread_is_alive(self, t): return t.state == "running"

    def thread_start(self, t):
        if t.state != "new":
            raise RuntimeError("threads can only be started once")
        t.state = "running"

    def thread_join(self, t, timeout):
        if t.state == "new":
            raise RuntimeError("cannot join thread before it is started")
