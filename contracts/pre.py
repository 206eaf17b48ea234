"""Prefetching, verified thread-modularly: shared by C09, C10 and C11.

The queue is a FIFO (assumed).  Each side is proved against a monitor holding the ghost state:
- the worker puts exactly the batches that the wrapped scheduler produces, in order, then the end-of-stream signal once;
- the consumer side takes exactly one item per batch served, and exactly the rest of the episode when it is abandoned.
So the k-th item taken is the k-th batch produced.  Neither side touches the other's state.
"""
import queue

from contracts.common import *
from dv.conc import Monitor

MOD = "scheduler.prefetch.PrefetchingFlowFieldScheduler."


class World:
    pass


def world(L, episodic, mon=None):
    w = World()
    w.mod = L.load("synthpix.scheduler.prefetch")
    w.T, w.P = L.load("synthpix.types"), L.load("synthpix.scheduler.protocol")
    w.B, w.L, w.cap = Int("batch_size", 1), Int("episode_length", 1), Int("buffer_size", 1)
    w.startup, w.steady = Real("startup_timeout"), Real("steady_timeout")
    assume(and_(w.startup > 0, w.steady > 0))
    w.episodic = episodic
    w.mon = mon or Setup()
    w.mon.w = w
    ctx().ghost["conc"] = w.mon
    w.base = base(w, episodic)
    w.queues, w.threads = [], []
    e, w.s = raises(lambda: w.mod.PrefetchingFlowFieldScheduler(
        w.base, w.B, buffer_size=w.cap, startup_timeout=w.startup, steady_state_timeout=w.steady))
    if e is not None:
        prove(False, "construction succeeds")
        return None
    prove(not any(t.state == "running" for t in w.threads), "ensures no thread is started before it is needed")
    return w


def base(w, episodic):
    """The wrapped scheduler: its calls are reported to the monitor."""
    class Base:
        file_list = ()

        def get_batch(self, batch_size):
            return w.mon.produce(batch_size)

        def get_flow_fields_shape(self):
            return (2, 2, 2)

        def reset(self):
            w.mon.base_reset()

        def shutdown(self):
            w.mon.base_shutdown()
    if not episodic:
        return Base()

    class EBase(Base):
        def steps_remaining(self):
            unsup("steps_remaining of the wrapped scheduler, which runs ahead")

        def next_episode(self):
            w.mon.base_next_episode()

        @property
        def episode_length(self):
            return w.L
    return EBase()


def token(w):
    return w.T.SchedulerData(flow_fields=SArr((w.B, 2, 2, 2), lambda *i: SReal(z3.RealVal(0))))


class Mon(Monitor):
    """Common parts: queues and threads made are listed; nothing else is expected."""

    def __init__(self):
        self.now = None

    def queue_new(self, q):
        self.w.queues.append(q)

    def thread_new(self, t):
        self.w.threads.append(t)

    def no(self, what):
        prove(False, f"never {what}")

    def produce(self, n): self.no("fetches a batch of the wrapped scheduler from the consumer's side")
    def base_reset(self): self.no("resets the wrapped scheduler here")
    def base_shutdown(self): pass
    def base_next_episode(self): self.no("advances the wrapped scheduler, which runs ahead, here")
    def queue_put(self, q, item, block, timeout): self.no("puts an item from the consumer's side")
    def queue_inside(self, q, op, x): self.no("changes the queue's content here")

    def queue_qsize(self, q):
        return fresh_int("queue_size", 0)

    def queue_empty(self, q):
        return bool(ctx().choose(2, "empty"))

    def queue_full(self, q):
        return bool(ctx().choose(2, "full"))

    def clock(self):
        t = SReal(z3.Real(ctx().fresh("clock")))
        if self.now is not None:
            assume(t >= self.now)
        self.now = t
        return t

    def sleep(self, d):
        t0 = self.now if self.now is not None else self.clock()
        assume(self.clock() >= t0 + d)


class Setup(Mon):
    """While the object is being brought to a state: one batch is served."""

    def queue_get(self, q, block, timeout):
        return token(self.w)


def thread_of(w):
    """The thread that the scheduler starts."""
    if not w.threads:
        e, _ = raises(w.s.get_batch, w.B)
    if len(w.threads) != 1:
        unsup("not exactly one thread")
    return w.threads[0]


def counter(w):
    """The attribute that counts the batches served in this episode."""
    b = dict(w.s.__dict__)
    e, _ = raises(w.s.get_batch, w.B)
    if e is not None:
        prove(False, "ensures a batch is served")
        return None
    ks = [k for k, v in w.s.__dict__.items() if type(v) in (int, SInt) and k in b and b[k] is not v and type(b[k]) is int and b[k] == 0
          and ctx().check(eq(v, 1))]
    if len(ks) != 1:
        unsup("the step counter is kept differently")
    return ks[0]


# ------------------------------------------------------------------ the worker
class Worker(Mon):
    """Ghost state of the producer: batches obtained and not yet put, and what has ended."""

    def __init__(self):
        super().__init__()
        self.held, self.ended, self.eos, self.over = [], False, 0, False
        self.waits = 1
        self.stopping = False  # the stop event was seen, or set by the worker itself
        self.seen = False
        self.step = None

    def state(self):
        return list(self.held), self.ended, self.eos, self.over

    def event_is_set(self, e):
        if self.stopping:
            return True
        if ctx().choose(2, "stop"):
            self.stopping = self.seen = True
            return True
        self.waits = 0
        return False

    def event_set(self, e):
        self.stopping = True

    def event_clear(self, e):
        self.no("clears the stop request in the worker")

    def produce(self, n):
        w = self.w
        prove(eq(n, w.B), "the worker asks for batches of the given size")
        prove(not self.ended, "the worker asks for nothing after the end")
        if w.episodic:
            if self.step is None:
                self.fresh_step()
            if bool(self.step >= w.L):
                self.over = True
                raise w.P.EpisodeEnd
        if ctx().choose(2, "end"):
            self.ended = True
            raise StopIteration
        if w.episodic:
            self.step = self.step + 1
        b = token(w)
        self.held.append(b)
        return b

    def fresh_step(self):
        self.step = fresh_int("step", 0)
        assume(self.step <= self.w.L)

    def base_next_episode(self):
        if self.step is None:
            self.fresh_step()
        prove(self.step >= self.w.L, "the worker starts a new episode only when the previous one is produced")
        self.step = 0
        self.over = False

    def queue_put(self, q, item, block, timeout):
        if not self.stopping or self.seen:
            prove(q is self.w.queues[-1], "the worker fills the queue that is read")
        if block and timeout is None:
            self.waits += 1
            prove(self.waits <= 1, "the worker looks for a stop request before each unbounded wait")
        elif ctx().choose(2, "full"):
            raise queue.Full
        self.put(item)

    def queue_inside(self, q, op, x):
        prove(q.mutex.locked(), "the queue's content is touched under its mutex only")
        prove(op == "append", "the worker only appends to the queue")
        if op == "append":
            self.put(x)

    def queue_get(self, q, block, timeout):
        self.no("takes an item out of the queue in the worker")
        raise queue.Empty

    def put(self, item):
        if item is None:
            prove(self.ended, "the end of the stream is signalled only at the end")
            prove(not self.held, "the end of the stream is signalled after every batch")
            self.eos += 1
            prove(self.eos == 1, "the end of the stream is signalled once")
            return
        prove(bool(self.held) and item is self.held[0], "the worker puts exactly the next batch produced")
        prove(self.eos == 0, "no batch follows the end of the stream")
        if self.held:
            self.held.pop(0)

    def thread_start(self, t):
        self.no("starts a thread in the worker")


class WorkerLoop(LoopSpec):
    """Invariant: nothing is held back, and the stream goes on."""

    def __init__(self, m, s):
        self.m, self.s = m, s

    def entry(self, loop, env):
        self.at = self.m.state()
        self.attrs = dict(self.s.__dict__)

    def preserved(self, loop, env):
        m = self.m
        same = len(m.held) == len(self.at[0]) and all(a is b for a, b in zip(m.held, self.at[0]))
        prove(same, "each iteration puts every batch it has produced")
        prove(m.ended == self.at[1] and m.eos == self.at[2], "the worker stops at the end of the stream")
        prove(m.over == self.at[3], "a new episode is started when the previous one has been produced")
        untouched(self.s, self.attrs)

    def assume(self, loop, env):
        m = self.m
        m.waits = 1
        m.step = None
        m.stopping = m.stopping and ctx().choose(1, "stopping") == 0


def untouched(s, attrs):
    for k, v in attrs.items():
        prove(s.__dict__.get(k, None) is v, f"the worker leaves the consumer's state alone ({k})")


def worker(L, episodic):
    w = world(L, episodic)
    if w is None:
        return
    t = thread_of(w)
    s = w.s
    m = w.mon = Worker()
    m.w = w
    ctx().ghost["conc"] = m
    if t.target is None:
        unsup("a thread without target")
    attrs = dict(s.__dict__)
    ctx().ghost["loop_specs"] = [lambda lp: WorkerLoop(m, s) if lp.kind == "while" else None]
    e, _ = raises(lambda: t.target(*t.args, **t.kwargs))
    prove(e is None, "ensures the worker raises nothing" + (f" ({type(e).__name__})" if e is not None else ""))
    if m.ended:
        prove(m.eos == 1 or m.seen, "ensures the end of the stream is signalled")
    else:
        prove(m.seen, "ensures the worker runs until the end of the stream or a stop request")
    prove(not m.held or m.seen, "ensures no batch is dropped")
    untouched(s, attrs)
    m.off = True


# ------------------------------------------------------------------ the consumer
class Consumer(Mon):
    """Ghost state of the consumer: c items taken; item number c is the next one."""

    def __init__(self, limit=None):
        super().__init__()
        self.ended = False  # the end-of-stream signal was taken
        self.timed_out = False
        self.taken = []
        self.due = None  # the time that the consumer is to wait at least
        self.limit = limit  # an operation is to finish before this much time has passed
        self.start = None

    def event_set(self, e): self.no("requests a stop here")
    def event_clear(self, e): self.no("takes back a stop request here")
    def event_is_set(self, e): return False

    def tick(self, least=None):
        if self.now is None:
            self.start = self.now = SReal(z3.Real(ctx().fresh("clock")))
        t = SReal(z3.Real(ctx().fresh("clock")))
        assume(t >= (self.now if least is None else self.now + least))
        if self.limit is not None:
            assume(t < self.start + self.limit)
        self.now = t
        return t

    clock = tick

    def sleep(self, d):
        self.tick(d)

    def queue_get(self, q, block, timeout):
        w = self.w
        prove(q is w.queues[-1], "the consumer reads the queue that is filled")
        prove(any(t.state == "running" for t in w.threads), "the consumer waits only when the thread was started")
        if block and timeout is not None:
            if bool(timeout < 0):
                raise ValueError("'timeout' must be a non-negative number")
        k = 2 if self.ended else ctx().choose(3, "outcome")
        if k == 2:
            if block and timeout is None:
                if self.ended:
                    prove(False, "the consumer does not wait for ever after the end of the stream")
                raise PathStop
            if block:
                self.tick(timeout)
                if self.due is None or ctx().check(timeout >= self.due):
                    self.timed_out = True
            raise queue.Empty
        self.tick()
        if k == 1:
            self.ended = True
            return None
        b = token(w)
        self.taken.append(b)
        return b


from dv.core import PathEnd as PathStop


def consumer(w, limit=None):
    m = w.mon = Consumer(limit)
    m.w = w
    ctx().ghost["conc"] = m
    return m


def serve(L, episodic):
    """get_batch at any point."""
    w = world(L, episodic)
    if w is None:
        return
    fresh = bool(ctx().choose(2, "fresh"))
    t = 0
    name = None
    if not fresh:
        name = counter(w)
        if name is None:
            return
        if episodic:
            t = Int("served", 0)
            assume(t <= w.L)
            setattr(w.s, name, t)
        else:
            setattr(w.s, name, Int("served", 1))
    m = consumer(w)
    m.due = w.startup if fresh else w.steady
    rem = (lambda k: w.L - k) if episodic else (lambda k: 1)
    before = w.s.steps_remaining()
    prove(eq(before, rem(t)), "ensures steps_remaining counts the batches served")
    n = Int("requested", 1)
    e, got = raises(w.s.get_batch, n)
    m.off = True
    running = [x for x in w.threads if x.state == "running"]
    if e is None:
        prove(eq(n, w.B), "ensures a request of another size is rejected")
        if episodic:
            prove(t < w.L, "ensures EpisodeEnd after episode_length batches")
        prove(len(m.taken) == 1 and got is m.taken[0], "ensures exactly the next batch, unaltered")
        prove(eq(w.s.steps_remaining(), rem(t + 1)), "ensures one step fewer remains")
        prove(len(running) == 1, "ensures one thread")
        return
    prove(not m.taken, "ensures no batch is lost")
    if type(e) is ValueError:
        prove(not_(eq(n, w.B)), "ensures ValueError only for another size")
        prove(not m.ended and not m.timed_out, "ensures a refused request takes nothing")
        prove(not fresh or not running, "ensures a refused request starts nothing")
    elif isinstance(e, w.P.EpisodeEnd):
        if not episodic:
            prove(False, "raises EpisodeEnd only over an episodic scheduler")
        else:
            prove(t >= w.L, "ensures EpisodeEnd only when the episode is over")
            prove(eq(n, w.B), "ensures ValueError for another size")
        prove(not m.ended and not m.timed_out, "ensures EpisodeEnd takes nothing")
    elif type(e) is StopIteration:
        prove(m.ended or m.timed_out, "ensures StopIteration only at the end of the stream, or when no batch came within the timeout")
        prove(eq(n, w.B), "ensures ValueError for another size")
        if episodic:
            prove(t < w.L, "ensures EpisodeEnd when the episode is over")
    else:
        prove(False, f"raises nothing else ({type(e).__name__})")
    prove(eq(w.s.steps_remaining(), rem(t)), "ensures no step is counted when none is served")


class Discard(LoopSpec):
    """Invariant: as many items were taken as counted."""

    def __init__(self, m, rest):
        self.m, self.rest = m, rest

    def entry(self, loop, env):
        prove(self.rest >= 0, "there is no more to skip than the episode")
        self.n0 = len(self.m.taken)
        if self.n0:
            unsup("items are taken before the loop")
        self.modes = {}
        self.old = {}

    def havoc(self, loop, name, v):
        if not hasattr(self, "k"):
            self.k = fresh_int("discarded", 0)
        if type(v) in (int, SInt):
            self.old[name] = v
            up = type(v) is int and v == 0
            self.modes[name] = up
            return v + self.k if up else v - self.k
        return havoc_value(name, v)

    def assume(self, loop, env):
        if not hasattr(self, "k"):
            self.k = fresh_int("discarded", 0)
        if loop.kind == "for":
            assume(eq(loop.i, self.k))
        assume(self.k <= self.rest)
        self.m.extra = self.k
        if self.m.now is not None:
            self.m.tick()

    def preserved(self, loop, env):
        if self.m.ended:
            prove(False, "nothing is awaited after the end of the stream")
            return
        d = len(self.m.taken) - self.n0
        if loop.kind == "for":
            prove(d == 1, "each iteration takes one item")
        prove(self.k + d <= self.rest, "nothing beyond the episode is skipped")
        for name, up in self.modes.items():
            v = env.get(name) if "." not in name else getattr(env[name.split(".")[0]], name.split(".")[1])
            k = self.k + d
            if not ctx().check(eq(v, self.old[name] + k if up else self.old[name] - k)):
                unsup("the items discarded are counted differently")


def abandon(L):
    """next_episode at any point of an episode."""
    w = world(L, True)
    if w is None:
        return
    fresh = bool(ctx().choose(2, "fresh"))
    t = 0
    if not fresh:
        name = counter(w)
        if name is None:
            return
        t = Int("served", 0)
        assume(t <= w.L)
        setattr(w.s, name, t)
    m = consumer(w, limit=SReal(z3.RealVal(2)))
    m.extra = 0
    ctx().ghost["loop_specs"] = [lambda lp: Discard(m, w.L - t) if lp.kind == "while" or lp.it is not None else None]
    e, _ = raises(w.s.next_episode)
    m.off = True
    if e is not None:
        prove(False, f"ensures next_episode does not fail ({type(e).__name__})")
        return
    n = m.extra + len(m.taken)
    if not m.ended:
        if fresh:
            prove(eq(n, 0), "ensures nothing is skipped before the first episode")
        else:
            prove(eq(n, w.L - t), "ensures exactly the rest of the episode is skipped")
    prove(eq(w.s.steps_remaining(), w.L), "ensures all steps of the new episode remain")
    prove(sum(x.state == "running" for x in w.threads) <= 1, "ensures one thread")


# ------------------------------------------------------------------ reset and shutdown
class Control(Mon):
    """Ghost state at reset and shutdown: is the thread alive, may it wait for a free slot, do queues hold old items."""

    def __init__(self):
        super().__init__()
        self.stop = {}  # event: set by the consumer's side
        self.freed = 0  # slots freed and not taken since the stop request
        self.log = []
        self.emptied = set()
        self.dead = False

    def event_is_set(self, e): return e.flag
    def event_set(self, e):
        if not e.flag:
            self.freed = 0
        e.flag = True

    def event_clear(self, e):
        prove(not self.alive(), "the stop request stands until the thread has ended")
        e.flag = False

    def alive(self):
        return any(t.state == "running" for t in self.w.threads)

    def stopped(self):
        return any(e.flag for e in self.events())

    def events(self):
        from dv.conc import Event
        return [v for v in self.w.s.__dict__.values() if isinstance(v, Event)]

    def thread_is_alive(self, t):
        if t.state == "running" and not self.known_alive and self.finished():
            t.state = "dead"
        return t.state == "running"

    known_alive = False

    def finished(self):
        return bool(ctx().choose(2, "finished"))

    def queue_get(self, q, block, timeout):
        prove(not block or timeout is not None, "never waits without bound for an item")
        if q in self.emptied and not self.alive():
            raise queue.Empty
        if ctx().choose(2, "empty"):
            self.freed += 1
            if not self.alive():
                self.emptied.add(q)
            raise queue.Empty
        self.freed += 1
        return token(self.w)

    def queue_put(self, q, item, block, timeout):
        prove(item is None, "puts no batch from the consumer's side")
        if block and timeout is None:
            prove(False, "never waits without bound for a free slot")
        if ctx().choose(2, "full"):
            raise queue.Full
        self.freed -= 1
        self.emptied.discard(q)

    def queue_new(self, q):
        super().queue_new(q)
        self.emptied.add(q)

    def queue_inside(self, q, op, x):
        prove(q.mutex.locked(), "the queue's content is touched under its mutex only")
        if op == "clear":
            if not self.alive():
                self.emptied.add(q)
            return
        unsup("the queue's content")

    def thread_join(self, t, timeout):
        if t.state == "new":
            raise RuntimeError("cannot join thread before it is started")
        if t.state == "running":
            prove(self.stopped(), "the thread is told to stop before it is waited for")
            prove(self.freed >= 1, "the thread finds a free slot after it is told to stop, before it is waited for")
            prove(t.daemon is True or timeout is not None or self.stopped(), "waits for a thread that ends")
            t.state = "dead"

    def base_reset(self):
        prove(not self.alive(), "the wrapped scheduler is reset only after the thread has ended")
        self.log.append("reset")

    def produce(self, n):
        return super().produce(n)


def controls(L, episodic, ops):
    w = world(L, episodic)
    if w is None:
        return
    started = bool(ctx().choose(2, "started"))
    if started:
        name = counter(w)
        if name is None:
            return
        setattr(w.s, name, Int("served", 1))
        if episodic:
            assume(getattr(w.s, name) <= w.L)
    m = w.mon = Control()
    m.w = w
    ctx().ghost["conc"] = m
    if not started:
        m.emptied |= set(w.queues)
    for op in ops:
        n0 = len(m.log)
        st0 = [t for t in w.threads if t.state != "new"]
        if op == "get_batch":
            after_reset(w, m, episodic)
            m = w.mon = Control()
            m.w = w
            m.known_alive = True
            ctx().ghost["conc"] = m
            continue
        e, _ = raises(getattr(w.s, op))
        if e is not None:
            prove(False, f"ensures {op} does not fail ({type(e).__name__})")
            return
        prove(not m.alive(), f"ensures {op} stops the thread")
        prove([t for t in w.threads if t.state != "new"] == st0, f"ensures {op} starts no thread")
        prove(w.s.is_running() is False, f"ensures is_running after {op}")
        if op == "reset":
            prove(m.log[n0:] == ["reset"], "ensures reset resets the wrapped scheduler once")
        else:
            prove(m.log[n0:] == [], "ensures shutdown leaves the wrapped scheduler's position alone")
    if ops[-1] == "reset":
        after_reset(w, m, episodic)
    m.off = True
    w.mon.off = True


def after_reset(w, m, episodic):
    """The scheduler behaves as a new one."""
    s = w.s
    prove(eq(s.steps_remaining(), w.L if episodic else 1), "ensures all counters start afresh")
    prove(not any(e.flag for e in m.events()), "ensures no stop request is left for the new thread")
    emptied, n0 = set(m.emptied), len(w.threads)
    c = consumer(w)
    c.due = w.startup
    c.queue_new = lambda q: Mon.queue_new(c, q)
    used = []
    get = c.queue_get

    def first(q, block, timeout):
        used.append(q)
        prove(q in emptied or q not in w.queues[:len(w.queues)], "ensures no batch prefetched before is served")
        prove(timeout is None or timeout >= w.startup, "ensures the first batch is awaited as long as at the start")
        return token(w)
    c.queue_get = first
    e, _ = raises(s.get_batch, w.B)
    if e is not None:
        prove(False, f"ensures batches can be had after a reset ({type(e).__name__})")
        return
    run = [t for t in w.threads if t.state == "running"]
    prove(len(run) == 1, "ensures one new thread runs")
    prove(eq(s.steps_remaining(), w.L - 1 if episodic else 1), "ensures steps are counted afresh")
    # the new thread fills the queue that is read
    if len(run) == 1 and used:
        k = Worker()
        k.w = w
        puts = []
        k.queue_put = lambda q, item, block, timeout: puts.append(q)
        seen = []

        def is_set(ev):
            prove(not ev.flag, "ensures no stop request is left for the new thread")
            seen.append(1)
            return len(seen) > 1
        k.event_is_set = is_set
        k.produce = lambda n: token(w)
        old = w.mon
        w.mon = k
        ctx().ghost["conc"] = k
        t = run[0]
        raises(lambda: t.target(*t.args, **t.kwargs))
        prove(bool(puts) and all(q is used[0] for q in puts), "ensures the new thread fills the queue that is read")
        w.mon = old
        ctx().ghost["conc"] = old


def delegates(s, base, name):
    """The wrapper reports what the wrapped scheduler reports; a new file list reaches it."""
    shape = (Int("shape_h", 1), Int("shape_w", 1), 2)
    type(base).get_flow_fields_shape = lambda self: shape
    base.file_list = ["one", "two"]
    e, got = raises(s.get_flow_fields_shape)
    if e is not None or not isinstance(got, (tuple, list)) or len(got) != 3:
        prove(False, f"ensures the flow-field shape of the wrapped scheduler ({name})")
    else:
        prove(and_(*[eq(x, y) for x, y in zip(got, shape)]), f"ensures the flow-field shape of the wrapped scheduler ({name})")
    e, got = raises(lambda: s.file_list)
    prove(e is None and list(got) == ["one", "two"], f"ensures the file list of the wrapped scheduler ({name})")

    def put():
        s.file_list = ["three"]
    e, _ = raises(put)
    prove(e is None and list(base.file_list) == ["three"], f"ensures a new file list reaches the wrapped scheduler ({name})")
