"""Wrapped schedulers with scripted speed, and calls that must not hang."""
import threading
import time

from lib import *
from synthpix.scheduler import PrefetchingFlowFieldScheduler
from synthpix.scheduler.protocol import EpisodeEnd
from synthpix.types import SchedulerData


class Base:
    """Batches 0, 1, ..., n-1 (n None: without end), each after a delay."""
    file_list = []

    def __init__(self, B, n=None, delay=0.0, L=None):
        self.B, self.n, self.delay, self.k, self.resets, self.overlap = B, n, delay, 0, 0, False
        self.busy = threading.Lock()

    def get_batch(self, batch_size):
        if not self.busy.acquire(blocking=False):
            self.overlap = True
            raise RuntimeError("two threads use the wrapped scheduler")
        try:
            if batch_size != self.B:
                raise ValueError("batch size")
            if self.delay:
                time.sleep(self.delay)
            return self.item()
        finally:
            self.busy.release()

    def item(self):
        if self.n is not None and self.k >= self.n:
            raise StopIteration
        self.k += 1
        return batch(self.B, self.k - 1, self.resets)

    def get_flow_fields_shape(self):
        return (2, 2, 2)

    def reset(self):
        if self.busy.locked():
            self.overlap = True
        self.resets += 1
        self.k = 0

    def shutdown(self):
        pass


class EpBase(Base):
    """Episodes of L batches: batch number e * 1000 + t."""

    def __init__(self, B, n=None, delay=0.0, L=1):
        super().__init__(B, n, delay)
        self.L, self.e, self.t = L, 0, 0

    def item(self):
        if self.t >= self.L:
            raise EpisodeEnd
        if self.n is not None and self.e * self.L + self.t >= self.n:
            raise StopIteration
        self.t += 1
        return batch(self.B, 1000 * self.e + self.t - 1, self.resets)

    def next_episode(self):
        self.e, self.t = self.e + 1, 0

    def steps_remaining(self):
        return self.L - self.t

    @property
    def episode_length(self):
        return self.L

    def reset(self):
        super().reset()
        self.e = self.t = 0


def batch(B, k, r=0):
    a = np.zeros((B, 2, 2, 2), np.float32)
    a[..., 0], a[..., 1] = k, r
    return SchedulerData(flow_fields=a)


def number(b):
    a = np.asarray(b.flow_fields)
    if not (a[..., 0] == a[0, 0, 0, 0]).all() or not (a[..., 1] == a[0, 0, 0, 1]).all():
        return "altered"
    return int(a[0, 0, 0, 0]), int(a[0, 0, 0, 1])


def timed(f, limit=15):
    """(returned in time, result or exception)"""
    out = []

    def go():
        try:
            out.append((True, f()))
        except BaseException as e:
            out.append((False, e))
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(limit)
    return out[0] if out else (None, None)


def make(case, base):
    return PrefetchingFlowFieldScheduler(base, base.B, buffer_size=case["buf"], startup_timeout=10.0, steady_state_timeout=case.get("steady", 8.0))


def workers():
    """The background threads of prefetching schedulers."""
    out = []
    for t in threading.enumerate():
        f = getattr(t, "_target", None)
        f = getattr(f, "func", f)
        if t.is_alive() and f is not None and (isinstance(getattr(f, "__self__", None), PrefetchingFlowFieldScheduler)
                                               or "Prefetching" in getattr(f, "__qualname__", "")):
            out.append(t)
    return out


def gone(before, limit=6):
    """The threads started since then have ended."""
    t0 = time.time()
    while time.time() - t0 < limit:
        if not [t for t in workers() if t not in before]:
            return True
        time.sleep(.02)
    return False
