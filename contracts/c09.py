"""C09: prefetching is transparent."""
from contracts.pre import *

BUDGET, MINCASES = 14, 12
NOTE = "Thread-modular: worker and consumer are each proved against the ghost FIFO, for every buffer size, stream length and stop request."
ASSUMPTIONS = ["queue.Queue is a FIFO shared by the two threads; its content changes only through the operations reported",
               "threading.Event and Thread behave as documented",
               "the wrapped scheduler delivers each batch within the timeouts and raises nothing but StopIteration and EpisodeEnd"]


@harness("the worker puts exactly the batches produced, in order, then the end of the stream", [MOD + "_worker"], seconds=60)
def _(L, s):
    def run():
        worker(L, False)
    s.run(run)


@harness("get_batch takes exactly the next item", [MOD + "get_batch", MOD + "_start_worker", MOD + "__init__"], seconds=60)
def _(L, s):
    def run():
        serve(L, False)
    s.run(run)


@harness("next_episode over a scheduler without episodes takes nothing", [MOD + "next_episode", MOD + "steps_remaining"], seconds=60)
def _(L, s):
    def run():
        w = world(L, False)
        if w is None:
            return
        if ctx().choose(2, "started"):
            counter(w)
        m = consumer(w)
        e, _ = raises(w.s.next_episode)
        m.off = True
        prove(e is None and not m.taken and not m.ended, "ensures nothing is taken")
    s.run(run)


@harness("sizes and timeouts that cannot work are refused", [MOD + "__init__"], seconds=60)
def _(L, s):
    def run():
        w = world(L, False)
        if w is None:
            return
        bad = [dict(batch_size=0), dict(batch_size=-1), dict(buffer_size=0), dict(buffer_size=-3)]
        kw = dict(batch_size=w.B, buffer_size=w.cap)
        kw.update(bad[ctx().choose(len(bad), "bad")])
        e, _ = raises(lambda: w.mod.PrefetchingFlowFieldScheduler(w.base, kw["batch_size"], buffer_size=kw["buffer_size"]))
        prove(type(e) is ValueError, "ensures a batch size or buffer size below one is refused (a queue of size zero has no bound)")
    s.run(run)


@harness("file list and flow-field shape are those of the wrapped scheduler", [MOD + "get_flow_fields_shape", MOD + "file_list"], seconds=30)
def _(L, s):
    def run():
        w = world(L, bool(ctx().choose(2, "episodic")))
        if w is None:
            return
        delegates(w.s, w.base, "prefetching")
    s.run(run)
