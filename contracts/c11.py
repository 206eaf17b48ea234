"""C11: reset and shutdown of the prefetching scheduler."""
from contracts.pre import *

BUDGET, MINCASES = 14, 10
NOTE = "Thread-modular, for every fill level of the queue and every state of the thread at the time of the call."
ASSUMPTIONS = ["queue.Queue, threading.Event and Thread behave as documented",
               "the worker looks for a stop request before each unbounded wait (C09, C10), so that it ends once a slot is free",
               "the wrapped scheduler delivers a batch within the join timeout"]
SEQS = [("reset",), ("shutdown",), ("reset", "reset"), ("shutdown", "shutdown"), ("shutdown", "reset"), ("reset", "shutdown"), ("reset", "get_batch", "reset"),
        ("reset", "get_batch", "shutdown")]
FNS = [MOD + x for x in ("reset", "shutdown", "is_running", "__init__", "_start_worker", "get_batch")]


for ops in SEQS:
    @harness(" then ".join(ops), FNS, seconds=60)
    def _(L, s, ops=ops):
        def run():
            controls(L, bool(ctx().choose(2, "episodic")), ops)
        s.run(run)


@harness("shutdown of an object whose construction failed", [MOD + "shutdown"], seconds=60)
def _(L, s):
    def run():
        M = L.load("synthpix.scheduler.prefetch")
        ctx().ghost["conc"] = Mon()
        x = M.PrefetchingFlowFieldScheduler.__new__(M.PrefetchingFlowFieldScheduler)
        e, _ = raises(x.shutdown)
        prove(e is None, "ensures shutdown is safe before construction is complete")
    s.run(run)
