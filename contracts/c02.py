"""C02: batches are the stream cut in pieces, padded and masked."""
from contracts.sched import *

BASE = "scheduler.base.BaseFlowFieldScheduler."
BUDGET, MINCASES = 10, 20
NOTE = "For every batch size and every number of slices consumed before and remaining."
ASSUMPTIONS = ["_get_next follows its contract (C01): it serves the slices of the stream one by one and raises StopIteration at its end",
               "the slices of a batch have one shape (numpy.stack refuses others)"]


@harness("get_batch serves the next min(n, remaining) slices", [BASE + "get_batch"], seconds=60)
def _(L, s):
    def run():
        batch(L, False, ctx().choose(3, "images"), bool(ctx().choose(2, "files")), bool(ctx().choose(2, "randomize")))
    s.run(run)
