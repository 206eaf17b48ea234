"""C10: prefetching keeps episodes aligned."""
from contracts.pre import *

BUDGET, MINCASES = 14, 12
NOTE = "Thread-modular, for every episode length, buffer size, number of steps served and point at which an episode is abandoned."
ASSUMPTIONS = ["queue.Queue is a FIFO shared by the two threads (C09)",
               "the wrapped scheduler serves episode_length batches per episode (C08), each within the timeouts",
               "next_episode has skipped the rest of the episode before its join timeout has passed"]


@harness("the worker produces episode after episode, each in full", [MOD + "_worker"], seconds=60)
def _(L, s):
    def run():
        worker(L, True)
    s.run(run)


@harness("get_batch serves the steps of the episode, then EpisodeEnd", [MOD + "get_batch", MOD + "steps_remaining", MOD + "_start_worker"], seconds=60)
def _(L, s):
    def run():
        serve(L, True)
    s.run(run)


@harness("next_episode skips exactly the rest of the episode", [MOD + "next_episode", MOD + "steps_remaining"], seconds=60)
def _(L, s):
    def run():
        abandon(L)
    s.run(run)
