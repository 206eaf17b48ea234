"""C08: the step counter of an episodic scheduler."""
from contracts.eps import *

E = "scheduler.episodic.EpisodicFlowFieldScheduler."
BUDGET, MINCASES = 10, 12
NOTE = "For every episode length, batch size and every number of batches served so far."
ASSUMPTIONS = ["frames are found as in C07 (the counter does not depend on how many there are)"]


def served(L):
    """A scheduler that has served t batches of its episode."""
    w = episode_world(L, 1)
    base = base_stub(w)
    assume(w.n[0] >= w.L)
    w.key = KeyArr((), lambda: z3.Const("given_key", Key))
    e, s = raises(lambda: w.E.EpisodicFlowFieldScheduler(base, w.B, w.L, key=w.key))
    if e is not None:
        prove(False, "construction succeeds")
        return w, None
    return w, s


def counter(w, s):
    """Where the scheduler keeps the number of batches served: set to an arbitrary reachable value."""
    if "_t" not in s.__dict__:
        unsup("the step counter is kept differently")
    t = Int("served", 0)
    assume(t <= w.L)
    s._t = t
    return t


def rest(w, s, want, name):
    e, r = raises(s.steps_remaining)
    prove(e is None and eq(r, want), f"ensures {name}")


@harness("a fresh scheduler has the whole episode ahead", [E + "__init__", E + "steps_remaining", E + "__len__", E + "episode_length"], seconds=60)
def _(L, s):
    def run():
        w, sc = served(L)
        if sc is None:
            return
        prove(not any(x[0] in ("get_batch", "next") for x in w.log), "ensures construction consumes nothing")
        rest(w, sc, w.L, "steps_remaining is the episode length at first")
        prove(eq(sc.episode_length, w.L), "ensures episode_length")
        e, n = raises(sc.__len__)
        prove(e is None and eq(n, w.L), "ensures len() is the episode length")
    s.run(run)


@harness("get_batch at every step", [E + "get_batch", E + "steps_remaining"], seconds=60)
def _(L, s):
    def run():
        w, sc = served(L)
        if sc is None:
            return
        t = counter(w, sc)
        rest(w, sc, w.L - t, "steps_remaining is the length minus the batches served")
        b = Int("requested", 1)
        n0 = len(w.log)
        lst = w.base.file_list
        e, got = raises(sc.get_batch, b)
        calls = w.log[n0:]
        kept = lambda k: (prove(w.base.file_list is lst, f"ensures the order of the files is kept {k}"))
        if e is None:
            prove(eq(b, w.B), "ensures a request of another size is rejected")
            prove(t < w.L, "ensures EpisodeEnd after episode_length batches")
            prove(len(calls) == 1 and calls[0][0] == "get_batch" and eq(calls[0][1], w.B), "ensures exactly one batch of the base scheduler")
            prove(same_value(got.flow_fields, got.flow_fields) if got is not None else False, "ensures a batch")
            rest(w, sc, w.L - t - 1, "steps_remaining decreases by one per batch")
            kept("while an episode is served")
            return
        prove(not calls, "ensures a refused request consumes nothing")
        kept("by a refused request")
        if type(e) is ValueError:
            prove(not_(eq(b, w.B)), "ensures ValueError only for another batch size")
        elif type(e) is w.P.EpisodeEnd:
            prove(and_(eq(b, w.B), t >= w.L), "ensures EpisodeEnd only when the episode is over")
        else:
            prove(False, f"raises nothing but ValueError and EpisodeEnd ({type(e).__name__})")
        rest(w, sc, w.L - t, "a refused request does not advance")
    s.run(run)


@harness("an error of the base scheduler passes through", [E + "get_batch"], seconds=60)
def _(L, s):
    def run():
        w, sc = served(L)
        if sc is None:
            return
        t = counter(w, sc)
        assume(t < w.L)
        def stop(batch_size):
            raise StopIteration
        w.base.get_batch = stop
        e, _ = raises(sc.get_batch, w.B)
        prove(type(e) is StopIteration, "ensures the end of the base scheduler is not hidden")
    s.run(run)


@harness("new episodes start at step 0, whenever they are started", [E + "next_episode", E + "reset", E + "reset_episode", E + "_sample_new_episodes"], seconds=60)
def _(L, s):
    def run():
        w, sc = served(L)
        if sc is None:
            return
        counter(w, sc)
        op = ("next_episode", "reset", "reset_episode")[ctx().choose(3, "op")]
        n0 = len(w.log)
        e, _ = raises(getattr(sc, op))
        if e is not None:
            prove(False, f"ensures {op} does not fail")
            return
        rest(w, sc, w.L, f"{op}: all steps remain")
        calls = w.log[n0:]
        prove(not any(x[0] in ("get_batch", "next", "shutdown") for x in calls), f"ensures {op} consumes nothing")
        prove(bool(calls) and ("reset",) in calls, f"ensures {op} takes the base scheduler back to the start")
        prove(eq(as_seq_(w.base.file_list).n, w.B * w.L), f"ensures {op} leaves files for a whole episode")
        prove(eq(sc.episode_length, w.L), f"ensures {op} keeps the episode length")
        e, got = raises(sc.get_batch, w.B)
        prove(e is None, f"ensures a batch can be had after {op}")
    s.run(run)


@harness("file list and flow-field shape are those of the wrapped scheduler", [E + "get_flow_fields_shape", E + "file_list"], seconds=30)
def _(L, s):
    from contracts.pre import delegates

    def run():
        w, sc = served(L)
        if sc is None:
            return
        delegates(sc, sc.scheduler if hasattr(sc, "scheduler") else unsup("the wrapped scheduler is kept differently"), "episodic")
    s.run(run)
