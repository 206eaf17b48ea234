"""C12: samplers flag and enforce the end of an episode."""
from contracts.samp import *

FN = ["sampler.base.Sampler.__next__", "sampler.base.Sampler._make_done", "sampler.base.Sampler.__init__"]
CTL = ["sampler.base.Sampler.reset", "sampler.base.Sampler.shutdown", "sampler.base.Sampler.next_episode"]
BUDGET, MINCASES = 12, 12
NOTE = "For every scheduler that follows the protocol (a stub known by its contract only), batch size and remaining number of steps."
ASSUMPTIONS = ["steps_remaining of the scheduler counts down by one per batch (C08, C10)",
               "the episode logic of the base class is run with the real-image sampler's and with an arbitrary _get_next"]


def sampler(L, stub, own):
    """A sampler whose batches come from the scheduler: the real one, or an arbitrary subclass."""
    B = Int("batch_size", 1)
    if not own:
        return L.load("synthpix.sampler.real").RealImageSampler(stub, batch_size=B), B
    S, T = L.load("synthpix.sampler.base").Sampler, L.load("synthpix.types")

    class Own(S):
        def _get_next(self):
            # a subclass may also make several batches of the same flows
            b = Batch(0, self.batch_size, stub.fh, stub.fw, True, True, True, "f") if ctx().choose(2, "the flows in use") else None
            b = stub.get_batch(self.batch_size) if b is None else T.SchedulerData(flow_fields=b.flow)
            return T.SynthpixBatch(images1=b.flow_fields, images2=b.flow_fields, flow_fields=b.flow_fields)

        def _reset(self):
            stub.log.append("own_reset")

        def _shutdown(self):
            stub.log.append("own_shutdown")

        @classmethod
        def from_config(cls, scheduler, config):
            return cls(scheduler)
    return Own(stub, B), B


def episodes(L, s, own):
    def run():
        P = L.load("synthpix.scheduler.protocol")
        st = make_stub(L, True, True)
        sm, B = sampler(L, st, own)
        r0 = st.rem
        n0 = len(st.log)
        e, b = raises(lambda: next(sm) if not hasattr(sm, "__next__") else sm.__next__())
        if e is not None:
            prove(isinstance(e, P.EpisodeEnd), "only the end of an episode is raised")
            prove(eq(r0, 0), "EpisodeEnd is raised only when no step remains")
            prove(st.log[n0:] == [], "EpisodeEnd leaves the scheduler's data untouched")
            return
        prove(r0 > 0, "ensures EpisodeEnd when no step remains")
        if not own or "get_batch" in st.log[n0:]:
            prove(st.log[n0:] == ["get_batch"], "a batch takes one batch of the scheduler")
        else:
            prove(st.log[n0:] == [], "a batch of the flows in use takes nothing from the scheduler")
            prove(eq(st.rem, r0), "steps_remaining is as it was")
        d = b.done
        prove(d is not None, "ensures a done flag")
        prove(shape_is(d, B), "ensures one done flag per sample")
        prove(d.dtype.kind == "b", "ensures boolean flags")
        k = Int("k", 0, B)
        prove(eq(at(d, k), SBool(lift(st.rem) == 0)), "ensures done is true exactly on the last step")
    s.run(run)


@harness("episodic: done flags and the end of the episode (real sampler)", FN, jax_division=True)
def h1(L, s):
    episodes(L, s, False)


@harness("episodic: done flags and the end of the episode (any subclass)", FN, jax_division=True)
def h2(L, s):
    episodes(L, s, True)


@harness("not episodic: no done flag, next_episode is an error", FN + CTL, jax_division=True, parts=2)
def h3(L, s, part):
    def run():
        st = make_stub(L, True, False)
        sm, B = sampler(L, st, part == 1)
        b = sm.__next__()
        prove(b.done is None, "ensures no done flag")
        log = list(st.log)
        e, _ = raises(sm.next_episode)
        prove(isinstance(e, Exception), "ensures next_episode raises")
        prove(st.log == log, "next_episode leaves the scheduler untouched")
    s.run(run)


def down(sm, st, own):
    st.log.clear()
    sm.shutdown()
    prove([x for x in st.log if x != "own_shutdown"] == ["shutdown"], "ensures shutdown shuts the scheduler down")
    prove(st.log.count("own_shutdown") == len(own(1)), "ensures shutdown shuts the sampler down")


@harness("reset, shutdown and next_episode", CTL, parts=2)
def h4(L, s, part):
    def run():
        st = make_stub(L, True, True)
        sm, B = sampler(L, st, part == 1)
        own = (lambda x: [x] if part == 1 else [])
        if ctx().choose(2, "shut down at once"):
            if ctx().choose(2, "after a batch"):
                raises(sm.__next__)
            down(sm, st, own)
            return
        st.log.clear()
        sm.reset()
        prove([x for x in st.log if x != "own_reset"] == ["reset"], "ensures reset resets the scheduler once by default")
        prove(st.log.count("own_reset") == len(own(1)), "ensures reset resets the sampler")
        st.log.clear()
        sm.reset(scheduler_reset=True)
        prove([x for x in st.log if x != "own_reset"] == ["reset"], "ensures reset resets the scheduler when asked")
        st.log.clear()
        sm.reset(scheduler_reset=False)
        prove([x for x in st.log if x != "own_reset"] == [], "ensures reset leaves the scheduler alone when asked")
        prove(st.log.count("own_reset") == len(own(1)), "ensures reset resets the sampler")
        st.log.clear()
        sm.next_episode()
        prove(st.log == ["next_episode"], "ensures next_episode starts one episode")
        down(sm, st, own)
    s.run(run)
