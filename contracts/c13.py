"""C13: real samples are passed through unchanged."""
from contracts.samp import *

NEXT = ["sampler.real.RealImageSampler._get_next", "sampler.base.Sampler.__next__"]
INIT = ["sampler.real.RealImageSampler.__init__", "sampler.base.Sampler.__init__"]
BUDGET, MINCASES = 6, 12
NOTE = "For every batch served by the scheduler, with and without mask and files, of float or integer data."
ASSUMPTIONS = ["conversion to float32 is the identity on exact reals"]


@harness("images, flow fields, mask and files are those of the scheduler", NEXT, parts=12)
def h1(L, s, part):
    def run():
        mask, files, kind = bool(part & 1), bool(part & 2), ("f", "i", "mixed")[part >> 2]
        st = make_stub(L, True, False, mask, files, kind)
        B = Int("batch_size", 1)
        sm = L.load("synthpix.sampler.real").RealImageSampler(st, batch_size=B)
        sm.__next__()
        b = sm.__next__()
        prove(len(st.batches) == 2 and st.log == ["get_batch"] * 2, "a batch takes one batch of the scheduler")
        src = st.batches[1]
        prove(eq(src.n, B), "ensures the scheduler is asked for the batch size")
        k, y, x, c = Int("k", 0, B), Int("y", 0, st.fh), Int("x", 0, st.fw), Int("c", 0, 2)
        for n, got, exp in (("images1", b.images1, src.im1), ("images2", b.images2, src.im2)):
            prove(shape_is(got, B, st.fh, st.fw), f"ensures the shape of {n}")
            prove(eq(at(got, k, y, x), at(exp, k, y, x)), f"ensures {n} are the scheduler's")
            prove(got.dtype.kind == "f", f"ensures {n} are float")
        prove(shape_is(b.flow_fields, B, st.fh, st.fw, 2), "ensures the shape of the flow fields")
        prove(eq(at(b.flow_fields, k, y, x, c), at(src.flow, k, y, x, c)), "ensures the flow fields are the scheduler's")
        prove(b.flow_fields.dtype.kind == "f", "ensures the flow fields are float")
        prove(b.params is None, "ensures no generation parameters")
        if mask:
            prove(b.mask is not None and shape_is(b.mask, B), "ensures the mask's shape")
            prove(eq(at(b.mask, k), at(src.mask, k)), "ensures the mask is the scheduler's")
        else:
            prove(b.mask is None, "ensures no mask where the scheduler gives none")
        prove(same_seq(b.files, src.files), "ensures the files are the scheduler's")
    s.run(run)


@harness("schedulers without images are refused, through any wrappers", INIT, bounded="nesting depth <= 4", parts=2)
def h2(L, s, part):
    def run():
        R = L.load("synthpix.sampler.real").RealImageSampler
        E = L.load("synthpix.scheduler.episodic").EpisodicFlowFieldScheduler
        F = L.load("synthpix.scheduler.prefetch").PrefetchingFlowFieldScheduler

        def wrap_in(cls, inner):
            if cls is E:
                w = E.__new__(E)
                w.scheduler, w.batch_size, w._episode_length, w._t = inner, 4, 3, 0
                return w
            return F(inner, 4, 2)
        import itertools
        for depth in range(0, 5):
            for ws in itertools.product((E, F), repeat=depth):
                st = make_stub(L, part == 1, False)
                x = st
                for w in ws:
                    x = wrap_in(w, x)
                e, sm = raises(lambda: R(x, batch_size=4))
                if part == 1:
                    prove(e is None, "ensures a scheduler with images is accepted")
                    if e is None:
                        prove(sm.scheduler is x, "ensures the sampler keeps the outermost scheduler")
                else:
                    prove(isinstance(e, ValueError), "ensures a scheduler without images is refused")
                prove(st.log == [], "construction serves no data")
    s.run(run)


class Descend(LoopSpec):
    """The scheduler looked at is one of the wrapped ones: level k of n, for any k."""
    name = None

    def __init__(self, chain):
        self.chain = chain

    def entry(self, loop, env):
        pass

    def havoc(self, loop, name, v):
        if self.chain.level_of(v) is None:
            from dv.seqs import havoc_value
            return havoc_value(name, v)
        if self.name not in (None, name):
            unsup("two schedulers are carried along")
        self.name = name
        k = fresh_int("level", 0)
        ctx().assume(k <= self.chain.n)
        self.k = k
        return self.chain.level(k)

    def preserved(self, loop, env):
        k = self.chain.level_of(env.get(self.name))
        if self.name is None or k is None:
            unsup("which scheduler is looked at next")
        prove(and_(k >= 0, k <= self.chain.n), "another of the wrapped schedulers is looked at")
        prove(eq(k, self.k + 1), "the search goes one level deeper (so it ends)")


@harness("schedulers without images are refused, through any number of wrappers", INIT, parts=2, seconds=60)
def h_deep(L, s, part):
    def run():
        R = L.load("synthpix.sampler.real").RealImageSampler
        E = L.load("synthpix.scheduler.episodic").EpisodicFlowFieldScheduler
        F = L.load("synthpix.scheduler.prefetch").PrefetchingFlowFieldScheduler

        class Chain:
            n = Int("wrappers", 0)
            base = make_stub(L, part == 1, False)
            made = []

            def level(self, k):
                if len(self.made) > 20:
                    unsup("a search without a recognised loop")
                if bool(eq(k, self.n)):
                    return self.base
                w = object.__new__((WE, WF)[ctx().choose(2, "wrapper")])
                w.__dict__.update(level=k, batch_size=4, _episode_length=3, _t=0)
                self.made.append(w)
                return w

            def level_of(self, x):
                if x is self.base:
                    return self.n
                return x.__dict__.get("level") if isinstance(x, (WE, WF)) else None
        chain = Chain()
        chain.made = []
        below = property(lambda w: chain.level(w.__dict__["level"] + 1))

        class WE(E):
            scheduler = below

        class WF(F):
            scheduler = below
        ctx().ghost["loop_specs"] = [lambda loop: Descend(chain) if loop.kind == "while" else None]
        top = chain.level(0)
        e, sm = raises(lambda: R(top, batch_size=4))
        if part == 1:
            prove(e is None, "ensures a scheduler with images is accepted")
            if e is None:
                prove(sm.scheduler is top, "ensures the sampler keeps the outermost scheduler")
        else:
            prove(isinstance(e, ValueError), "ensures a scheduler without images is refused")
        prove(chain.base.log == [], "construction serves no data")
    s.run(run)
