"""C29: batch containers."""
import dataclasses
import itertools

from contracts.common import *

BUDGET, MINCASES = 4, 40
NOTE = "Field values are opaque (parametric proof); every combination of absent, present and updated fields is covered."
TREE = ["types.ImageGenerationParameters.tree_flatten", "types.ImageGenerationParameters.tree_unflatten",
        "types.SynthpixBatch.tree_flatten", "types.SynthpixBatch.tree_unflatten"]
UPD = ["types.SynthpixBatch.update", "types.SchedulerData.update"]


def fields(C):
    return [f.name for f in dataclasses.fields(C)]


def same_obj(C, r, want):
    return type(r) is C and all(getattr(r, n) is want[n] for n in fields(C))


@harness("unflatten inverts flatten, field by field", TREE)
def h1(L, s):
    T = L.load("synthpix.types")

    def run():
        for C in (T.ImageGenerationParameters, T.SynthpixBatch):
            names = fields(C)
            good, leaves, mapped, frame = True, True, True, True
            for mask in range(1 << len(names)):
                v = {n: Atom(n) if mask >> j & 1 else None for j, n in enumerate(names)}
                o = C(**v)
                ch, aux = o.tree_flatten()
                good = good and same_obj(C, C.tree_unflatten(aux, ch), v)
                # jax may pass a list, and maps over the children
                good = good and same_obj(C, C.tree_unflatten(aux, tuple(list(ch))), v)
                leaves = leaves and all(any(c is x for c in ch) for x in v.values() if x is not None)
                w = {id(x): Atom("f_" + n) for n, x in v.items() if x is not None}
                m = C.tree_unflatten(aux, tuple(w.get(id(c), c) if c is not None else None for c in ch))
                mapped = mapped and same_obj(C, m, {n: w[id(x)] if x is not None else None for n, x in v.items()})
                frame = frame and same_obj(C, o, v)
            prove(good, f"ensures {C.__name__}.tree_unflatten(tree_flatten(x)) == x")
            prove(leaves, f"ensures every present field of {C.__name__} is a child (transformations reach it)")
            prove(mapped, f"ensures a transformed {C.__name__} holds each transformed field in its place")
            prove(frame, "modifies nothing")
    s.run(run)


@harness("update replaces exactly the named fields", UPD)
def h2(L, s):
    T = L.load("synthpix.types")

    def run():
        for C in (T.SynthpixBatch, T.SchedulerData):
            names = fields(C)
            for pat in (lambda n: True, lambda n: False):
                # originals: all present / optional ones absent
                opt = {f.name for f in dataclasses.fields(C) if f.default is not dataclasses.MISSING}
                old = {n: None if (n in opt and not pat(n)) else Atom("old_" + n) for n in names}
                new = {n: Atom("new_" + n) for n in names}
                o = C(**old)
                good, fresh = True, True
                for ch in itertools.product((0, 1, 2), repeat=len(names)):
                    kw = {n: (new[n] if c == 1 else None) for n, c in zip(names, ch) if c}
                    r = o.update(**kw)
                    good = good and same_obj(C, r, {**old, **kw})
                    fresh = fresh and r is not o
                prove(good, f"ensures {C.__name__}.update sets the named fields (to None too) and keeps the others")
                prove(fresh, "ensures a new object is returned")
                prove(same_obj(C, o, old), "modifies nothing of the original")
    s.run(run)
