import itertools

from samplib import *
from synthpix.scheduler import EpisodicFlowFieldScheduler, PrefetchingFlowFieldScheduler


def cases(rng, tier):
    for mask in (True, False):
        for files in (True, False):
            for kind in ("float32", "float64", "uint8", "int32"):
                yield {"fixed": True, "mask": mask, "files": files, "kind": kind, "B": 3}
    yield {"fixed": True, "mask": "some", "files": "some", "kind": "float32", "B": 2}
    yield {"fixed": True, "mask": True, "files": True, "kind": "float32", "first": "uint8", "B": 2}
    yield {"fixed": True, "mask": True, "files": True, "kind": "int16", "first": "uint8", "B": 2}
    for d in range(4):
        for ws in itertools.product("ep", repeat=d):
            for im in (True, False):
                yield {"fixed": True, "wrap": "".join(ws), "images": im}
    while True:
        yield {"mask": rng.random() < .5, "files": rng.random() < .5, "kind": rng.choice(["float32", "float64", "uint8", "int16"]),
               "B": rng.randint(1, 6)}


def check(case):
    if "wrap" in case:
        st = Stub(images=case["images"])
        x = st
        for w in case["wrap"]:
            if w == "p":
                x = PrefetchingFlowFieldScheduler(x, 4, 2)
            else:
                y = EpisodicFlowFieldScheduler.__new__(EpisodicFlowFieldScheduler)
                y.scheduler, y.batch_size, y._episode_length, y._t = x, 4, 3, 0
                x = y
        try:
            RealImageSampler(x, batch_size=4)
        except ValueError:
            return "a scheduler with images is refused" + f" (wrappers {case['wrap']!r})" if case["images"] else None
        return None if case["images"] else f"a scheduler without images is accepted (wrappers {case['wrap']!r})"
    st = Stub(images=True, mask=case["mask"], files=case["files"], kind=np.dtype(case["kind"]).type)
    if case.get("first"):
        st.first = (np.dtype(case["first"]),)
    sm = RealImageSampler(st, batch_size=case["B"])
    for _ in range(3):
        b = next(sm)
        s = st.batches[-1]
        for n in ("images1", "images2", "flow_fields"):
            g, e = np.asarray(getattr(b, n)), getattr(s, n)
            if g.dtype != np.float32:
                return f"{n} has type {g.dtype}"
            if g.shape != e.shape or (g != e.astype(np.float32)).any():
                return f"{n} differ from the scheduler's ({case})"
        if b.params is not None:
            return "a real batch has generation parameters"
        if (b.mask is None) != (s.mask is None) or s.mask is not None and (np.asarray(b.mask) != s.mask).any():
            return f"mask is {b.mask}, the scheduler's is {s.mask}"
        if (b.files is None) != (s.files is None) or s.files is not None and tuple(b.files) != s.files:
            return f"files are {b.files}, the scheduler's are {s.files}"
    return None
