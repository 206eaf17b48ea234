from samplib import *


def cases(rng, tier):
    for L in (1, 2, 3, 5):
        for kind in ("real", "synthetic"):
            yield {"fixed": True, "length": L, "kind": kind, "ops": "n" * (L + 1) + "e" + "n" * (L + 1)}
    yield {"fixed": True, "length": 3, "kind": "real", "ops": "nenrnnnnRnn"}
    yield {"fixed": True, "length": 3, "kind": "synthetic", "per_flow": 2, "ops": "nnnnnnennn"}
    for kind in ("real", "synthetic"):
        yield {"fixed": True, "length": 2, "kind": kind, "ops": "SnSnSnSeSR"}
    yield {"fixed": True, "length": 70, "kind": "real", "ops": "n" * 72 + "en"}
    yield {"fixed": True, "length": 0, "kind": "real", "ops": "nenrnS"}
    yield {"fixed": True, "length": 0, "kind": "synthetic", "ops": "nenRnS"}
    while True:
        yield {"length": rng.choice([0, 1, 2, 3, 4]), "kind": rng.choice(["real", "real", "real", "synthetic"]), "per_flow": rng.choice([1, 1, 2, 3]),
               "ops": "".join(rng.choice("nnnnnerRS") for _ in range(rng.randint(3, 14)))}


def check(case):
    L, B = case["length"], 4
    real = case["kind"] == "real"
    st = EpStub(L, images=real) if L else Stub(images=real)
    sm = RealImageSampler(st, batch_size=B) if real else synthetic(st, batches_per_flow_batch=case.get("per_flow", 1))
    for k, op in enumerate(case["ops"]):
        st.log.clear()
        at = f"operation {k} of {case['ops']!r} ({case['kind']}, episodes of {L})"
        if op == "n":
            rem = st.rem if L else None
            try:
                b = next(sm)
            except EpisodeEnd:
                if not L or rem != 0:
                    return f"{at}: EpisodeEnd with {rem} steps remaining"
                if st.log:
                    return f"{at}: EpisodeEnd, but the scheduler was called: {st.log}"
                continue
            if L and rem == 0:
                return f"{at}: a batch although no step remains"
            if not L:
                if b.done is not None:
                    return f"{at}: done is {b.done} without episodes"
                continue
            d = np.asarray(b.done)
            if d.shape != (B,) or d.dtype != bool:
                return f"{at}: done has shape {d.shape}, type {d.dtype}"
            if st.rem != rem - 1 and not (case.get("per_flow", 1) > 1 and st.rem == rem):
                return f"{at}: {rem} steps remained before the batch, {st.rem} after it"
            if (d != (st.rem == 0)).any():
                return f"{at}: done is {d} with {st.rem} steps remaining after the batch"
        elif op == "e":
            try:
                sm.next_episode()
                if not L:
                    return f"{at}: next_episode does not fail without episodes"
                if st.log != ["next_episode"]:
                    return f"{at}: next_episode called {st.log}"
            except AttributeError:
                if L:
                    return f"{at}: next_episode fails"
        elif op in "rR":
            sm.reset(scheduler_reset=op == "R")
            if st.log != (["reset"] if op == "R" else []):
                return f"{at}: reset({op == 'R'}) called {st.log}"
        else:
            sm.shutdown()
            if st.log != ["shutdown"]:
                return f"{at}: shutdown called {st.log}"
    return None
