from samplib import *
from synthpix.scheduler.episodic import EpisodicFlowFieldScheduler


class Base(Stub):
    """A scheduler that can be made episodic: only its protocol is used."""


class Wrapper(EpStub, EpisodicFlowFieldScheduler):
    pass


def cases(rng, tier):
    for k, (bpf, ffb) in enumerate([(1, 1), (3, 2), (2, 4), (4, 3)]):
        yield {"fixed": True, "bpf": bpf, "ffb": ffb, "ops": "n" * (2 * bpf + 1) + "rnn", "ep": 0, "seed": k, "mask": True, "devices": 1}
    yield {"fixed": True, "bpf": 3, "ffb": 2, "ops": "nnnnnen", "ep": 4, "seed": 0, "mask": True, "devices": 1}
    yield {"fixed": True, "bpf": 3, "ffb": 2, "ops": "nnRnnnn", "ep": 0, "seed": 5, "mask": False, "devices": 1}
    yield {"fixed": True, "bpf": 2, "ffb": 4, "ops": "nnnnrn", "ep": 0, "seed": 6, "mask": True, "devices": 2}
    yield {"fixed": True, "bpf": 2, "ffb": 4, "ops": "nnnnnnnnRnnn", "ep": 0, "seed": 7, "mask": "some", "devices": 1}
    yield {"fixed": True, "bpf": 3, "ffb": 2, "ops": "nenenen", "ep": 1, "seed": 0, "mask": True, "devices": 1}
    while True:
        yield {"bpf": rng.randint(1, 4), "ffb": rng.choice([1, 2, 3, 4]), "ep": rng.choice([0, 0, 1, 2, 4]), "seed": rng.randrange(99),
               "ops": "".join(rng.choice("nnnnnnrRe") for _ in range(rng.randint(4, 12))), "mask": rng.choice([True, True, False, "some"]), "devices": 1}


def shift(a, b, dx, dy):
    """Mean difference of b against a moved by (dx, dy)."""
    h, w = a.shape
    m = 9
    A_ = a[m - dy:h - m - dy, m - dx:w - m - dx]
    return float(np.abs(b[m:h - m, m:w - m] - A_).mean())


def check(case):
    B, bpf, ffb = 4, case["bpf"], case["ffb"]
    kw = dict(shape=(48, 48), mask=case["mask"], files=case["mask"])
    st = Wrapper(case["ep"], **kw) if case["ep"] else Stub(**kw)
    sp = spec(image_shape=(32, 32), img_offset=(8.5, 8.5), dt=8.0, seeding_density_range=(0.04, 0.04))
    sm = synthetic(st, sp, batches_per_flow_batch=bpf, flow_fields_per_batch=ffb, flow_field_size=(48.0, 48.0), seed=case["seed"],
                   max_speed_x=1.0, max_speed_y=1.0, min_speed_x=0.0, min_speed_y=0.0, device_ids=list(range(case["devices"])))
    if case["ep"]:
        bpf = 1
    served, since, hist = 0, [], []
    for n, op in enumerate(case["ops"]):
        at = f"operation {n} of {case['ops']!r} (batches per flow batch {case['bpf']}, fields {ffb}, episodes {case['ep']}, mask {case['mask']})"
        if op == "e":
            if case["ep"]:
                sm.next_episode()
            continue
        if op in "rR":
            sm.reset(scheduler_reset=op == "R")
            served, since = 0, []
            continue
        if case["ep"] and st.rem == 0:
            continue
        fetched = len(st.batches)
        b = next(sm)
        fetch = served == 0 or served == bpf
        if len(st.batches) - fetched != int(fetch):
            return f"{at}: {len(st.batches) - fetched} fetches, expected {int(fetch)}"
        served = 1 if fetch else served + 1
        i = len(st.batches) - 1
        src = st.batches[i]
        if np.asarray(src.flow_fields).shape[0] != ffb:
            return f"{at}: {np.asarray(src.flow_fields).shape[0]} flow fields fetched, expected {ffb}"
        f = np.asarray(b.flow_fields)
        per, nd = B // case["devices"], case["devices"]
        for k in range(B):
            j = k % ffb if nd == 1 else (k // per) * (ffb // nd) + (k % per) % (ffb // nd)
            want = np.array([(i + 1) / 8, (j + 1) / 8])
            if not close(f[k], np.broadcast_to(want, f[k].shape), 1e-4):
                return f"{at}: flow {k} is {f[k].reshape(-1, 2).mean(0)}, expected field {j} of fetch {i}: {want}"
            i1, i2 = np.asarray(b.images1)[k], np.asarray(b.images2)[k]
            if i + 1 <= 8:
                d = {(dx, dy): shift(i1, i2, dx, dy) for dx in range(0, 9) for dy in range(0, 6)}
                best = min(d, key=d.get)
                if i1.std() > 1 and best != (i + 1, j + 1):
                    return f"{at}: image pair {k} is displaced by {best}, its flow is {(i + 1, j + 1)}"
        if src.mask is not None:
            if b.mask is None or (np.asarray(b.mask) != np.asarray(src.mask)).any() or tuple(b.files) != tuple(src.files):
                return f"{at}: mask or files are not those of fetch {i}: {b.mask} {b.files}"
        elif b.mask is not None or b.files is not None:
            return f"{at}: mask {b.mask}, files {b.files} although the scheduler gives none"
        seen = np.asarray(b.images1)
        for m, old in since:
            if (old == seen).all() and seen.std() > 1:
                return f"{at}: the images are those of operation {m}"
        since.append((n, seen))
        hist.append(seen)
        if len(since) == 1 and len(hist) > 1:
            if not close(np.asarray(b.images1), hist[0], 1e-3):
                return f"{at}: the first images after a reset differ from the first images"
    return None
