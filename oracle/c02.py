from schedlib import *


def cases(rng, tier):
    F = {"fixed": True}
    yield {**F, "slices": [3, 2, 4], "list": [0, 1, 2], "sizes": [4, 4, 4, 4]}
    yield {**F, "slices": [3, 2, 4], "list": [0, 1, 2], "sizes": [9, 1]}
    yield {**F, "slices": [3, 2, 4], "list": [0, 1, 2], "sizes": [10, 1, 1]}
    yield {**F, "slices": [3, 2, 4], "list": [0, 1, 2], "sizes": [5, 2, 7, 3], "images": True}
    yield {**F, "slices": [3, 2, 4], "list": [0, 1, 2], "sizes": [5, 2, 7, 3], "images": True, "labels": False}
    yield {**F, "slices": [3, 2, 4], "list": [0, 1, 2], "sizes": [5, 2, 7, 3], "labels": "some"}
    yield {**F, "slices": [3, None, 2, 4, 0], "list": [4, 1, 0, 1, 2, 3, 4], "sizes": [4, 3, 1, 9], "fmt": "h5"}
    yield {**F, "slices": [3, 2, 4], "list": [0, 1, 2], "sizes": [5, 7, 3], "images": "rgb"}
    yield {**F, "slices": [3, 2, 4], "list": [0, 1, 2], "sizes": [5, 7, 3], "images": "mixed"}
    yield {**F, "slices": [None, 0], "list": [0, 1], "sizes": [2, 1]}
    yield {**F, "slices": [1], "list": [0], "sizes": [6, 6], "images": True}
    while True:
        s, l = some_list(rng)
        fmt = rng.choice(["mem", "mem", "h5"])
        yield {"slices": s, "list": l, "fmt": fmt, "images": rng.choice([False, True, True, "rgb", "mixed"]) if fmt == "mem" else False,
               "labels": fmt == "h5" or rng.choice([True, True, True, False, "some"]), "sizes": [rng.randint(1, 9) for _ in range(rng.randint(2, 6))]}


def check(case):
    with Tmp() as d:
        s, paths = build(d, case)
        want, pos = stream(case, case["list"]), 0
        for q, n in enumerate(case["sizes"]):
            what = f"request {q} of {case['sizes']}, {len(want) - pos} slices left"
            try:
                b = s.get_batch(n)
            except StopIteration:
                if pos < len(want):
                    return f"{what}: StopIteration"
                continue
            if pos >= len(want):
                return f"{what}: a batch"
            real = min(n, len(want) - pos)
            m = np.asarray(b.mask)
            if m.shape != (n,) or m.dtype != bool or not np.array_equal(m, np.arange(n) < real):
                return f"{what}: mask {m}, expected {real} of {n}"
            for name in ("flow_fields", "images1", "images2"):
                a = getattr(b, name)
                if name != "flow_fields" and not case.get("images"):
                    if a is not None:
                        return f"{what}: {name} appears"
                    continue
                if a is None or np.asarray(a).shape[0] != n:
                    return f"{what}: {name} has {None if a is None else np.asarray(a).shape}"
            if case.get("labels", True):
                if b.files is None or len(b.files) != n:
                    return f"{what}: files {b.files}"
            elif b.files is not None:
                return f"{what}: files {b.files} although the slices have none"
            for k in range(n):
                g = SchedulerData(flow_fields=np.asarray(b.flow_fields)[k],
                                  images1=None if b.images1 is None else np.asarray(b.images1)[k],
                                  images2=None if b.images2 is None else np.asarray(b.images2)[k],
                                  files=None if b.files is None else (b.files[k],))
                if k < real:
                    f, i = want[pos + k]
                    bad = same(g, f, i, paths[f], case, f"{what}: position {k}")
                    if bad:
                        return bad
                elif any(np.any(np.asarray(x)) for x in (g.flow_fields, g.images1, g.images2) if x is not None):
                    return f"{what}: position {k} is missing but not zero"
                elif g.files is not None and g.files != ("",):
                    return f"{what}: position {k} is missing but labelled {g.files}"
            pos += real
    return None
