from schedlib import *


def cases(rng, tier):
    F = {"fixed": True}
    for rnd in (False, True):
        yield {**F, "slices": [3, 2, 4], "list": [0, 1, 2], "loop": True, "random": rnd, "ops": [4, 4, 4, 4, 11, 2, "r", 4, 9, 1], "key": 5}
        yield {**F, "slices": [1, 1, 1, 1, 1, 1], "list": list(range(6)), "loop": True, "random": rnd, "ops": [6, 6, 6, "r", 6, "r", "r", 3, 6], "key": 1}
        yield {**F, "slices": [2, None, 0, 1], "list": [0, 1, 2, 3], "loop": True, "random": rnd, "ops": [5, 1, 2, 7, "r", 2, "r", 4], "key": None}
        yield {**F, "slices": [2, 2], "list": [0, 0, 1], "loop": True, "random": rnd, "ops": [6, 6, 13, "r", 5], "key": 2}
        yield {**F, "slices": [2], "list": [0], "loop": True, "random": rnd, "ops": [1, 1, 1, 5, "r", 3], "key": 2}
        yield {**F, "slices": [2, 1, 3, 2, 1], "list": [0, 1, 2, 3, 4], "loop": False, "random": rnd, "ops": [4, "r", 9, "r", 2, "r", 9], "key": 3}
        yield {**F, "slices": [2, 1, 3], "list": [0, 1, 2], "loop": True, "random": rnd, "ops": [3, "r", 2, 9], "key": 3, "fmt": "h5"}
        yield {**F, "slices": [1] * 150, "list": list(range(150)), "loop": True, "random": rnd, "ops": [150, "r", 5, "r"], "key": 4}
    while True:
        s, l = some_list(rng)
        loop = rng.random() < .7
        if loop and not any(s[f] for f in l):
            continue
        yield {"slices": s, "list": l, "loop": loop, "random": rng.random() < .6, "fmt": rng.choice(["mem", "mem", "mem", "h5"]),
               "ops": [rng.choice(["r", 1, 2, 3, 5, 8]) for _ in range(rng.randint(3, 8))], "key": rng.choice([None, 0, 1, 7, 123])}


def run(case, d):
    key = None if case["key"] is None else jax.random.PRNGKey(case["key"])
    s, paths = build(d, case, randomize=case["random"], loop=case["loop"], key=key)
    orders, trace = [], []

    def order():
        o = [number(paths, p) for p in s.file_list]
        if sorted(o) != sorted(case["list"]):
            return f"the order {o} is not a permutation of {case['list']}"
        if not case["random"] and o != case["list"]:
            return f"the order {o} is not the one listed, {case['list']}"
        orders.append(o)
    bad = order()
    if bad:
        return bad, None
    want, pos = stream(case, orders[-1]), 0
    for q, op in enumerate(case["ops"]):
        what = f"operation {q} of {case['ops']}"
        if op == "r":
            s.reset()
            bad = order()
            if bad:
                return f"{what}: {bad}", None
            want, pos = stream(case, orders[-1]), 0
            continue
        try:
            b = s.get_batch(op)
        except StopIteration:
            if case["loop"] or pos < len(want):
                return f"{what}: StopIteration", None
            continue
        if case["loop"] and not (np.asarray(b.mask).shape == (op,) and np.asarray(b.mask).all()):
            return f"{what}: mask {b.mask} of a looping scheduler", None
        for k in range(op):
            if pos >= len(want):
                if not case["loop"]:
                    if np.asarray(b.mask)[k]:
                        return f"{what}: more slices than files have", None
                    continue
                # a new pass: over the order the scheduler has now, unless several passes are within one batch
                o = [number(paths, p) for p in b.files[k:] if p]
                if case["random"]:
                    left = len(o)
                    if left > len(want):
                        # the order of a pass in the middle is read off the batch
                        nxt = []
                        for f in o[:len(want)]:
                            nxt.append(f)
                        if sorted(nxt) != sorted(f for f, _ in want):
                            return f"{what}: a pass serves files {nxt}, not a permutation of {[f for f, _ in want]}", None
                        seen, seq = {}, []
                        for f in nxt:
                            n = case["slices"][f]
                            seq.append((f, seen.get(f, 0) % n))
                            seen[f] = seen.get(f, 0) + 1
                        want = seq
                    else:
                        bad = order()
                        if bad:
                            return f"{what}: {bad}", None
                        want = stream(case, orders[-1])
                pos = 0
            f, i = want[pos]
            pos += 1
            g = SchedulerData(flow_fields=np.asarray(b.flow_fields)[k], files=(b.files[k],))
            bad = same(g, f, i, paths[f], {}, f"{what}: position {k}")
            if bad:
                return bad, None
            trace.append((f, i))
    return None, (orders, trace)


def check(case):
    with Tmp() as d:
        case = {**case, "images": False}
        bad, a = run(case, d)
        if bad:
            return bad
        jax.random.uniform(jax.random.PRNGKey(99))
        np.random.seed(1)
        bad, b = run(case, d)
        if bad:
            return bad
        if a != b:
            return f"two runs with the same key differ: {a} and {b}"
        if not case["loop"]:
            bad, c = run({**case, "ops": [o for o in case["ops"] if o == "r"]}, d)
            if bad:
                return bad
            if a[0] != c[0]:
                return f"the orders after the resets are {a[0]}, or {c[0]} when nothing is served in between: {case['ops']}"
    return None
