from schedlib import *


def cases(rng, tier):
    F = {"fixed": True}
    yield {**F, "slices": [3, 2, 4], "list": [0, 1, 2]}
    yield {**F, "slices": [3, 2, 4], "list": [0, 1, 2], "fmt": "h5"}
    yield {**F, "slices": [3, 2, 4], "list": [0, 1, 1, 2, 0], "fmt": "h5", "twins": True}
    yield {**F, "slices": [3, 2, 4], "list": [0, 1, 1, 2, 0], "fmt": "h5", "links": True}
    yield {**F, "slices": [300, 2], "list": [0, 1], "fmt": "h5"}
    yield {**F, "slices": [3, 2], "list": [0, 1], "reset_after": 3}
    yield {**F, "slices": [3, 2], "list": [0, 1], "reset_after": 2}
    yield {**F, "slices": [2, 1], "list": [0, 0, 1, 1, 0]}
    yield {**F, "slices": [2, None, 0, 3], "list": [1, 0, 1, 2, 3, 1]}
    yield {**F, "slices": [2, None, 3], "list": [0, 1, 0, 0, 1, 0, 2]}
    yield {**F, "slices": [2, None, 3], "list": [1, 0, 0, 1, 2], "fmt": "h5"}
    yield {**F, "slices": [None, None], "list": [0, 1, 0]}
    yield {**F, "slices": [0, 0, 1, 0], "list": [0, 1, 2, 3]}
    yield {**F, "slices": [3, 3], "list": [0, 1], "reset_after": 4}
    yield {**F, "slices": [2, 2], "list": [0, 0, 1], "reset_after": 99}
    yield {**F, "slices": [2, 3, 1, 2], "list": [0, 1, 2, 3], "dirs": "FDF"}
    yield {**F, "slices": [2, 3, 1, 2, 1, 1], "list": list(range(6)), "dirs": "DD"}
    yield {**F, "slices": [2, 3, 1, 2, 1, 1], "list": list(range(6)), "dirs": "DFD"}
    yield {**F, "slices": [2, 3, 1, 2, 1, 1], "list": list(range(6)), "dirs": "NFN"}
    yield {**F, "slices": [2, 3, 1, 2, 1, 1], "list": list(range(6)), "dirs": "BFB"}
    yield {**F, "slices": [2, 3, 1, 2, 1, 1], "list": list(range(6)), "dirs": "FAD"}
    while True:
        s, l = some_list(rng)
        c = {"slices": s, "list": l, "fmt": rng.choice(["mem", "mem", "mem", "h5"]), "images": rng.random() < .3}
        if c["fmt"] == "h5":
            c["images"] = False
        if c["fmt"] == "h5":
            c["twins"] = rng.random() < .5
        if rng.random() < .4:
            c["reset_after"] = rng.randint(0, 8)
        if rng.random() < .3 and c["fmt"] == "mem":
            s = [rng.choice([1, 2, 3, None]) for _ in range(6)]
            c = {"slices": s, "list": list(range(6)), "dirs": rng.choice(["F", "D", "DF", "DFD", "FDF", "DD", "NF", "BFA", "NDN", "AB"])}
        yield c


def directories(d, case):
    """Entries that are files or directories holding two files each (created in reverse order of their names)."""
    r = np.random.RandomState(3)
    entries, order, f = [], [], 0
    for k, c in enumerate(case["dirs"]):
        if c == "F":
            entries.append(write(d, f, case["slices"][f], "mem"))
            order.append(f)
            f += 1
        else:
            sub = os.path.join(d, f"z{9 - k}")
            os.mkdir(sub)
            two = [g for g in (f, f + 1) if g < len(case["slices"])]
            for g in reversed(two):
                write(sub, g, case["slices"][g], "mem")
            open(os.path.join(sub, "other.txt"), "w").close()
            if c == "N":
                # in subdirectories, the one of the later name first
                for g, name in zip(two, "nm"):
                    os.mkdir(os.path.join(sub, name))
                    p = f"s{g:03d}.dat"
                    os.rename(os.path.join(sub, p), os.path.join(sub, name, p))
                two = two[::-1]
            # before or after the directory, one of its files by its own name
            one = [os.path.join(sub, f"s{two[-1]:03d}.dat")]
            entries += (one if c == "B" else []) + [sub] + (one if c == "A" else [])
            order += (two[-1:] if c == "B" else []) + two + (two[-1:] if c == "A" else [])
            f += 2
    return entries, order


def check(case):
    with Tmp() as d:
        if case.get("dirs"):
            entries, order = directories(d, case)
            s = type("F", (Fmt,), {"table": table_of(case["slices"]), PATTERN: "**/*.dat"})(entries)
            case = {**case, "images": False}
            want = stream(case, order)
            path = lambda f, p=s: [x for x in p.file_list if os.path.basename(x) == f"s{f:03d}.dat"][0]
            if [int(os.path.basename(p)[1:4]) for p in s.file_list] != order:
                return f"the files are {[os.path.basename(p) for p in s.file_list]}, expected those of {case['dirs']} in order"
        else:
            s, paths = build(d, case)
            want = stream(case, case["list"])
            path = lambda f: paths[f]
        n = 0
        for turn in range(2):
            for j, (f, k) in enumerate(want):
                if turn == 0 and j == case.get("reset_after", -1):
                    break
                try:
                    it = next_item(s)
                except StopIteration:
                    return f"StopIteration after {j} of {len(want)} slices (turn {turn})"
                bad = same(it, f, k, path(f), case, f"slice {j} (turn {turn})")
                if bad:
                    return bad
            else:
                for _ in range(3):
                    try:
                        it = next_item(s)
                        return f"a slice after the last of {len(want)} (turn {turn}): {np.asarray(it.flow_fields).ravel()[:1]}"
                    except StopIteration:
                        pass
                try:
                    s.get_batch(2)
                    return "a batch after the last slice"
                except StopIteration:
                    pass
            s.reset()
    return None
