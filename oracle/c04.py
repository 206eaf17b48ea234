from schedlib import *


def cases(rng, tier):
    F = {"fixed": True}
    yield {**F, "dirs": True}
    yield {**F, "files": [{"shape": [3, 4, 5, 2]}, {"shape": [3, 2, 5, 2]}]}
    yield {**F, "files": [{"shape": [2, 1, 2, 3]}, {"shape": [2, 1, 2, 3], "names": ["b", "a"]}]}
    yield {**F, "files": [{"shape": [4, 7, 3, 2], "dtype": "float64"}, {"shape": [4, 1, 3, 2], "dtype": "float64"}], "loop": True}
    yield {**F, "files": [{"shape": [4, 3, 3, 2], "dtype": "int16"}]}
    yield {**F, "files": [{"shape": [4, 0, 3, 2]}, {"shape": [4, 2, 3, 2]}]}
    yield {**F, "files": [{"shape": [4, 2, 3, 2], "group": True}, {"shape": [4, 2, 3, 2]}, {"shape": [4, 2, 3, 2], "empty": True}]}
    yield {**F, "files": [{"shape": [4, 2, 3, 2], "names": ["z", "m", "c"]}, {"shape": [4, 3, 3, 2]}, {"shape": [4, 2, 3, 2], "junk": True}], "random": True}
    yield {**F, "files": [{"shape": [5, 2, 4, 2]}, {"shape": [3, 1, 6, 2]}, {"shape": [2, 3, 2, 2]}]}
    yield {**F, "files": [{"shape": [2, 258, 2, 2]}, {"shape": [2, 3, 2, 2]}]}
    while True:
        xz = [rng.randint(1, 6), rng.randint(1, 6), rng.randint(1, 3)]
        fs = []
        for _ in range(rng.randint(1, 4)):
            f = {"shape": [xz[0], rng.choice([0, 1, 2, 3, 6]), xz[1], xz[2]], "dtype": rng.choice(["float32", "float32", "float64", "int32", "float16"])}
            r = rng.random()
            if r < .1:
                f["group"] = True
            elif r < .15:
                f["empty"] = True
            elif r < .2:
                f["junk"] = True
            elif r < .5:
                f["names"] = rng.sample("abcdefg", rng.randint(1, 4))
            fs.append(f)
        yield {"files": fs, "random": rng.random() < .3, "loop": rng.random() < .2}


def write_h5(d, k, f):
    """Returns (path, data or None)."""
    p = os.path.join(d, f"file{k}.h5")
    r = np.random.RandomState(50 + k)
    v = lambda: (r.randn(*f["shape"]) * 50).astype(f.get("dtype", "float32"))
    if f.get("junk"):
        open(p, "wb").write(b"not hdf5")
        return p, None
    with h5py.File(p, "w") as h:
        if f.get("empty"):
            return p, None
        if f.get("group"):
            h.create_group("a").create_dataset("x", data=v())
            h["b"] = v()
            return p, None
        names = f.get("names", ["data"])
        vals = {n: v() + np.asarray(i * 100, dtype=f.get("dtype", "float32")) for i, n in enumerate(names)}
        for n in names:
            h[n] = vals[n]
    with h5py.File(p, "r") as h:
        first = list(h)[0]
    return p, vals[first]


def check(case):
    if case.get("dirs"):
        def write(p):
            with h5py.File(p, "w") as h:
                h["v"] = np.zeros((2, 1, 2, 2), np.float32)
        return listed_directories(lambda x: HDF5FlowFieldScheduler(x), ".h5", write)
    with Tmp() as d:
        fs = [write_h5(d, k, f) for k, f in enumerate(case["files"])]
        by = dict(fs)
        s = HDF5FlowFieldScheduler([p for p, _ in fs], randomize=case.get("random", False), loop=False, key=jax.random.PRNGKey(3))
        for p, a in fs:
            try:
                got = s.load_file(p)
            except Exception as e:
                if a is not None:
                    return f"load_file of {os.path.basename(p)} fails: {e}"
                continue
            if a is None:
                return f"load_file of {os.path.basename(p)}, whose first entry is not a dataset, gives data"
            g = np.asarray(got.flow_fields)
            if g.dtype != a.dtype or not np.array_equal(g, a):
                return f"load_file of {os.path.basename(p)}: {g.dtype} {g.shape}, expected {a.dtype} {a.shape} unchanged"
            if tuple(got.files or ()) != (p,):
                return f"load_file labels {got.files}"
        def reported():
            a = by[s.file_list[0]]
            if a is None or a.ndim != 4 or a.shape[3] != 2:
                return None
            sh = tuple(s.get_flow_fields_shape())
            if sh != (a.shape[0], a.shape[2], 2):
                return f"get_flow_fields_shape is {sh}, the slices of the first file ({os.path.basename(s.file_list[0])}) have shape {(a.shape[0], a.shape[2], 2)}"
        if bad := reported():
            return bad
        for turn in range(2):
            for p in list(s.file_list):
                a = by[p]
                if a is None:
                    continue
                for y in range(a.shape[1]):
                    try:
                        it = next_item(s)
                    except StopIteration:
                        return f"StopIteration before slice {y} of {os.path.basename(p)}"
                    g = np.asarray(it.flow_fields)
                    if g.dtype != a.dtype or not np.array_equal(g, a[:, y, :, :]):
                        return f"slice {y} of {os.path.basename(p)} ({a.shape}) is not data[:, {y}]: {g.shape} {worst(g, a[:, y]) if g.shape == a[:, y].shape else ''}"
                    if tuple(it.files or ()) != (p,):
                        return f"slice {y} of {p} is labelled {it.files}"
                    if it.images1 is not None or it.images2 is not None:
                        return "an image appears"
                    if y == 0 and (bad := reported()):
                        return bad
            try:
                next_item(s)
                return "a slice after the last one"
            except StopIteration:
                pass
            s.reset()
    return None
