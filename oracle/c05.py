import h5py
import jax
import scipy.io
from PIL import Image

from lib import *
from synthpix.scheduler import MATFlowFieldScheduler


def cases(rng, tier):
    F = {"fixed": True}
    yield {**F, "dirs": True}
    for fmt in ("v5", "h5"):
        yield {**F, "files": [{"fmt": fmt, "size": [8, 8]}], "out": [8, 8], "images": True}
        yield {**F, "files": [{"fmt": fmt, "size": [6, 9]}], "out": [6, 9], "images": True}
        yield {**F, "files": [{"fmt": fmt, "size": [6, 9], "first": True}], "out": [6, 9], "images": False}
        yield {**F, "files": [{"fmt": fmt, "size": [8, 20], "first": True}], "out": [16, 5], "images": True}
        yield {**F, "files": [{"fmt": fmt, "size": [8, 20]}], "out": [8, 10], "images": True}
        yield {**F, "files": [{"fmt": fmt, "size": [8, 20]}], "out": [16, 20], "images": True}
        yield {**F, "files": [{"fmt": fmt, "size": [12, 12]}, {"fmt": fmt, "size": [24, 24]}], "out": [12, 12], "images": True}
        yield {**F, "files": [{"fmt": fmt, "size": [12, 12], "isize": [24, 18]}], "out": [12, 12], "images": True}
        yield {**F, "files": [{"fmt": fmt, "size": [24, 10], "isize": [12, 14]}], "out": [12, 14], "images": True}
        for miss in ("V", "I0", "I1"):
            yield {**F, "files": [{"fmt": fmt, "size": [8, 8], "miss": miss}, {"fmt": fmt, "size": [8, 8]}], "out": [8, 8], "images": True}
            yield {**F, "files": [{"fmt": fmt, "size": [8, 8], "miss": miss}, {"fmt": fmt, "size": [8, 8]}], "out": [8, 8], "images": False}
        yield {**F, "files": [{"fmt": fmt, "size": [8, 8], "bad": True}], "out": [8, 8], "images": False}
        yield {**F, "files": [{"fmt": fmt, "size": [2, 7], "first": True}], "out": [2, 7], "images": True}
        yield {**F, "files": [{"fmt": fmt, "size": [7, 3], "first": True}], "out": [14, 3], "images": True}
        yield {**F, "files": [{"fmt": fmt, "size": [1, 7], "first": True}], "out": [1, 7], "images": True}
        yield {**F, "files": [{"fmt": fmt, "size": [9, 1], "first": True}], "out": [9, 1], "images": False}
    for fmt in ("v5", "h5"):
        for t in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "float64"):
            yield {**F, "files": [{"fmt": fmt, "size": [6, 9], "dtype": t}, {"fmt": fmt, "size": [12, 12], "dtype": t}], "out": [12, 12], "images": False}
    yield {**F, "files": [{"fmt": "h5", "size": [6, 9], "dtype": "float16"}], "out": [12, 12], "images": False}
    for size in ([6, 9], [1, 7], [9, 1]):
        yield {**F, "files": [{"fmt": "v5", "size": size, "surplus": True}], "out": [6, 9], "images": True}
        yield {**F, "files": [{"fmt": "v5", "size": size, "surplus": True, "first": True}], "out": size, "images": True}
    yield {**F, "files": [{"fmt": "junk", "size": [8, 8]}, {"fmt": "v5", "size": [8, 8]}], "out": [8, 8], "images": True}
    while True:
        out = [rng.randint(2, 24), rng.randint(2, 24)]
        fs = []
        for _ in range(rng.randint(1, 3)):
            f = {"fmt": rng.choice(["v5", "h5"]), "size": out if rng.random() < .3 else [rng.randint(3, 30), rng.randint(3, 30)], "first": rng.random() < .4}
            if rng.random() < .3:
                f["isize"] = [rng.randint(3, 30), rng.randint(3, 30)]
            if rng.random() < .15:
                f["dtype"] = rng.choice(["int16", "int32", "int64", "int8"])
            if rng.random() < .1:
                f["miss"] = rng.choice(["V", "I0", "I1"])
            fs.append(f)
        yield {"files": fs, "out": out, "images": rng.random() < .6, "seed": rng.randrange(10 ** 6)}


def make(d, k, f, seed):
    """Writes file k; returns its path and the flow (h, w, 2) and images it holds."""
    p = os.path.join(d, f"m{k}.mat")
    r = np.random.RandomState(seed + k)
    h, w = f["size"]
    ih, iw = f.get("isize", f["size"])
    yy, xx = np.mgrid[0:h, 0:w]
    V = np.stack([3 + k + xx * .5 + yy * .1, -2 - k + yy * .3 - xx * .2], -1).astype(np.float32)
    if not f.get("smooth", False) and r.rand() < .5:
        V = np.stack([np.full((h, w), r.uniform(1, 9)), np.full((h, w), r.uniform(-9, -1))], -1).astype(np.float32)
    if f.get("dtype"):
        V = np.round(V).clip(0 if f["dtype"][0] == "u" or f.get("unsigned") else -100, 100).astype(f["dtype"])
    a, b = np.mgrid[0:ih, 0:iw]
    I0 = ((a * 7 + b * 3) % 120 + 1).astype(np.uint8) if r.rand() < .5 else np.full((ih, iw), 30 + k, np.uint8)
    I1 = (I0 + 100).astype(np.uint8)
    out = {"V": np.transpose(V, (2, 0, 1)) if f.get("first") and w != 2 else V, "I0": I0, "I1": I1}
    if k % 2 == 0:
        out.update(I2=np.full_like(I0, 251), A=np.zeros((3, 3)), V0=np.zeros_like(V))
    if f.get("bad"):
        out["V"] = np.zeros((5, 7, 3), np.float32)
    if f.get("miss"):
        del out[f["miss"]]
    if f.get("surplus"):
        out = {n: x[None] for n, x in out.items()}
    if f["fmt"] == "junk":
        open(p, "wb").write(b"junk" * 50)
    elif f["fmt"] == "v5":
        scipy.io.savemat(p, out)
    else:
        with h5py.File(p, "w") as g:
            for n, x in out.items():
                g[n] = x
            if not f.get("miss"):
                g.create_group("zz")["V"] = np.zeros((3, 3))
    return p, V, I0, I1


def inner(a):
    return a[1:-1, 1:-1] if min(a.shape[:2]) > 4 else a[:0]


def resized(a, H, W):
    return np.asarray(Image.fromarray(a).resize((W, H), Image.Resampling.BILINEAR), dtype=np.float64)


def check(case):
    if case.get("dirs"):
        return listed_directories(lambda x: MATFlowFieldScheduler(x), ".mat", lambda p: scipy.io.savemat(p, {"V": np.zeros((2, 2, 2), np.float32)}))
    H, W = case["out"]
    with Tmp() as d:
        fs = [make(d, k, f, case.get("seed", 0)) for k, f in enumerate(case["files"])]
        s = MATFlowFieldScheduler([x[0] for x in fs], include_images=case["images"], output_shape=(H, W), loop=False)
        if tuple(s.get_flow_fields_shape()) != (H, W, 2):
            return f"get_flow_fields_shape is {s.get_flow_fields_shape()}"
        good = []
        for (p, V, I0, I1), f in zip(fs, case["files"]):
            miss = f.get("miss")
            ok = not f.get("bad") and f["fmt"] != "junk" and miss != "V" and not (case["images"] and miss)
            try:
                s.load_file(p)
                if not ok:
                    return f"load_file accepts {f} (images requested: {case['images']})"
                good.append((p, V, I0, I1, f))
            except Exception as e:
                if ok:
                    return f"load_file of {f} fails: {type(e).__name__} {e}"
        for k, f in enumerate(case["files"]):
            # the same velocities in floating point must give the same data
            if f.get("dtype") and fs[k][0] in [x[0] for x in good]:
                os.mkdir(os.path.join(d, f"float{k}"))
                q = make(os.path.join(d, f"float{k}"), k, {**f, "dtype": "float32", "unsigned": f["dtype"][0] == "u"}, case.get("seed", 0))[0]
                x, y = (np.asarray(s.load_file(z).flow_fields, dtype=np.float64) for z in (fs[k][0], q))
                if x.shape != y.shape or not np.allclose(x, y, atol=2e-2 if f["dtype"] == "float16" else 1e-3):
                    return f"{f} to {H}x{W}: the flow differs from the same values stored as float32: {worst(x, y) if x.shape == y.shape else x.shape}"
        for p, V, I0, I1, f in good:
            try:
                it = next_item(s)
            except StopIteration:
                return f"StopIteration before {os.path.basename(p)}"
            what = f"{f} to {H}x{W}"
            if tuple(it.files or ()) != (p,):
                return f"{what}: labelled {it.files}"
            g = np.asarray(it.flow_fields)
            if g.shape != (H, W, 2):
                return f"{what}: flow of shape {g.shape}"
            h, w = V.shape[:2]
            if (h, w) == (H, W):
                if not np.array_equal(g, V):
                    return f"{what}: the flow is not passed through unchanged: {worst(g, V)}"
            else:
                for c, ratio in ((0, W / w), (1, H / h)):
                    ref = resized(np.ascontiguousarray(V[..., c], dtype=np.float32), H, W) * ratio
                    lo, hi = float(V[..., c].min()) * ratio, float(V[..., c].max()) * ratio
                    tol = .5 * abs(hi - lo) * max(1 / h, 1 / w, 1 / H, 1 / W) * 4 + 1e-3 * (1 + abs(hi) + abs(lo))
                    if np.abs(g[..., c] - ref).max() > tol:
                        return f"{what}: velocity component {c} is not resized and scaled by {ratio}: {worst(g[..., c], ref)}"
            for name, I in (("images1", I0), ("images2", I1)):
                im = getattr(it, name)
                if not case["images"]:
                    if im is not None:
                        return f"{what}: {name} appears"
                    continue
                im = np.asarray(im) if im is not None else None
                if im is None or im.shape != (H, W):
                    return f"{what}: {name} has shape {None if im is None else im.shape}"
                if I.shape == (H, W):
                    if not np.array_equal(im, I):
                        return f"{what}: {name} is not passed through unchanged"
                elif abs(im.astype(float).mean() - resized(I, H, W).mean()) > 6 or (I.min() == I.max() and not np.all(im == I.min())):
                    return f"{what}: {name} is not the resized image: mean {im.astype(float).mean()}, expected {resized(I, H, W).mean()}"
        try:
            next_item(s)
            return "an item after the last file"
        except StopIteration:
            pass
    return None
