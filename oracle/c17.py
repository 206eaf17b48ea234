from genlib import *


def cases(rng, tier):
    k = 0
    for noise in ((0, 0, 0), (5, 0, 0), (0, 3, 0), (0, 0, 4), (6, 2, 3), (0, 300, 0)):
        for mask in (False, True):
            k += 1
            yield {"fixed": True, "noise": noise, "mask": mask, "hist": k in (3, 4), "seed": k}
    while True:
        yield {"noise": rng.choice([(0, 0, 0), (5, 0, 0), (0, 3, 0), (0, 0, 4), (60, 2, 30)]), "mask": rng.random() < .5,
               "hist": rng.random() < .2, "seed": rng.randrange(10 ** 6)}


def check(case):
    r = rs(case)
    u, m, s = case["noise"]
    B, (h, w, oy, ox, pb) = int(r.randint(1, 4)), geometry(r)
    bright = r.rand() < .4
    p = spec(batch_size=B, image_shape=(h, w), img_offset=(oy, ox), noise_uniform=u, noise_gaussian_mean=m, noise_gaussian_std=s,
             intensity_ranges=[(900.0, 1000.0)] if bright else [(50.0, 80.0), (100.0, 200.0)],
             seeding_density_range=(0.0, 0.0) if u > 0 and r.rand() < .5 else (0.02, 0.05))
    flow = flow_of(r, int(r.randint(1, 4)), pb[0], pb[1], "random", 3)
    mask = (r.rand(h, w) < .5).astype(np.float32) if case["mask"] else None
    hist = np.bincount(r.randint(0, 256, h * w), minlength=256) if case["hist"] else None
    a, b, q, calls, draws = run(case["seed"], flow, p, pb, mask=None if mask is None else jnp.asarray(mask),
                                hist=None if hist is None else jnp.asarray(hist, dtype=jnp.float32))
    for k, im in enumerate((a, b)):
        if im.shape != (B, h, w):
            return f"image {k + 1}: shape {im.shape}, expected {(B, h, w)}"
        if not np.isfinite(im).all() or im.min() < 0 or im.max() > 255:
            return f"image {k + 1}: values in [{im.min()}, {im.max()}]"
        if mask is not None and hist is None and (im[:, mask == 0] != 0).any():
            return f"image {k + 1} is not zero where the mask is zero"
    if hist is not None:
        from synthpix.utils import match_histogram
        plain = run(case["seed"], flow, p, pb, mask=None if mask is None else jnp.asarray(mask))[:2]
        for k, (im, pl) in enumerate(zip((a, b), plain)):
            for i in range(B):
                d = np.abs(im[i] - np.asarray(match_histogram(jnp.asarray(pl[i]), jnp.asarray(hist, dtype=jnp.float32)))) > .5
                if d.mean() > .1:  # (rounding may move single pixels to a neighbouring level)
                    return f"image {k + 1} of pair {i} is not matched to the histogram{' (with a mask)' if mask is not None else ''} at {d.sum()} pixels"
        return None
    ps = pairs(calls, B)
    M = 1 if mask is None else mask
    if ps is not None:
        noises = []
        for i, pr in enumerate(ps):
            for k, (c, im) in enumerate(zip(pr, (a, b))):
                R = c["out"][oy:oy + h, ox:ox + w]
                if R.shape != (h, w):
                    return None  # rendered in another way
                raw = R.astype(float)
                if u == 0 and s == 0:
                    f = expect(im[i], np.clip(raw + m, 0, 255) * M, f"image {k + 1} of pair {i} (noise {case['noise']})")
                    if f:
                        return f
                    continue
                free = np.broadcast_to((im[i] > 0) & (im[i] < 255), (h, w))
                d = (im[i] - raw - m)[free]
                if s == 0 and d.size and (d.min() < -1e-2 or d.max() > u + 1e-2):
                    return f"image {k + 1} of pair {i}: uniform noise in [{d.min()}, {d.max()}], expected [0, {u})"
                noises.append(np.where(free, im[i] - raw - m, np.nan))
        # every pixel of every image has its own noise
        for x in range(len(noises)):
            for y in range(x):
                ok = np.isfinite(noises[x]) & np.isfinite(noises[y])
                if ok.sum() > 30 and np.abs(noises[x] - noises[y])[ok].max() < 1e-2:
                    return f"two of the images have the same noise ({case['noise']})"
            v = noises[x][np.isfinite(noises[x])]
            if v.size > 60:
                if len(np.unique(np.round(v, 3))) < v.size / 4:
                    return f"noise repeats over the pixels of an image ({case['noise']})"
                sd = np.sqrt(u * u / 12 + s * s)
                if m >= 5 * s and v.size == h * w and u == 0:
                    if abs(v.mean()) > 6 * sd / np.sqrt(v.size) or not .7 * sd < v.std() < 1.4 * sd:
                        return f"Gaussian noise: mean {v.mean()}, deviation {v.std()}, expected 0, {sd}"
    return None
