import jax.numpy as jnp
import numpy as np

from lib import *
from synthpix.generate import gaussian_2d_correlated, img_gen_from_data


def cases(rng, tier):
    k = 0
    for mode in ("one", "many", "overlap", "outside", "corner", "anisotropic"):
        for clip in (True, False):
            k += 1
            yield {"fixed": True, "mode": mode, "clip": clip, "seed": k}
    for D in (9.0, 14.0, 30.0):
        yield {"fixed": True, "mode": "many", "clip": True, "seed": 3, "D": D}
    yield {"fixed": True, "mode": "many", "clip": False, "seed": 3, "negative": True}
    yield {"fixed": True, "mode": "many", "clip": True, "seed": 4, "negative": True}
    while True:
        yield {"mode": rng.choice(["one", "many", "overlap", "outside", "corner", "anisotropic"]), "clip": rng.random() < .5,
               "seed": rng.randrange(10 ** 6)}


def render(pos, H, W, D, dx, dy, amp, rho, eps):
    r = int(3 * D / 2)
    out = np.zeros((H, W))
    for (y, x), a, b, i, c in zip(pos.astype(float), dx, dy, amp, rho):
        y, x = min(max(y, r), H - r - eps), min(max(x, r), W - r - eps)
        fy, fx = int(np.floor(y)), int(np.floor(x))
        Y, X = np.mgrid[max(0, fy - r):min(H, fy + r + 1), max(0, fx - r):min(W, fx + r + 1)]
        u, v = (X - x) / (a / 2), (Y - y) / (b / 2)
        out[Y, X] += i * np.exp(-(u * u + v * v - 2 * c * u * v) / (2 * (1 - c * c)))
    return out


def check(case):
    r, mode = rs(case), case["mode"]
    D = case.get("D") or float(r.choice([0.5, 1.0, 1.3, 2.0, 3.0]))
    rad = int(3 * D / 2)
    H, W = 2 * rad + 1 + int(r.randint(0, 9)), 2 * rad + 1 + int(r.randint(0, 12))
    n = 1 if mode == "one" else int(r.randint(2, 12))
    pos = np.stack([r.uniform(rad, H - rad - .01, n), r.uniform(rad, W - rad - .01, n)], -1)
    if mode == "overlap":
        pos[:] = pos[:1]
    if mode == "outside":
        pos = np.stack([r.uniform(-5, H + 5, n), r.uniform(-5, W + 5, n)], -1)
    if mode == "corner":
        pos = np.stack([r.choice([0, rad, H - rad - .25, H - .5], n), r.choice([0, rad, W - rad - .25, W - .5], n)], -1)
    pos = pos.astype(np.float32)
    dx = r.uniform(0.3 * D, D, n).astype(np.float32)
    dy = (r.uniform(0.3 * D, D, n) if mode == "anisotropic" else dx).astype(np.float32)
    amp = r.uniform(20, 300, n).astype(np.float32)
    if case.get("negative"):
        amp = amp - 160
    rho = r.uniform(-0.9, 0.9, n).astype(np.float32)
    got = np.asarray(img_gen_from_data(jnp.asarray(pos), image_shape=(H, W), max_diameter=D, diameters_x=jnp.asarray(dx),
                                       diameters_y=jnp.asarray(dy), intensities=jnp.asarray(amp), rho=jnp.asarray(rho),
                                       clip=case["clip"]))
    # (a particle clamped to the far border sits on the last sub-pixel: either side of it is accepted)
    exp = [render(pos, H, W, D, dx, dy, amp, rho, e) for e in (1e-6, 0.0)]
    if case["clip"]:
        exp = [np.clip(e, 0, 255) for e in exp]
    if got.shape != (H, W):
        return f"shape {got.shape}, expected {(H, W)}"
    if mode in ("outside", "corner"):
        lo, hi = np.minimum(*exp), np.maximum(*exp)
        bad = (got < lo - .1 - .01 * np.abs(lo)) | (got > hi + .1 + .01 * np.abs(hi))
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            return f"rendering ({mode}, D={D}, {n} particles, {H}x{W}) at {i}: {got[i]}, expected {lo[i]}..{hi[i]}"
        return None
    return expect(got, exp[0], f"rendering ({mode}, D={D}, {n} particles, {H}x{W}, clip={case['clip']})", 5e-3)
