import jax.numpy as jnp
import numpy as np

from lib import *
from synthpix.utils import flow_field_adapter


def cases(rng, tier):
    for k in range(8):
        yield {"fixed": True, "seed": k, "n": (1, 2, 3, 3)[k % 4], "batch": (1, 5, 3, 7)[k % 4], "px": k % 2 == 0,
               "pad": k >= 4, "one": k == 6, "eq": k in (2, 4)}
    while True:
        yield {"seed": rng.randrange(10 ** 6), "n": rng.randint(1, 4), "batch": rng.randint(1, 9), "px": rng.random() < .5,
               "pad": rng.random() < .5, "one": rng.random() < .1}


def interp(f, ys, xs, pad):
    f = np.pad(f, ((pad[0], 0), (pad[1], 0), (0, 0)), mode="edge")
    X, Y = np.meshgrid(xs, ys)
    return np.stack([bil(f[..., c], X, Y) for c in (0, 1)], -1)


def lin(a, length, n):
    return np.array([a]) if n == 1 else a + (length - 1) / (n - 1) * np.arange(n)


def check(case):
    r = rs(case)
    n, b = case["n"], case["batch"]
    H, W = r.randint(3, 9), r.randint(3, 9)
    flow = r.normal(0, 5, (n, H, W, 2)).astype(np.float32)
    nh, nw = (1, 1) if case["one"] else (r.randint(1, 8), r.randint(1, 8))
    ih, iw = r.randint(2, 12), r.randint(2, 12)
    off = (int(r.randint(0, 4)), int(r.randint(0, 4)))
    res = float(r.choice([1.0, 2.0, 0.5, 4.0]))
    rx, ry = float(r.choice([1.0, 2.0, 0.5])), float(r.choice([1.0, 2.0, 0.25]))
    pb = (ih + off[0] + int(r.randint(0, 4)), iw + off[1] + int(r.randint(0, 4)))
    pbo = (float(r.choice([0, 0.5, 1.25])), float(r.choice([0, 0.75, 2.0])))
    pad = (int(r.randint(0, 3)), int(r.randint(0, 3))) if case["pad"] else (0, 0)
    dt = float(r.choice([1.0, 0.1, 2.5, res]))
    if case.get("eq"):
        res = dt = 2.0  # (numbers that coincide)
    a, region = flow_field_adapter(
        jnp.asarray(flow), new_flow_field_shape=(nh, nw), image_shape=(ih, iw), img_offset=off, resolution=res, res_x=rx,
        res_y=ry, position_bounds=pb, position_bounds_offset=pbo, batch_size=b,
        output_units="pixels" if case["px"] else "measure units per second", dt=dt, zero_padding=pad)
    if a.shape != (b, nh, nw, 2):
        return f"shape {a.shape}, expected {(b, nh, nw, 2)}"
    sy, sx = pbo[0] * ry + off[0] / res * ry, pbo[1] * rx + off[1] / res * rx
    for k in range(b):
        e = interp(flow[k % n], lin(sy, ih / res * ry, nh), lin(sx, iw / res * rx, nw), pad) * (res * dt if case["px"] else 1)
        f = expect(a[k], e, f"entry {k} of {b} from {n} fields")
        if f:
            return f
    rh, rw = pb[0] / res * ry, pb[1] / res * rx
    gh, gw = max(1, int(rh)), max(1, int(rw))
    if region.shape != (n, gh, gw, 2):
        return f"region shape {region.shape}, expected {(n, gh, gw, 2)}"
    for k in range(n):
        e = interp(flow[k], lin(pbo[0] * ry, rh, gh), lin(pbo[1] * rx, rw, gw), pad)
        f = expect(region[k], e, f"region of field {k}")
        if f:
            return f
    return None
