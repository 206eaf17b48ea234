import jax.numpy as jnp
import numpy as np

from lib import *
from synthpix.apply import (apply_flow_to_image_backward, apply_flow_to_image_callable,
                            apply_flow_to_image_forward)


def cases(rng, tier):
    k = 0
    for h, w in ((6, 4), (4, 7), (1, 5), (5, 1), (9, 9)):
        for mode in ("random", "inside", "border", "zero"):
            k += 1
            yield {"fixed": True, "h": h, "w": w, "mode": mode, "seed": k}
    while True:
        yield {"h": rng.randint(1, 9), "w": rng.randint(1, 9), "mode": rng.choice(["random", "inside", "border"]),
               "seed": rng.randrange(10 ** 6)}


def splat(img, flow, dt):
    H, W = img.shape
    out = np.zeros((H, W))
    for y in range(H):
        for x in range(W):
            xd, yd = x + float(flow[y, x, 0]) * dt, y + float(flow[y, x, 1]) * dt
            for Y in range(H):
                for X in range(W):
                    out[Y, X] += img[y, x] * max(0, 1 - abs(xd - X)) * max(0, 1 - abs(yd - Y))
    return out


def check(case):
    r = rs(case)
    H, W, mode = case["h"], case["w"], case["mode"]
    dt = float(r.choice([1.0, 0.5, 2.0, -1.0]))
    img = r.uniform(0, 255, (H, W)).astype(np.float32)
    ys, xs = np.mgrid[0:H, 0:W]
    if mode == "zero":
        flow = np.zeros((H, W, 2), np.float32)
    elif mode == "inside":
        flow = np.stack([r.uniform(0, W - 1, (H, W)) - xs, r.uniform(0, H - 1, (H, W)) - ys], -1).astype(np.float32) / dt
    elif mode == "border":
        flow = r.choice([-1.0, 0.0, 1.0, -0.5, 0.25, 2.5, -2.5], (H, W, 2)).astype(np.float32)
    else:
        flow = r.uniform(-5, 5, (H, W, 2)).astype(np.float32)
    f = np.asarray(apply_flow_to_image_forward(jnp.asarray(img), jnp.asarray(flow), dt))
    e = expect(f, splat(img, flow, dt), f"forward warp {mode} dt={dt}")
    if e:
        return e
    if mode in ("inside", "zero") and abs(f.sum() - img.sum()) > 1e-2 * img.sum() + 1e-3:
        return f"forward warp loses intensity: {f.sum()} of {img.sum()}"
    b = apply_flow_to_image_backward(jnp.asarray(img), jnp.asarray(flow), dt)
    e = expect(b, bil(img, xs - flow[..., 0] * dt, ys - flow[..., 1] * dt), f"backward warp {mode} dt={dt}")
    if e:
        return e
    t = float(r.choice([0.0, 1.5, -2.0]))
    fn = lambda t, x, y: (0.3 * x - 0.1 * y * y + t, 0.7 * t * y - 0.2 * x)
    u, v = fn(t, xs.astype(float), ys.astype(float))
    ff = np.stack([u + 0 * xs, v + 0 * xs], -1)
    for fwd in (False, True):
        got = apply_flow_to_image_callable(jnp.asarray(img), fn, t, dt, fwd)
        exp = splat(img, ff, dt) if fwd else bil(img, xs - ff[..., 0] * dt, ys - ff[..., 1] * dt)
        e = expect(got, exp, f"callable warp forward={fwd} t={t} dt={dt}", 5e-3)
        if e:
            return e
    if mode == "zero":
        return expect(f, img, "zero flow", 1e-6) or expect(b, img, "zero flow", 1e-6)
