import jax.numpy as jnp
import numpy as np

from lib import *
from synthpix.utils import bilinear_interpolate, trilinear_interpolate


def cases(rng, tier):
    for k, (d, h, w) in enumerate([(3, 4, 5), (1, 1, 1), (2, 1, 6), (5, 7, 1), (2, 2, 2), (4, 9, 3), (2, 300, 3), (2, 3, 300), (300, 2, 3)]):
        for what in ("bil", "tri"):
            yield {"fixed": True, "what": what, "shape": [d, h, w], "seed": k}
    while True:
        yield {"what": rng.choice(["bil", "tri"]),
               "shape": [rng.randint(1, 5), rng.randint(1, 7), rng.randint(1, 7)], "seed": rng.randrange(10 ** 6)}


def check(case):
    r = rs(case)
    D, H, W = case["shape"]
    n = 150
    if case["what"] == "bil":
        img = r.uniform(-50, 255, (H, W)).astype(np.float32)
        x, y = points(r, W, (10, 15)), points(r, H, (10, 15))
        got = np.asarray(bilinear_interpolate(jnp.asarray(img), jnp.asarray(x), jnp.asarray(y)))
        e = expect(got, bil(img, x, y), f"bilinear on {img.shape}")
        if e:
            return e
        xi, yi = np.meshgrid(np.arange(W), np.arange(H))
        got = bilinear_interpolate(jnp.asarray(img), jnp.asarray(xi, dtype=jnp.float32), jnp.asarray(yi, dtype=jnp.float32))
        return expect(got, img, "bilinear at integer coordinates", 1e-5)
    vol = r.uniform(-50, 255, (D, H, W)).astype(np.float32)
    x, y, z = points(r, W, (n,), False), points(r, H, (n,), False), points(r, D, (n,), False)
    got = trilinear_interpolate(jnp.asarray(vol), jnp.asarray(x), jnp.asarray(y), jnp.asarray(z))
    e = expect(got, tri(vol, x, y, z), f"trilinear on {vol.shape}")
    if e:
        return e
    zi, yi, xi = [a.astype(np.float32) for a in np.meshgrid(np.arange(D), np.arange(H), np.arange(W), indexing="ij")]
    return expect(trilinear_interpolate(jnp.asarray(vol), jnp.asarray(xi), jnp.asarray(yi), jnp.asarray(zi)), vol,
                  "trilinear at integer coordinates", 1e-5)
