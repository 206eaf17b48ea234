import jax.numpy as jnp
import numpy as np

from lib import *
from synthpix.apply import apply_flow_to_particles


def cases(rng, tier):
    k = 0
    for dim in (2, 3):
        for (n, d, h, w) in ((5, 3, 6, 4), (1, 2, 3, 9), (40, 4, 5, 7)):
            k += 1
            yield {"fixed": True, "dim": dim, "n": n, "shape": [d, h, w], "dt": [0.1, 1.0, 2.0][k % 3], "seed": k}
    yield {"fixed": True, "dim": 2, "n": 6, "shape": [3, 4, 5], "dt": 0.0, "seed": 9}
    yield {"fixed": True, "dim": 3, "n": 6, "shape": [3, 4, 5], "dt": 0.0, "seed": 9}
    while True:
        yield {"dim": rng.choice([2, 3]), "n": rng.randint(1, 60),
               "shape": [rng.randint(1, 5), rng.randint(1, 8), rng.randint(1, 8)],
               "dt": rng.choice([0.5, -1.0, 3.0, 0.01]), "seed": rng.randrange(10 ** 6)}


def check(case):
    r = rs(case)
    D, H, W = case["shape"]
    n, dt = case["n"], case["dt"]
    res = [float(v) for v in r.choice([0.5, 1.0, 2.0, 3.7], 3, replace=False)]
    if case["dim"] == 2:
        pos = np.stack([points(r, H, (n,)), points(r, W, (n,))], -1)
        flow = r.uniform(-4, 4, (H, W, 2)).astype(np.float32)
        u, v = bil(flow[..., 0], pos[:, 1], pos[:, 0]), bil(flow[..., 1], pos[:, 1], pos[:, 0])
        exp = np.stack([pos[:, 0] + dt * res[1] * v, pos[:, 1] + dt * res[0] * u], -1)
        exp1 = np.stack([pos[:, 0] + dt * v, pos[:, 1] + dt * u], -1)
    else:
        pos = np.stack([points(r, D, (n,), False), points(r, H, (n,), False), points(r, W, (n,), False)], -1)
        flow = r.uniform(-4, 4, (D, H, W, 3)).astype(np.float32)
        u, v, w = [tri(flow[..., c], pos[:, 2], pos[:, 1], pos[:, 0]) for c in range(3)]
        exp = np.stack([pos[:, 0] + dt * res[2] * w, pos[:, 1] + dt * res[1] * v, pos[:, 2] + dt * res[0] * u], -1)
        exp1 = np.stack([pos[:, 0] + dt * w, pos[:, 1] + dt * v, pos[:, 2] + dt * u], -1)
    got = apply_flow_to_particles(jnp.asarray(pos), jnp.asarray(flow), dt, *res)
    e = expect(got, exp, f"advection of {n} particles in {case['dim']}D, dt={dt}, resolutions {res}")
    if e:
        return e
    return expect(apply_flow_to_particles(jnp.asarray(pos), jnp.asarray(flow), dt), exp1, "default resolutions")
