import jax.numpy as jnp
import numpy as np

from lib import *
from synthpix.utils import match_histogram


def cases(rng, tier):
    k = 0
    yield {"fixed": True, "big": True, "seed": 1}
    for src in ("uniform", "levels", "fraction", "constant", "extremes"):
        for tgt in ("own", "random", "sparse", "peak", "unequal"):
            k += 1
            yield {"fixed": True, "src": src, "tgt": tgt, "int": k % 4 == 0, "seed": k}
    while True:
        yield {"src": rng.choice(["uniform", "levels", "fraction", "constant", "extremes"]),
               "tgt": rng.choice(["own", "random", "sparse", "peak", "unequal"]), "int": rng.random() < .25,
               "seed": rng.randrange(10 ** 6)}


def big(case):
    """Many pixels of a level: the matched image by whole levels."""
    r = rs(case)
    n = 300
    src = np.full((n, n), 200, np.float32)
    src[: n // 6] = r.randint(0, 256, (n // 6, n))
    t = np.bincount(r.randint(0, 256, n * n), minlength=256)
    out = np.asarray(match_histogram(jnp.asarray(src), jnp.asarray(t, dtype=jnp.float32)))
    cs, ct = np.cumsum(np.bincount(src.astype(int).ravel(), minlength=256)), np.cumsum(t)
    want = np.searchsorted(ct, cs)[src.astype(int)]
    d = np.abs(out - want)
    if d.max() > 1 or (d > 0).mean() > .7:
        return f"{n}x{n} pixels, most of one level: {(d > 0).sum()} pixels differ from the matched image by up to {d.max()}"
    return None


def check(case):
    if case.get("big"):
        return big(case)
    r = rs(case)
    H, W = int(r.randint(1, 12)), int(r.randint(1, 14))
    n = H * W
    src = {"uniform": lambda: r.uniform(0, 255, (H, W)), "levels": lambda: r.randint(0, 256, (H, W)),
           "fraction": lambda: r.randint(0, 8, (H, W)) * 31 + r.choice([0, .25, .5, .75, .99], (H, W)),
           "constant": lambda: np.full((H, W), r.randint(0, 256)),
           "extremes": lambda: r.choice([0, 1, 254, 255], (H, W))}[case["src"]]()
    src = np.clip(src, 0, 255).astype(np.int32 if case["int"] else np.float32)
    lev = np.floor(src).astype(int)
    t = {"own": lambda: np.bincount(r.permutation(lev.ravel()), minlength=256),
         "random": lambda: np.bincount(r.randint(0, 256, n), minlength=256),
         "sparse": lambda: np.bincount(r.choice([0, 3, 100, 255, 17], n), minlength=256),
         "peak": lambda: np.bincount(np.full(n, r.randint(0, 256)), minlength=256),
         "unequal": lambda: np.bincount(r.randint(0, 256, 7 * n + 3), minlength=256)}[case["tgt"]]()
    t = t.astype(np.int64)
    out = np.asarray(match_histogram(jnp.asarray(src), jnp.asarray(t, dtype=jnp.float32)))
    if out.shape != src.shape or out.dtype != src.dtype:
        return f"output {out.shape} {out.dtype} for a source {src.shape} {src.dtype}"
    cs, ct = np.cumsum(np.bincount(lev.ravel(), minlength=256)), np.cumsum(t)
    S, T = int(cs[-1]), int(ct[-1])
    for y in range(H):
        for x in range(W):
            # exact comparison of the rationals cs[l]/S and ct[m]/T
            q = int(cs[lev[y, x]])
            m = next(j for j in range(256) if int(ct[j]) * S >= q * T)
            if out[y, x] == m:
                continue
            # unequal totals: a tie may be rounded either way
            if S != T and 0 <= out[y, x] <= 255 and out[y, x] == int(out[y, x]):
                j = int(out[y, x])
                if ct[j] / T >= q / S - 1e-6 and (j == 0 or ct[j - 1] / T < q / S + 1e-6):
                    continue
            return (f"pixel {(y, x)} of value {src[y, x]} becomes {out[y, x]}, expected {m} "
                    f"({case['src']} source, {case['tgt']} target, {H}x{W}, seed {case['seed']})")
    return None
