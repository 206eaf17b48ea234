import dataclasses

from synthpix.types import ImageGenerationSpecification as S

DEF = dict(batch_size=4, image_shape=(8, 9), img_offset=(2, 2.5), seeding_density_range=(0.1, 0.2), p_hide_img1=0.1,
           p_hide_img2=0.2, diameter_ranges=[(0.5, 1.0), (1, 2)], diameter_var=0.1, intensity_ranges=[(50, 60.0)],
           intensity_var=1, rho_ranges=[(-0.2, 0.2), (0, 0), (0.5, 0.9)], rho_var=0, dt=0.5, noise_uniform=1.0,
           noise_gaussian_mean=0.5, noise_gaussian_std=2)
NONNEG = ["diameter_var", "intensity_var", "rho_var", "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std"]


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def valid(f):
    if not (isinstance(f["batch_size"], int) and f["batch_size"] > 0):
        return False
    s = f["image_shape"]
    if not (isinstance(s, tuple) and len(s) == 2 and all(isinstance(v, int) and v > 0 for v in s)):
        return False
    for k in ("img_offset", "seeding_density_range"):
        s = f[k]
        if not (isinstance(s, tuple) and len(s) == 2 and all(num(v) and v >= 0 for v in s)):
            return False
    if f["seeding_density_range"][0] > f["seeding_density_range"][1]:
        return False
    for k in ("p_hide_img1", "p_hide_img2"):
        if not (num(f[k]) and 0 <= f[k] <= 1):
            return False
    for k, (lo, hi) in {"diameter_ranges": (0, None), "intensity_ranges": (0, None), "rho_ranges": (-1, 1)}.items():
        v = f[k]
        if not (isinstance(v, list) and v and all(isinstance(r, tuple) and len(r) == 2 for r in v)):
            return False
        if not all(lo < a <= b and (hi is None or b < hi) for a, b in v):
            return False
    if not all(num(f[k]) and f[k] >= 0 for k in NONNEG):
        return False
    return num(f["dt"]) and f["dt"] > 0


VALS = {
    "batch_size": [1, 0, -1, 2.0, "3", None],
    "image_shape": [(1, 1), (0, 4), (4, 0), (-3, 4), (4, -3), (4,), (4, 4, 4), [4, 4], (4.0, 4), (4, 4.5), None],
    "img_offset": [(0, 0), (-1, 0), (0, -0.5), (0.5,), (1, 1, 1), [0, 0], ("1", 2), None],
    "seeding_density_range": [(0, 0), (0.2, 0.1), (-0.1, 0.1), (0.1, -0.1), (0.1, 0.1), [0.1, 0.2], (0.1,), None],
    "p_hide_img1": [0, 1, 1.0001, -0.0001, 0.5], "p_hide_img2": [0, 1, 1.0001, -0.0001, 0.5],
    "dt": [0, -1, 1e-9, 2, "1", None],
}
for k in NONNEG:
    VALS[k] = [0, -1e-9, 1e9, -3, "1", None]
nan = float("nan")
for k in NONNEG + ["dt", "p_hide_img1", "p_hide_img2"]:
    VALS[k].append(nan)
for k in ("img_offset", "seeding_density_range"):
    VALS[k] += [(nan, 0.1), (0.1, nan)]
for k, c in (("diameter_ranges", 1.0), ("intensity_ranges", 100.0)):
    VALS[k] = [[], [(0, c)], [(c, c)], [(c, c / 2)], [(c, 2 * c), (c, 0.5 * c)], [(c, 2 * c), (-c, c)], [(c,)], [[c, c]], ((c, c),),
               None, [(c, c)] * 5 + [(c, 0.9 * c)], [(c, c, c)], [(0.5 * c, c), (0, c), (c, c)]]
    VALS[k] += [[(nan, c)], [(c, nan)], [(c, c), (nan, nan)]]
    VALS[k] += [[(c, 2 * c), (1.1 * c, 2 * c), (1.5 * c, 1.2 * c)], [(1.5 * c, 1.2 * c), (c, 2 * c), (1.1 * c, 2 * c)]]
VALS["rho_ranges"] = [[(0, 0), (0.1, 0.2), (0.5, 0.4)], [(0.5, 0.6), (0.3, 0.2), (0.7, 0.8), (0, 0)], [(nan, 0.1)], [(0.1, nan)], [], [(-1, 0)], [(0, 1)], [(-0.999, 0.999)], [(0.5, 0.4)], [(0, 0), (0.1, 1.0)], [(0, 0), (-1.0, 0.1), (0, 0)],
                      [[0, 0]], ((0, 0),), None, [(0,)]]


def cases(rng, tier):
    yield {"fixed": True, "set": {}}
    for k, vs in VALS.items():
        for j in range(len(vs)):
            yield {"fixed": True, "set": {k: j}}
    while True:
        ks = rng.sample(sorted(VALS), rng.randint(1, 5))
        yield {"set": {k: rng.randrange(len(VALS[k])) for k in ks}}


def check(case):
    ch = {k: VALS[k][j] for k, j in case["set"].items()}
    f = dict(DEF, **ch)
    ok = valid(f)
    base = S(**DEF)
    for what, make in (("construction", lambda: S(**f)), ("update", lambda: base.update(**ch))):
        try:
            r = make()
        except (ValueError, TypeError):
            if ok:
                return f"{what} with {ch} is rejected although it satisfies every constraint"
            continue
        if not ok:
            return f"{what} with {ch} is accepted although it violates a constraint"
        for k in f:
            if getattr(r, k) != f[k]:
                return f"{what} with {ch}: {k} is {getattr(r, k)!r}, expected {f[k]!r}"
    if {x.name: getattr(base, x.name) for x in dataclasses.fields(S)} != DEF:
        return f"update with {ch} changed the original"
    return None
