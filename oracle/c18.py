from genlib import *


def cases(rng, tier):
    yield {"fixed": True, "choice": 3, "seed": 1}
    yield {"fixed": True, "choice": 2, "seed": 2}
    yield {"fixed": True, "hidden": [.3, .6], "seed": 3}
    yield {"fixed": True, "hidden": [.5, .2], "seed": 4}
    yield {"fixed": True, "crowd": .1, "seed": 5}
    for k in range(8):  # ranges in any order
        yield {"fixed": True, "seed": k}
    for k in range(4):
        yield {"fixed": True, "seed": 20 + k, "narrow": (.0504, .0508) if k % 2 else (.11321, .1134)}
    while True:
        yield {"seed": rng.randrange(10 ** 6)}


def choices(case):
    """Every configured range is chosen about equally often."""
    n, B = case["choice"], 90
    R = lambda a, s: [(a + s * k, a + s * k + s / 2) for k in range(n)]
    cfg = dict(diameter_ranges=R(.6, .4), intensity_ranges=R(50.0, 20.0), rho_ranges=R(-.5, .2))
    p = spec(batch_size=B, image_shape=(6, 6), img_offset=(2, 2), seeding_density_range=(.1, .1), **cfg)
    q = run(case["seed"], np.zeros((1, 10, 10, 2), np.float32), p, (10, 10), watch=False)[2]
    for name in cfg:
        v = np.asarray(getattr(q, name))
        count = [int((np.abs(v - np.asarray(c)).max(-1) < 1e-4).sum()) for c in cfg[name]]
        sd = np.sqrt(B * (n - 1)) / n
        if min(count) < B / n - 5.5 * sd or max(count) > B / n + 5.5 * sd:
            return f"the {name} are chosen {count} times in {B} image pairs"
    return None


def hidden(case):
    """The share of the particles hidden in each image, and in both."""
    p1, p2 = case["hidden"]
    p = spec(batch_size=1, image_shape=(90, 90), img_offset=(0, 0), seeding_density_range=(.3, .3), p_hide_img1=p1, p_hide_img2=p2)
    ps = pairs(run(case["seed"], np.zeros((1, 90, 90, 2), np.float32), p, (90, 90))[3], 1)
    if ps is None or ps[0][0]["intensities"].shape != ps[0][1]["intensities"].shape:
        return None
    n = int(np.floor(90 * 90 * .3))
    x, y = (c["intensities"] != 0 for c in ps[0])
    for what, count, q in (("visible in image 1", x.sum(), 1 - p1), ("visible in image 2", y.sum(), 1 - p2), ("visible in both", (x & y).sum(), (1 - p1) * (1 - p2))):
        if abs(count - n * q) > 6 * np.sqrt(n * q * (1 - q)) + 2:
            return f"{count} of {n} particles are {what}, expected about {n * q:.0f} for the probabilities of hiding {p1} and {p2}"
    return None


def crowd(case):
    """Very many particles."""
    n = 190
    p = spec(batch_size=1, image_shape=(n, n), img_offset=(0, 0), seeding_density_range=(case["crowd"], 1.0), p_hide_img1=0.0, p_hide_img2=0.0,
             diameter_ranges=[(.6, .65)])
    q, calls = run(case["seed"], np.zeros((1, n, n, 2), np.float32), p, (n, n))[2:4]
    ps = pairs(calls, 1)
    if ps is None:
        return None
    want = int(np.floor(n * n * float(np.asarray(q.seeding_densities)[0])))
    for k, c in enumerate(ps[0]):
        if abs(int((c["intensities"] != 0).sum()) - want) > 1:
            return f"{int((c['intensities'] != 0).sum())} particles in image {k + 1}, expected {want}"
    return None


def check(case):
    if case.get("crowd"):
        return crowd(case)
    if case.get("hidden"):
        return hidden(case)
    if case.get("choice"):
        return choices(case)
    r = rs(case)
    B, (h, w, oy, ox, pb) = int(r.randint(1, 4)), geometry(r)
    hide = [float(r.choice([0, 1, .3, .7])) for _ in range(2)]
    z = float(r.choice([0, 1]))
    lo = float(r.uniform(0, .1))
    hi = .12
    rng_ = lambda a, b: (lambda v: (float(v[0]), float(v[1])))(np.sort(r.uniform(a, b, 2)).round(3))
    cfg = dict(diameter_ranges=[rng_(.6, 3) for _ in range(r.randint(1, 4))], intensity_ranges=[rng_(20, 300) for _ in range(r.randint(1, 4))],
               rho_ranges=[rng_(-.8, .8) for _ in range(r.randint(1, 4))])
    p = spec(batch_size=B, image_shape=(h, w), img_offset=(oy, ox), p_hide_img1=hide[0], p_hide_img2=hide[1], diameter_var=.2 * z,
             intensity_var=25 * z, rho_var=.01 * z, seeding_density_range=case.get("narrow") or (lo if r.rand() < .7 else hi, hi), **cfg)
    flow = flow_of(r, int(r.randint(1, 3)), pb[0], pb[1], "random", 2)
    a, b, q, calls, draws = run(case["seed"], flow, p, pb)
    d = np.asarray(q.seeding_densities)
    if d.shape != (B,) or (d < p.seeding_density_range[0] - 1e-6).any() or (d > p.seeding_density_range[1] + 1e-6).any():
        return f"reported densities {d} for the range {p.seeding_density_range}"
    rep = {}
    for n in cfg:
        v = np.asarray(getattr(q, n))
        if v.shape != (B, 2):
            return f"reported {n} has shape {v.shape}"
        for x in v:
            if not any(np.allclose(x, c, atol=1e-5) for c in cfg[n]):
                return f"reported {n} {x} is none of {cfg[n]}"
        rep[n] = v
    ps = pairs(calls, B)
    if ps is None:
        return None
    for i, pr in enumerate(ps):
        N = len(pr[0]["particle_positions"])
        ar = pb[0] * pb[1] * float(d[i])
        act = int(np.floor(ar))
        slack = abs(ar - round(ar)) < 1e-3
        for k, c in enumerate(pr):
            I = c["intensities"]
            vis = int((I != 0).sum())
            if hide[k] == 1 and vis:
                return f"probability of hiding 1: {vis} particles visible in image {k + 1}"
            if hide[k] == 0 and vis != act and not slack:
                return f"{vis} particles visible in image {k + 1}, expected floor({pb[0]}*{pb[1]}*{d[i]}) = {act}"
            if vis > act + slack:
                return f"{vis} particles visible in image {k + 1}, more than the {act} active"
            for n, key in (("diameters_x", "diameter_ranges"), ("diameters_y", "diameter_ranges"), ("rho", "rho_ranges")):
                lo_, hi_ = rep[key][i]
                v = c[n]
                if v.size and (v.min() < lo_ - 1e-4 or v.max() > hi_ + 1e-4):
                    return f"{n} of image {k + 1} in [{v.min()}, {v.max()}], reported range [{lo_}, {hi_}]"
            if "max_diameter" in c and N and float(np.asarray(c["max_diameter"])) < max(c["diameters_x"].max(), c["diameters_y"].max()) - 1e-4:
                return f"image {k + 1} is rendered with the maximum diameter {c['max_diameter']}, its particles have up to {c['diameters_x'].max()}"
            lo_, hi_ = rep["intensity_ranges"][i]
            v = I[I != 0]
            if v.size and (v.min() < lo_ - 1e-2 or v.max() > hi_ + 1e-2):
                return f"intensities of image {k + 1} in [{v.min()}, {v.max()}], reported range [{lo_}, {hi_}]"
        pos = pr[0]["particle_positions"]
        if N and ((pos < 0).any() or (pos[:, 0] > pb[0]).any() or (pos[:, 1] > pb[1]).any()):
            return f"particles outside the seeded region {pb}"
        if N > 40:
            for ax in (0, 1):
                f = pos[:, ax] / pb[ax]
                if f.max() < .8 or f.min() > .2:
                    return f"particles do not cover the seeded region along axis {ax}: [{f.min()}, {f.max()}] of it"
        both = (pr[0]["intensities"] != 0) & (pr[1]["intensities"] != 0)
        for n, var in (("diameters_x", p.diameter_var), ("diameters_y", p.diameter_var), ("rho", p.rho_var),
                       ("intensities", p.intensity_var)):
            if N == 0 or pr[0][n].shape != pr[1][n].shape:
                continue
            dv = (pr[1][n] - pr[0][n])[both] if n == "intensities" else pr[1][n] - pr[0][n]
            if var == 0 and dv.size and np.abs(dv).max() > 1e-3 * (1 + np.abs(pr[0][n]).max()):
                return f"{n} differ between the images by {np.abs(dv).max()} although the variance is zero"
            if var > 0 and dv.size > 40:
                if not np.abs(dv).max() > 0 and np.ptp(rep["diameter_ranges"][i]) > .05:
                    lo_, hi_ = pr[0][n].min(), pr[0][n].max()
                    if hi_ > lo_:
                        return f"{n} do not vary between the images although the variance is {var}"
                if np.abs(dv).max() > 7 * np.sqrt(var):
                    return f"{n} vary by {np.abs(dv).max()} with variance {var}"
        if hide[0] == hide[1] == 0 and pr[0]["intensities"].shape == pr[1]["intensities"].shape and (
                (pr[0]["intensities"] != 0) != (pr[1]["intensities"] != 0)).any():
            return "the active particles of the two images differ"
        seen = (pr[0]["intensities"] != 0) | (pr[1]["intensities"] != 0) if pr[0]["intensities"].shape == pr[1]["intensities"].shape else np.zeros(0)
        if seen.sum() > act + slack:
            return f"{seen.sum()} different particles in the two images together, more than the {act} active"
        if 0 < hide[0] < 1 and hide[0] == hide[1] and act > 60:
            x, y = pr[0]["intensities"] != 0, pr[1]["intensities"] != 0
            if (x == y).all():
                return "the same particles are hidden in both images"
    return None
