from genlib import *


def cases(rng, tier):
    k = 0
    for kind in ("constant", "affine", "random"):
        for _ in range(4):
            k += 1
            yield {"fixed": True, "kind": kind, "seed": k}
    for k, g in enumerate([(9, 1), (1, 9), (1, 1), (2, 300)]):
        yield {"fixed": True, "kind": "random", "seed": 50 + k, "grid": g}
    while True:
        yield {"kind": rng.choice(["constant", "affine", "random"]), "seed": rng.randrange(10 ** 6)}


def check(case):
    r = rs(case)
    B, (h, w, oy, ox, pb) = int(r.randint(1, 5)), geometry(r)
    nf, (fh, fw) = int(r.randint(1, 4)), case.get("grid") or [(9, 31), (24, 27), (40, 6)][r.randint(3)]
    rx, ry, dt = float(r.uniform(.5, 3)), float(r.uniform(.5, 3)), float(r.uniform(.2, 2))
    p = spec(batch_size=B, image_shape=(h, w), img_offset=(oy, ox), p_hide_img1=0, p_hide_img2=0, diameter_var=0, intensity_var=0,
             rho_var=0, dt=dt)
    flow = flow_of(r, nf, fh, fw, case["kind"], 1.5)
    a, b, q, calls, draws = run(case["seed"], flow, p, pb, rx, ry)
    ps = pairs(calls, B)
    if ps is None:
        # (rendered in another way: compare the images of a flow at rest and of one that moves by whole pixels)
        p = spec(batch_size=2, image_shape=(h, w), img_offset=(oy, ox), p_hide_img1=0, p_hide_img2=0, diameter_var=0, intensity_var=0,
                 rho_var=0, dt=1.0)
        for sx, sy in ((0, 0), (2, 1), (-1, 3)):
            f = np.zeros((1,) + pb + (2,), np.float32)
            f[..., 0], f[..., 1] = sx, sy
            a, b, *_ = run(case["seed"], f, p, pb, watch=False)
            m = 10
            x = a[:, m:-m, m:-m]
            y = b[:, m + sy:b.shape[1] - m + sy, m + sx:b.shape[2] - m + sx]
            if x.size and not close(x, y, 5e-2):
                return f"image 2 is not image 1 moved by {(sx, sy)} pixels: {worst(x, y)}"
        return None
    for i, (c1, c2) in enumerate(ps):
        p1, p2 = c1["particle_positions"].astype(float), c2["particle_positions"].astype(float)
        if p1.shape != p2.shape:
            return f"{len(p1)} particles in image 1, {len(p2)} in image 2"
        f = flow[i % nf]
        qy, qx = p1[:, 0] * fh / pb[0], p1[:, 1] * fw / pb[1]
        vx, vy = bil(f[..., 0], qx, qy), bil(f[..., 1], qx, qy)
        e = np.stack([(qy + vy * dt * ry) * pb[0] / fh, (qx + vx * dt * rx) * pb[1] / fw], -1)
        if not close(p2, e, 2e-3):
            return (f"pair {i}: particles of image 2 (flow {i % nf} of {nf}, {case['kind']}, grid {fh}x{fw}, region {pb}, "
                    f"resolution {rx:.3f}, {ry:.3f}, dt {dt:.3f}) {worst(p2, e)}")
    return None
