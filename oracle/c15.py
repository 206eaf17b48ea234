from samplib import *


def cases(rng, tier):
    for k in range(60):
        yield {"fixed": True, "seed": k}
    while True:
        yield {"seed": rng.randrange(10 ** 6)}


def check(case):
    r = rs(case)
    h, w = int(r.randint(4, 200)), int(r.randint(4, 200))
    res = float(r.choice([.5, 1, 2, 3.7, 10, 128, r.uniform(.3, 40)]))
    dt = float(r.choice([.01, .1, 1, 2.5]))
    d = float(r.choice([0, .1, .5, 2])) * min(h, w) / res / dt / 4
    sp = [float(x) * d for x in (r.choice([-.5, 0, .3, 1]), r.choice([-.5, 0, .3, 1]), r.choice([-1, -.3, 0, .2, .9]), r.choice([-1, -.3, 0, .2, .9]))]
    hx, hy, lx, ly = sp
    off = tuple(float(x) for x in r.choice([0, .2, 1, 1.0001], 2) * np.array([h, w]) / res * float(r.choice([.1, 1])))
    cx = [max(0, hx), max(0, hy), min(0, lx), min(0, ly)]
    if r.rand() < .6:
        off = (max(off[0], cx[1] * dt * (1 + 1e-6)), max(off[1], cx[0] * dt * (1 + 1e-6)))
    need = (off[0] + h / res - cx[3] * dt, off[1] + w / res - cx[2] * dt)
    size = tuple(float(n * r.choice([1 + 1e-6, 1.05, 1.5, .9 if r.rand() < .4 else 1.2, .97 if r.rand() < .3 else 1.01])) for n in need)
    grid = (int(r.randint(4, 60)), int(r.randint(4, 60)))
    hide = [(0., 0.), (.1, 0.), (0., .1), (.2, .2), (1e-4, 0.), (0., 1e-6)][r.randint(6)]
    dens = [(.05, .05), (.02, .05), (.0499, .05)][r.randint(3)]
    diam = sorted(float(x) for x in r.uniform(.3, 9, 4))
    diam = [(diam[0], diam[3]), (diam[case["seed"] % 2], diam[2])][::int(r.choice([1, -1]))]
    patch = 2 * int(3 * max(b for _, b in diam) / 2) + 1 if any(hide) or dens[0] != dens[1] else 0
    g = spec(image_shape=(h, w), img_offset=off, dt=dt, p_hide_img1=hide[0], p_hide_img2=hide[1], seeding_density_range=dens, diameter_ranges=diam)
    ok = (hx >= lx and hy >= ly and off[0] - cx[1] * dt >= 0 and off[1] - cx[0] * dt >= 0
          and all(n <= s for n, s in zip(need, size)))
    edge = (any(abs(o - m * dt) < 1e-9 * (1 + o) for o, m in zip(off, (cx[1], cx[0])))
            or any(abs(n - s) < 1e-9 * (1 + s) for n, s in zip(need, size)))
    cfg = f"image {h}x{w}, offset {off}, resolution {res}, dt {dt}, speeds x [{lx}, {hx}] y [{ly}, {hy}], size {size}, grid {grid}, p_hide {hide}, densities {dens}, diameters {diam}"
    try:
        s = synthetic(Stub(grid), g, resolution=res, flow_field_size=size, max_speed_x=hx, max_speed_y=hy, min_speed_x=lx, min_speed_y=ly)
    except ValueError as e:
        return f"rejected ({e}) although it fits: {cfg}" if ok and not edge else None
    if not ok and not edge:
        return f"accepted although it does not fit: {cfg}"
    pb, io, start, pad = s.position_bounds, s.img_offset, s.position_bounds_offset, s.zero_padding
    for k, (n, hi, lo) in enumerate(((h, cx[1], cx[3]), (w, cx[0], cx[2]))):
        ax = "yx"[k]
        if io[k] < 0 or io[k] + n > pb[k]:
            return f"the image [{io[k]}, {io[k] + n}) is not inside the seeded region of {pb[k]} along {ax}: {cfg}"
        if io[k] < hi * dt * res - 1.01:
            return f"the seeded region extends only {io[k]} pixels before the image along {ax}, speed bound {hi * dt * res}: {cfg}"
        if pb[k] - io[k] - n < -lo * dt * res - 1.01:
            return f"the seeded region extends only {pb[k] - io[k] - n} pixels after the image along {ax}, speed bound {-lo * dt * res}: {cfg}"
        if io[k] < patch - 1.01:
            return f"the seeded region extends only {io[k]} pixels before the image along {ax}, particle patch {patch}: {cfg}"
        step = size[k] / grid[k]
        at = start[k] - pad[k] * step + io[k] / res
        if abs(at - off[k]) > (1.01 / res + 1.01 * step):
            return f"the image shows the flow field at {at} along {ax}, requested {off[k]} (padding {pad[k]}, grid step {step}): {cfg}"
        if pad[k] == 0 and abs(start[k] * res + io[k] - off[k] * res) > 1.01:
            return f"the image lies at {start[k] * res + io[k]} pixels along {ax}, requested {off[k] * res}: {cfg}"
    return None
