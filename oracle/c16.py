from samplib import *

LOG = []
DRAWS = ("uniform", "normal", "bernoulli", "randint", "permutation", "choice", "truncated_normal", "bits")


def cases(rng, tier):
    base = {"fixed": True, "devices": 1, "seed": 3, "n": 3, "bpf": 2, "ffb": 2, "B": 3, "noise": 5.0, "hide": .2, "record": True}
    yield base
    yield {**base, "devices": 2, "seed": 11, "bpf": 1}
    yield {**base, "record": False, "seed": 0}
    yield {**base, "record": False, "seed": 7, "devices": 3, "ffb": 3, "bpf": 1}
    yield {**base, "record": False, "only": True, "n": 1, "B": 300}
    yield {**base, "record": False, "only": True, "n": 150, "B": 2, "bpf": 140}
    yield {**base, "record": False, "seeds": [0, 1, 7, 100, 107, 7 + 2 ** 8, 1007, 7 + 2 ** 10, 7 + 2 ** 12, 10007, 7 + 2 ** 15, 7 + 2 ** 16, 7 + 2 ** 20, 1000007, 7 + 2 ** 24,
                                                7 + 2 ** 30, 2 ** 31 - 1, 2 ** 31 - 2, 7 + 10 ** 9], "B": 2, "bpf": 1}
    while True:
        yield {"devices": rng.choice([1, 1, 2]), "seed": rng.randrange(2 ** 31), "n": rng.randint(2, 4), "bpf": rng.randint(1, 3),
               "ffb": 2, "B": rng.randint(2, 5), "noise": rng.choice([0.0, 5.0]), "hide": rng.choice([0.0, .3]), "record": rng.random() < .5}


class Recorder:
    """Logs every key given to jax.random, at run time."""

    def __enter__(self):
        LOG.clear()
        self.old = {}
        for n in DRAWS + ("split", "fold_in"):
            f = getattr(jax.random, n, None)
            if f is None:
                continue
            self.old[n] = f

            def g(key, *a, _f=f, _n=n, **k):
                kd = key if not jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else jax.random.key_data(key)
                jax.debug.callback(lambda x, _n=_n: LOG.extend((_n, tuple(int(v) for v in r)) for r in np.asarray(x).reshape(-1, 2)), kd)
                return _f(key, *a, **k)
            setattr(jax.random, n, g)
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(jax.random, n, f)


def make(case, seed):
    sp = spec(batch_size=max(case["B"], case["devices"]), image_shape=(10, 12), img_offset=(2.5, 2.5), dt=1.0, seeding_density_range=(0.05, 0.08),
              diameter_ranges=[(0.8, 1.2), (1.4, 2.0)], diameter_var=.01, intensity_ranges=[(80.0, 100.0), (200.0, 210.0)], intensity_var=.01,
              rho_ranges=[(-.3, -.2), (.2, .3)], rho_var=.01, p_hide_img1=case["hide"], p_hide_img2=case["hide"],
              noise_uniform=case["noise"], noise_gaussian_std=case["noise"])
    return synthetic(Stub((16, 16)), sp, batches_per_flow_batch=case["bpf"], flow_fields_per_batch=case["ffb"], seed=seed,
                     flow_field_size=(18.0, 20.0), device_ids=list(range(case["devices"])))


def leaves(b):
    return [np.asarray(x) for x in jax.tree_util.tree_leaves((b.images1, b.images2, b.flow_fields, b.params))]


def equal(a, b):
    return all((x == y).all() for x, y in zip(leaves(a), leaves(b)))


def check(case):
    case = dict(case)
    n, s = case["n"], case["seed"]
    if case["ffb"] % case["devices"]:
        case["ffb"] = case["devices"]
    case["B"] = max(case["B"], case["ffb"])
    cfg = f"seed {s}, {case['devices']} devices, batch size {case['B']}, {case['bpf']} batches per flow batch"
    if case["record"]:
        with Recorder():
            a = make(case, s)
            run = [next(a) for _ in range(n)]
            for b in run:
                jax.block_until_ready(b.images1)
            jax.effects_barrier()
        log = list(LOG)
        draws = [k for m, k in log if m in DRAWS]
        if not draws:
            return f"no random draw at all: {cfg}"
        seen = {}
        for m, k in log:
            if m in DRAWS:
                seen[k] = seen.get(k, 0) + 1
        bad = [k for k, c in seen.items() if c > 1]
        if bad:
            who = [m for m, k in log if k == bad[0] and m in DRAWS]
            return f"{len(bad)} of {len(seen)} keys are drawn from repeatedly, e.g. {bad[0]} by {who}: {cfg}"
        both = [k for m, k in log if m not in DRAWS and k in seen]
        if both:
            return f"a key is drawn from and also used to derive keys: {both[0]}: {cfg}"
        return None
    if case.get("seeds"):
        seen = {}
        for seed in case["seeds"]:
            im = np.asarray(next(make(case, seed)).images1)[0]
            if im.std() > 1 and seen.setdefault(im.tobytes(), seed) != seed:
                return f"the seeds {seen[im.tobytes()]} and {seed} give the same first image: {cfg}"
        return None
    if case.get("only"):
        seen = {}
        for k in range(2 * n if n > 1 else n):
            if k % n == 0:
                a = make(case, s + k // n)  # (batches n, n + 1, ...: of another seed)
            bt = next(a)
            for name in ("images1", "images2"):
                for j, im in enumerate(np.asarray(getattr(bt, name))):
                    if im.std() > 1:
                        other = seen.setdefault(im.tobytes(), (name, j, k))
                        if other != (name, j, k):
                            return f"{name}[{j}] of batch {k} equals {other[0]}[{other[1]}] of batch {other[2]}: {cfg}"
        return None
    a, b = make(case, s), make(case, s)
    ra = [next(a) for _ in range(n)]
    rb = [next(b) for _ in range(n)]
    for k in range(n):
        if not equal(ra[k], rb[k]):
            return f"batch {k} differs between two samplers of the same seed: {cfg}"
    for rs_ in (True, False):
        a.reset(scheduler_reset=rs_)
        a.scheduler.batches.clear()
        for k in range(n):
            if not equal(next(a), ra[k]):
                return f"batch {k} after a reset differs from before: {cfg}"
    other = make(case, s + 1)
    rc = [next(other) for _ in range(n)]
    ims = [(f"image {j} of batch {k}{w}", np.asarray(im)[j]) for w, run in (("", ra), (" (seed + 1)", rc)) for k, bt in enumerate(run)
           for im in (bt.images1,) for j in range(im.shape[0])]
    for x in range(len(ims)):
        for y in range(x):
            if ims[x][1].std() > 1 and (ims[x][1] == ims[y][1]).all():
                return f"{ims[y][0]} equals {ims[x][0]}: {cfg}"
    return None
