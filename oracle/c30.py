from samplib import *
from synthpix.sampler import synthetic as S
from synthpix.types import ImageGenerationParameters

ND = len(jax.devices())


def cases(rng, tier):
    for ids in (None, [0], [1], [0, 1], [3, 1], [0, 9], [7, 2, 9], [2, 1, 0], [9], [4, 8], []):
        for B, ffb in ((5, 1), (8, 2), (9, 1)):
            yield {"fixed": True, "ids": ids, "B": B, "m": ffb, "patched": True}
    yield {"fixed": True, "ids": [0, 1, 2, 3], "B": 6, "m": 1, "patched": False}
    yield {"fixed": True, "ids": [2, 3], "B": 7, "m": 2, "patched": False}
    while True:
        yield {"ids": rng.choice([None] + [rng.sample(range(6), rng.randint(1, 4)) for _ in range(3)]), "B": rng.randint(1, 12),
               "m": rng.choice([1, 1, 2, 3]), "patched": rng.random() < .9}


class Patched:
    """The generation and the adaptation record which key, device part and field each position stems from."""

    def __enter__(self):
        self.old = {n: getattr(S, n, None) for n in ("generate_images_from_flow", "flow_field_adapter")}
        self.calls = {n: 0 for n in self.old}

        def gen(key, flow_field, parameters, **k):
            self.calls["generate_images_from_flow"] += 1
            kk = key.reshape(-1, key.shape[-1])[0]
            kd = (kk.astype(jnp.uint32) >> 12).astype(jnp.float32)
            B = parameters.batch_size
            h, w = parameters.image_shape
            f = jnp.array([0.]) + flow_field[jnp.arange(B) % flow_field.shape[0], 0, 0, 1].reshape(B, 1)
            row = jnp.stack([jnp.full((B,), kd[0]), jnp.full((B,), kd[1]), f[:, 0], jnp.arange(B) * 1.0], 1)
            im = jnp.zeros((B, h, w)).at[:, 0, :4].set(row)
            pair = lambda c: jnp.stack([row[:, 1], row[:, 3] + c], 1)
            return im, im + 1, ImageGenerationParameters(seeding_densities=row[:, 1] + row[:, 3], diameter_ranges=pair(1),
                                                         intensity_ranges=pair(2), rho_ranges=pair(3))

        def adapt(flow, *a, **k):
            self.calls["flow_field_adapter"] += 1
            return self.old["flow_field_adapter"](flow, *a, **k)
        new = dict(generate_images_from_flow=gen, flow_field_adapter=adapt)
        for n in new:
            if self.old[n] is not None:
                setattr(S, n, new[n])
        return self

    def __exit__(self, *a):
        for n, v in self.old.items():
            if v is not None:
                setattr(S, n, v)


def check(case):
    ids, B = case["ids"], case["B"]
    valid = [i for i in (range(ND) if ids is None else ids) if i < ND]
    n = len(valid)
    ffb = case["m"] * max(n, 1)
    cfg = f"devices {ids} of {ND}, batch size {B}, {ffb} fields"
    st = Stub((24, 24))
    sp = spec(batch_size=B, image_shape=(16, 16), img_offset=(2.5, 2.5), dt=1.0, seeding_density_range=(0.05, 0.08),
              diameter_ranges=[(0.8, 1.2), (2.0, 2.2)], intensity_ranges=[(80.0, 100.0), (200.0, 210.0)])
    kw = dict(flow_fields_per_batch=ffb, flow_field_size=(24.0, 24.0), device_ids=ids, min_speed_x=0.0, min_speed_y=0.0, max_speed_x=2.0,
              max_speed_y=2.0)
    with Patched() as pt:
        if not case["patched"]:
            pt.__exit__()
        try:
            sm = synthetic(st, sp, **kw)
        except ValueError as e:
            if n and ffb <= B:
                return f"rejected: {e}: {cfg}"
            return None
        if not n:
            return f"accepted without a valid device: {cfg}"
        if ffb > B:
            return f"accepted with more flow fields than samples: {cfg}"
        b = next(sm)
    per = -(-B // n)
    f = np.asarray(b.flow_fields)
    leaves = dict(images1=b.images1, images2=b.images2, flow_fields=b.flow_fields, **{k: getattr(b.params, k) for k in
                  ("seeding_densities", "diameter_ranges", "intensity_ranges", "rho_ranges")})
    for k, v in leaves.items():
        if v.shape[0] != per * n:
            return f"{k} has {v.shape[0]} samples, expected {per * n}: {cfg}"
        used = {d.id for d in v.devices()}
        if used != {jax.devices()[i].id for i in valid}:
            return f"{k} lives on the devices {sorted(used)}: {cfg}"
        for sh in v.addressable_shards:
            lo = sh.index[0].start or 0
            if (sh.index[0].stop or per * n) - lo != per:
                return f"{k}: device {sh.device} holds {sh.index[0]}, expected {per} samples: {cfg}"
    m = ffb // n
    want = np.array([[1 / 8, (p // per * m + p % per % m + 1) / 8] for p in range(per * n)])
    if not close(f[:, 0, 0], want, 1e-4):
        return f"the flow fields are {np.round(f[:, 0, 0] * 8)[:, 1] - 1}, expected {np.round(want[:, 1] * 8) - 1}: {cfg}"
    im = np.asarray(b.images1)
    if case["patched"] and pt.calls["generate_images_from_flow"]:
        row = im[:, 0, :4]
        if not close(row[:, 2], want[:, 1], 1e-4):
            return f"the images show the fields {np.round(row[:, 2] * 8) - 1}, the flow fields are {np.round(want[:, 1] * 8) - 1}: {cfg}"
        for d in range(n):
            p = slice(d * per, (d + 1) * per)
            if (row[p, :2] != row[p, :2][0]).any():
                return f"the samples of one device have different keys: {cfg}"
            for e in range(d):
                if (row[d * per, :2] == row[e * per, :2]).all():
                    return f"devices {e} and {d} have the same key: {cfg}"
        if not close(np.asarray(b.params.seeding_densities), row[:, 1] + row[:, 3], 1e-6):
            return f"seeding densities are not those of the position: {cfg}"
        for c, k in enumerate(("diameter_ranges", "intensity_ranges", "rho_ranges")):
            if not close(np.asarray(getattr(b.params, k)), np.stack([row[:, 1], row[:, 3] + c + 1], 1), 1e-6):
                return f"{k} are not those of the position: {cfg}"
    else:
        for p in range(per * n):
            for q in range(p):
                if (im[p] == im[q]).all() and im[p].std() > 1:
                    return f"positions {q} and {p} have the same image: {cfg}"
    return None
