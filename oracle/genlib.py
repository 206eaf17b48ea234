"""Runs generate_images_from_flow on concrete inputs, watching what it renders and draws."""
import contextlib

import jax
import jax.numpy as jnp
import numpy as np

from lib import *
import synthpix.data_generate as DG
import synthpix.generate as GE
from synthpix.types import ImageGenerationSpecification as Spec


def spec(**k):
    d = dict(batch_size=3, image_shape=(20, 24), img_offset=(6, 5), seeding_density_range=(0.02, 0.05), p_hide_img1=0.1,
             p_hide_img2=0.2, diameter_ranges=[(0.8, 1.2), (1.0, 2.0)], diameter_var=0.1,
             intensity_ranges=[(50.0, 80.0), (100.0, 200.0)], intensity_var=4.0, rho_ranges=[(-0.2, 0.2), (0.0, 0.3)], rho_var=0.01,
             dt=1.0, noise_uniform=0.0, noise_gaussian_mean=0.0, noise_gaussian_std=0.0)
    d.update(k)
    return Spec(**d)


@contextlib.contextmanager
def patched(obj, name, f):
    old = getattr(obj, name, None)
    if old is None:
        yield
        return
    setattr(obj, name, f(old))
    try:
        yield
    finally:
        setattr(obj, name, old)


def run(seed, flow, p, pb, rx=1.0, ry=1.0, mask=None, hist=None, watch=True):
    """(images1, images2, params, renderings, draws); renderings and draws only as far as they can be watched."""
    calls, draws = [], []

    def rec(old):
        def f(*a, **k):
            out = old(*a, **k)
            names = ("particle_positions", "image_shape", "max_diameter", "diameters_x", "diameters_y", "intensities", "rho", "clip")
            d = dict(zip(names, a))
            d.update(k)
            try:
                calls.append({n: np.asarray(v) for n, v in d.items()} | {"out": np.asarray(out)})
            except Exception:
                pass
            return out
        return f

    def drw(kind):
        def g(old):
            def f(key, *a, **k):
                out = old(key, *a, **k)
                try:
                    draws.append((kind, tuple(np.asarray(key).ravel().tolist()), np.asarray(out)))
                except Exception:
                    pass
                return out
            return f
        return g
    key = jax.random.PRNGKey(seed)
    args = dict(key=key, flow_field=jnp.asarray(flow), parameters=p, position_bounds=pb, flow_field_res_x=rx, flow_field_res_y=ry,
                mask=mask, histogram=hist)
    with contextlib.ExitStack() as st:
        if watch:
            st.enter_context(jax.disable_jit())
            st.enter_context(patched(DG, "img_gen_from_data", rec))
            for n in ("uniform", "normal", "bernoulli", "randint", "choice", "permutation"):
                st.enter_context(patched(jax.random, n, drw(n)))
        a, b, q = DG.generate_images_from_flow(**args)
    return np.asarray(a), np.asarray(b), q, calls, draws


def pairs(calls, B):
    """Renderings grouped per image pair, or None if they were not observed that way."""
    if len(calls) != 2 * B or any(c["particle_positions"].ndim != 2 for c in calls):
        return None
    return [(calls[2 * i], calls[2 * i + 1]) for i in range(B)]


def flow_of(r, nf, fh, fw, kind, amp=1.0):
    Y, X = np.mgrid[0:fh, 0:fw].astype(float)
    out = np.zeros((nf, fh, fw, 2), np.float32)
    for j in range(nf):
        for c in range(2):
            if kind == "zero":
                v = 0
            elif kind == "constant":
                v = r.uniform(-amp, amp)
            elif kind == "affine":
                v = r.uniform(-amp, amp) + r.uniform(-amp, amp) * X / fw + r.uniform(-amp, amp) * Y / fh
            else:
                v = r.uniform(-amp, amp, (fh, fw))
            out[j, :, :, c] = v
    return out


GEOM = [(16, 20, 5, 3, (24, 27)), (21, 13, 0, 4, (21, 22)), (14, 14, 6, 0, (22, 14))]


def geometry(r):
    """Image shape, offset and seeded region (few, so that compiled operations are reused)."""
    return GEOM[r.randint(len(GEOM))]
