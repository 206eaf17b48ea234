"""C17: generated images: shape, pixel range, mask and noise."""
from contracts.gen import *

FN = GEN + NOISE
BUDGET, MINCASES = 8, 6
NOTE = ("For every flow field, key, specification, mask and noise setting. The rendering, the interpolation and the histogram matching "
        "are represented by their contracts (C21, C22, C25).")
ASSUMPTIONS = ["requires: the mask is 0 or 1", "the rendering is finite (exact reals)"]


@harness("shape, range, mask and noise of both images", FN, jax_division=True, prove_ms=15000, parts=2)
def h1(L, s, part):
    mask = part == 1

    def run():
        g = generate(L, mask)
        y, x = Int("y", 0, g.h), Int("x", 0, g.w)
        p = g.p
        for k, im in enumerate((g.im1, g.im2)):
            prove(shape_is(im, g.B, g.h, g.w), f"ensures image {k + 1} has the requested shape")
            v = at(im, g.i, y, x)
            prove(and_(v >= 0, v <= 255), f"ensures image {k + 1} is in [0, 255]")
            m = at(g.mask, y, x) if mask else 1
            if mask:
                prove(implies(eq(m, 0), eq(v, 0)), f"ensures image {k + 1} is zero where the mask is zero")
            u, n = wrap(one_app("uniform", v)), wrap(one_app("normal", v))
            R = wrap(g.calls[k].f(*[lift(g.i)] * len(g.calls[k].gen), lift(y + g.oy), lift(x + g.ox)))
            raw = R + u * p.noise_uniform + p.noise_gaussian_mean + n * p.noise_gaussian_std
            if ctx().branch(lift(raw < 0)):
                prove(eq(v, 0), f"ensures image {k + 1} is the rendering plus noise, clipped, where the mask is set")
            elif ctx().branch(lift(raw > 255)):
                prove(eq(v, 255 * m), f"ensures image {k + 1} is the rendering plus noise, clipped, where the mask is set")
            else:
                prove(eq(v, raw * m), f"ensures image {k + 1} is the rendering plus noise, clipped, where the mask is set")
    s.run(run)


@harness("the noise of every pixel of every image is a draw of its own", FN, jax_division=True, prove_ms=15000)
def h2(L, s):
    def run():
        g = generate(L)
        y, x = Int("y", 0, g.h), Int("x", 0, g.w)
        i2, y2, x2 = Int("i'", 0, g.B), Int("y'", 0, g.h), Int("x'", 0, g.w)
        a = [at(im, g.i, y, x) for im in (g.im1, g.im2)]
        b = [at(im, i2, y2, x2) for im in (g.im1, g.im2)]
        for kind in ("uniform", "normal"):
            for j in range(2):
                for k in range(2):
                    t, u = one_app(kind, a[j]), one_app(kind, b[k])
                    same_draw = and_(*[eq(wrap(p), wrap(q)) if p.sort() != Key else SBool(p == q)
                                       for p, q in zip(t.children(), u.children())])
                    prove(implies(same_draw, and_(j == k, eq(g.i, i2), eq(y, y2), eq(x, x2))),
                          "ensures equal draws are of the same pixel of the same image")
        # no draw is shared between the kinds: their keys differ
        for j in range(2):
            for k in range(2):
                prove(SBool(one_app("uniform", a[j]).arg(0) != one_app("normal", b[k]).arg(0)), "ensures uniform and Gaussian noise use different keys")
    s.run(run)


@harness("with a histogram every image is matched", FN, jax_division=True, prove_ms=15000)
def h3(L, s):
    def run():
        g = generate(L, True, True)
        y, x = Int("y", 0, g.h), Int("x", 0, g.w)
        prove(len(g.matches) == 2, "each image is matched once")
        for k, im in enumerate((g.im1, g.im2)):
            prove(shape_is(im, g.B, g.h, g.w), f"ensures image {k + 1} has the requested shape")
            v = at(im, g.i, y, x)
            prove(and_(v >= 0, v <= 255), f"ensures image {k + 1} is in [0, 255]")
    s.run(run)
