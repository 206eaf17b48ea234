"""C18: particles obey the specification."""
from contracts.gen import *

BUDGET, MINCASES = 8, 6
NOTE = "For every flow field, key and valid specification (any number of ranges), every image and every particle."
ASSUMPTIONS = ["the rendering receives exactly the particles of its contract (C21)",
               "a draw is uniform (Gaussian) and draws with distinct keys or indices are independent (jax.random); distinct keys are C16",
               "floating point is real arithmetic: floor(area * density) is computed exactly"]


def setup(L):
    g = generate(L)
    c1, c2 = g.calls
    g.N = N = c1.dim("particle_positions", g, 0)
    for c in g.calls:
        for n in ("particle_positions", "diameters_x", "diameters_y", "intensities", "rho"):
            prove(eq(c.dim(n, g, 0), N), "each particle has its own parameters")
    g.q = Int("p", 0, N)
    g.area = g.pb[0] * g.pb[1]
    g.d = at(g.params.seeding_densities, g.i)
    return g


@harness("density, active particles and positions", GEN, jax_division=True, prove_ms=15000)
def h1(L, s):
    def run():
        g = setup(L)
        lo, hi = g.p.seeding_density_range
        prove(shape_is(g.params.seeding_densities, g.B), "ensures one density per image")
        prove(and_(g.d >= lo, g.d <= hi), "ensures the density is in its range")
        lemma(g.area >= 1)
        lemma(g.area * g.d <= g.area * hi)
        A_ = Int("active")
        assume(and_(A_ <= g.area * g.d, g.area * g.d < A_ + 1))
        prove(and_(A_ >= 0, A_ <= g.N), "ensures there are at least floor(area * density) particles")
        y, x = [g.calls[0].at("particle_positions", g, g.q, k) for k in (0, 1)]
        prove(and_(y >= 0, y < g.pb[0], x >= 0, x < g.pb[1]), "ensures every particle starts inside the seeded region")
        for c in g.calls:
            prove(eq(c.scalar("image_shape", g)[0], g.pb[0]), "the seeded region is rendered")
            prove(eq(c.scalar("image_shape", g)[1], g.pb[1]), "the seeded region is rendered")
            prove(shape_is(c.args["particle_positions"], c.args["particle_positions"].shape[0], 2), "positions are pairs")
    s.run(run)


@harness("exactly the first floor(area * density) particles are active, each hidden by its own draw", GEN, jax_division=True, prove_ms=15000)
def h2(L, s):
    def run():
        g = setup(L)
        lo, hi = g.p.seeding_density_range
        A_ = Int("active")
        assume(and_(A_ <= g.area * g.d, g.area * g.d < A_ + 1))
        cands(A_)
        r0, r1 = [at(g.params.intensity_ranges, g.i, k) for k in (0, 1)]
        act = ctx().branch(lift(g.q < A_))
        for k, (c, ph) in enumerate(zip(g.calls, (g.p.p_hide_img1, g.p.p_hide_img2))):
            I = c.at("intensities", g, g.q)
            if not act:
                prove(eq(I, 0), f"ensures no other particle is active in image {k + 1}")
                continue
            us = [wrap(a) for a in random_apps(I, kinds=("uniform",))]
            us = [u for u in us if ctx().check(implies(u >= 1 - ph, eq(I, 0)))]
            if len(us) != 1:
                unsup("the draw that hides a particle is not recognised")
            u = us[0]
            if ctx().branch(lift(u < 1 - ph)):
                prove(and_(I >= r0, I <= r1, I > 0), f"ensures a visible particle's intensity is in the reported range (image {k + 1})")
            else:
                prove(eq(I, 0), f"ensures a particle is hidden in image {k + 1} when its draw says so")
            prove(implies(eq(ph, 0), u < 1 - ph), "ensures probability 0 hides none")
            prove(implies(eq(ph, 1), not_(u < 1 - ph)), "ensures probability 1 hides all")
    s.run(run)


@harness("each parameter is in the reported range; the second image varies it by a Gaussian", GEN, jax_division=True, prove_ms=15000)
def h3(L, s):
    from dv.shims import sqrt1

    def run():
        g = setup(L)
        c1, c2 = g.calls
        P = g.params
        for n, rep, var in (("diameters_x", P.diameter_ranges, g.p.diameter_var), ("diameters_y", P.diameter_ranges, g.p.diameter_var),
                            ("rho", P.rho_ranges, g.p.rho_var)):
            r0, r1 = at(rep, g.i, 0), at(rep, g.i, 1)
            a, b = c1.at(n, g, g.q), c2.at(n, g, g.q)
            prove(and_(a >= r0, a <= r1), f"ensures {n} of image 1 is in the reported range")
            prove(and_(b >= r0, b <= r1), f"ensures {n} of image 2 is in the reported range")
            e = wrap(one_app("normal", b))
            prove(len(random_apps(a, kinds=("normal",))) == 0, f"{n} of image 1 has no variation")
            v = a + e * sqrt1(var)
            if ctx().branch(lift(v < r0)):
                prove(eq(b, r0), f"ensures {n} of image 2 is that of image 1 plus noise, clipped to the range")
            elif ctx().branch(lift(v > r1)):
                prove(eq(b, r1), f"ensures {n} of image 2 is that of image 1 plus noise, clipped to the range")
            else:
                prove(eq(b, v), f"ensures {n} of image 2 is that of image 1 plus noise, clipped to the range")
        for c in g.calls:
            for n in ("diameters_x", "diameters_y"):
                prove(c.at(n, g, g.q) <= c.scalar("max_diameter", g), "ensures no diameter exceeds the renderer's maximum")
    s.run(run)


@harness("intensities of the second image vary those of the first", GEN, jax_division=True, prove_ms=15000)
def h3b(L, s):
    from dv.shims import sqrt1

    def run():
        g = setup(L)
        c1, c2 = g.calls
        A_ = Int("active")
        assume(and_(A_ <= g.area * g.d, g.area * g.d < A_ + 1))
        cands(A_)
        assume(g.q < A_)
        r0, r1 = [at(g.params.intensity_ranges, g.i, k) for k in (0, 1)]
        a, b = c1.at("intensities", g, g.q), c2.at("intensities", g, g.q)
        for I, ph in ((a, g.p.p_hide_img1), (b, g.p.p_hide_img2)):
            hid = [u for u in map(wrap, random_apps(I, kinds=("uniform",))) if ctx().check(implies(u >= 1 - ph, eq(I, 0)))]
            if not hid:
                unsup("the draw that hides a particle is not recognised")
            for u in hid:
                assume(u < 1 - ph)
        e = wrap(one_app("normal", b))
        v = a + e * sqrt1(g.p.intensity_var)
        if ctx().branch(lift(v < r0)):
            prove(eq(b, r0), "ensures the intensity of image 2 is that of image 1 plus noise, clipped to the range")
        elif ctx().branch(lift(v > r1)):
            prove(eq(b, r1), "ensures the intensity of image 2 is that of image 1 plus noise, clipped to the range")
        else:
            prove(eq(b, v), "ensures the intensity of image 2 is that of image 1 plus noise, clipped to the range")
    s.run(run)


@harness("one of the configured ranges is chosen uniformly and reported", GEN, jax_division=True, prove_ms=15000)
def h4(L, s):
    def run():
        g = setup(L)
        P = g.params
        for n, rep, cfg in (("diameter", P.diameter_ranges, g.p.diameter_ranges), ("intensity", P.intensity_ranges, g.p.intensity_ranges),
                            ("rho", P.rho_ranges, g.p.rho_ranges)):
            prove(shape_is(rep, g.B, 2), f"ensures one {n} range per image")
            lo, hi = at(rep, g.i, 0), at(rep, g.i, 1)
            b = wrap(one_app("bits", lo, hi))
            ln = cfg.seq.n
            k = Int("choice_" + n)
            assume(and_(k <= b * ln, b * ln < k + 1))
            cands(k)
            prove(and_(k >= 0, k < ln), "the choice is one of the ranges")
            clo, chi = cfg.seq.get(k)
            prove(eq(lo, clo), f"ensures the reported {n} range is the chosen one")
            prove(eq(hi, chi), f"ensures the reported {n} range is the chosen one")
    s.run(run)
