"""C21: rendering."""
from contracts.common import *

IM = ["generate.img_gen_from_data"]
GA = ["generate.gaussian_2d_correlated"]
BUDGET, MINCASES = 8, 12
NOTE = "For every number of particles, image shape at least the size of a footprint, diameters, intensities and correlations."
ASSUMPTIONS = ["the sum over recorded contributions is left symbolic: addition is associative and commutative (exact reals)",
               "exp is uninterpreted (equal arguments give equal values)",
               "requires: the image is at least as large as one footprint"]


def gauss(dx, dy, sx, sy, rho, amp):
    z = dx * dx / (sx * sx) + dy * dy / (sy * sy) - 2 * rho * dx * dy / (sx * sy)
    return amp * dv_exp(-z / (2 * (1 - rho * rho)))


def dv_exp(x):
    from dv.shims import exp1
    return exp1(x)


@harness("gaussian_2d_correlated is the correlated Gaussian", GA, jax_division=True)
def hg(L, s):
    G = L.load("synthpix.generate")

    def run():
        h, w = Int("h", 1), Int("w", 1)
        X, Y = arr("X", (h, w)), arr("Y", (h, w))
        x0, y0, sx, sy, rho, amp = [Real(n) for n in ("x0", "y0", "sx", "sy", "rho", "amp")]
        assume(and_(sx > 0, sy > 0, rho > -1, rho < 1))
        out = G.gaussian_2d_correlated(X, Y, x0, y0, sx, sy, rho, amp)
        i, j = Int("i", 0, h), Int("j", 0, w)
        prove(shape_is(out, h, w), "ensures the shape of the grid")
        prove(eq(at(out, i, j), gauss(at(X, i, j) - x0, at(Y, i, j) - y0, sx, sy, rho, amp)), "ensures the Gaussian's value")
    s.run(run)


def setup(G):
    H, W, N = Int("H", 1), Int("W", 1), Int("N", 1)
    D = Real("max_diameter")
    assume(D > 0)
    r = trunc(3 * D / 2)
    assume(and_(H >= 2 * r + 1, W >= 2 * r + 1))
    pos = arr("pos", (N, 2))
    dx, dy, amp, rho = arr("dx", (N,)), arr("dy", (N,)), arr("amp", (N,)), arr("rho", (N,))
    return H, W, N, D, r, pos, dx, dy, amp, rho


def accumulation(G, clip=True):
    H, W, N, D, r, pos, dx, dy, amp, rho = v = setup(G)
    out = G.img_gen_from_data(pos, image_shape=(H, W), max_diameter=D, diameters_x=dx, diameters_y=dy, intensities=amp, rho=rho,
                              clip=clip)
    prove(shape_is(out, H, W), "ensures the image has the requested shape")
    Y, X = Int("Y", 0, H), Int("X", 0, W)
    val = at(out, Y, X)
    return v, Y, X, val, scatter_of(val)


def family(sc, N, r):
    """The single family of deposits: (over indices, particle index, the two others)."""
    if len(sc.deposits) != 1:
        unsup("several families of deposits")
    d = sc.deposits[0]
    if len(d.over) != 3 or not same(d.bounds[0], N):
        unsup("deposits do not range over particles and footprints")
    for b in d.bounds[1:]:
        if not same(b, 2 * r + 1):
            # (another way to write the size of the footprint)
            lemma(eq(b, 2 * r + 1))
    return d


def inst(d, vals):
    pairs = [(o.t, lift(v)) for o, v in zip(d.over, vals)]
    return [A.subst_obj(x, pairs) for x in (d.guard, tuple(d.idx), d.value)]


def centre(pos, p, r, H, W):
    out = []
    for k, n in ((0, H), (1, W)):
        v = at(pos, p, k)
        # (case split on the clamping)
        if ctx().branch(lift(v < r)):
            lemma(r <= n - r - 1e-6)
            out.append(r)
        elif ctx().branch(lift(v > n - r - 1e-6)):
            out.append(n - r - 1e-6)
        else:
            out.append(v)
    return out


@harness("each deposit is the particle's Gaussian at its own pixel, inside the footprint and the image", IM, jax_division=True,
         prove_ms=20000)
def h1(L, s):
    G = L.load("synthpix.generate")

    def run():
        v, Y, X, val, sc = accumulation(G, False)
        H, W, N, D, r, pos, dx, dy, amp, rho = v
        prove(eq(sc.base.fn(Y, X), 0), "the accumulation starts from zero")
        d = family(sc, N, r)
        p, a, b = Int("p", 0, N), Int("a", 0, d.bounds[1]), Int("b", 0, d.bounds[2])
        assume(and_(at(dx, p) > 0, at(dy, p) > 0, at(rho, p) > -1, at(rho, p) < 1))
        cy, cx = centre(pos, p, r, H, W)
        fy, fx = Int("fy"), Int("fx")
        assume(and_(fy <= cy, cy < fy + 1, fx <= cx, cx < fx + 1))
        cands(fy, fx, fy - r, fx - r, r, -r)
        g, idx, value = inst(d, (p, a, b))
        py, px = idx
        if not (ctx().check(wrap(lift(g))) if not isinstance(g, bool) else g):
            assume(g)
        prove(and_(py >= fy - r, py <= fy + r, px >= fx - r, px <= fx + r), "ensures the pixel is in the square around the particle")
        prove(and_(py >= 0, py < H, px >= 0, px < W), "ensures no deposit falls outside the image")
        prove(eq(value, gauss(px - cx, py - cy, at(dx, p) / 2, at(dy, p) / 2, at(rho, p), at(amp, p))),
              "ensures the deposited value is the particle's Gaussian at that pixel")
    s.run(run)


@harness("every pixel of the footprint gets exactly one deposit per particle", IM, jax_division=True, prove_ms=20000)
def h2(L, s):
    G = L.load("synthpix.generate")

    def run():
        v, Y, X, val, sc = accumulation(G, False)
        H, W, N, D, r, pos, dx, dy, amp, rho = v
        d = family(sc, N, r)
        p = Int("p", 0, N)
        cy, cx = centre(pos, p, r, H, W)
        fy, fx = Int("fy"), Int("fx")
        assume(and_(fy <= cy, cy < fy + 1, fx <= cx, cx < fx + 1))
        cands(fy, fx, fy - r, fx - r, r, -r)
        assume(and_(Y >= fy - r, Y <= fy + r, X >= fx - r, X <= fx + r))
        # the element of the family that hits (Y, X)
        ty, tx = Y - (fy - r), X - (fx - r)
        g, idx, _ = inst(d, (p, ty, tx))
        if not ctx().check(and_(eq(idx[0], Y), eq(idx[1], X))):
            # (the two may be swapped)
            g1, idx1, _ = inst(d, (p, tx, ty))
            if ctx().check(and_(eq(idx1[0], Y), eq(idx1[1], X))):
                ty, tx, g, idx = tx, ty, g1, idx1
        prove(and_(ty >= 0, ty < d.bounds[1], tx >= 0, tx < d.bounds[2]), "ensures the footprint covers the square")
        prove(and_(eq(idx[0], Y), eq(idx[1], X), g), "ensures the pixel receives a deposit")
        a, b = Int("a", 0, d.bounds[1]), Int("b", 0, d.bounds[2])
        g2, idx2, _ = inst(d, (p, a, b))
        assume(and_(g2, eq(idx2[0], Y), eq(idx2[1], X)))
        prove(and_(eq(a, ty), eq(b, tx)), "ensures it receives no second one")
    s.run(run)


@harness("clipped exactly when requested", IM, jax_division=True)
def h3(L, s):
    G = L.load("synthpix.generate")

    def run():
        c = ctx().branch(z3.Bool("clip"))
        v, Y, X, val, sc = accumulation(G, c)
        raw = sc.fn(Y, X)
        prove(eq(val, clip_(raw, 0, 255) if c else raw), "ensures the value is the sum, clipped to [0, 255] iff clip")
    s.run(run)
