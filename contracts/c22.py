"""C22: interpolation is exact, bounded and clamped."""
from dv.api import *
from contracts.common import *

BIL = ["utils.bilinear_interpolate"]
TRI = ["utils.trilinear_interpolate"]


def bil_setup(L):
    U = L.load("synthpix.utils")
    H, W = Int("H", 1), Int("W", 1)
    img = arr("img", (H, W))
    xf, yf = Real("x"), Real("y")
    return U.bilinear_interpolate, H, W, img, xf, yf


def cell(lo_name, v, n):
    """A cell [a, a+1] of the grid 0..n-1 containing v clamped into the grid (a+1 == a when n == 1)."""
    vc = clip_(v, 0, n - 1)
    a = Int(lo_name, 0, n)
    assume(a <= vc)
    assume(or_(and_(n >= 2, a + 1 <= n - 1, vc <= a + 1), and_(n < 2, eq(a, 0))))
    b = if_(n >= 2, a + 1, a)
    return vc, a, b


@harness("bilinear: value in a cell", BIL, seconds=60, prove_ms=15000)
def h_cell(L, s):
    def run():
        f, H, W, img, x, y = bil_setup(L)
        r = f(img, x, y)
        big_w, big_h = ctx().branch((W >= 2).t), ctx().branch((H >= 2).t)
        xc, a, a1 = cell("a", x, W)
        yc, b, b1 = cell("b", y, H)
        wx, wy = xc - a, yc - b
        # split on the position of the clamped point in its cell, so that floor is known
        cands(a, b, a + 1, b + 1, W - 1, H - 1)
        for (v, vc, k, n) in ((x, xc, a, W), (y, yc, b, H)):
            if ctx().branch(lift(v < 0)):
                pass
            elif ctx().branch(lift(v > n - 1)) or ctx().branch(lift(eq(v, n - 1))):
                lemma(eq(k, if_(n >= 2, n - 2, 0)))
            elif ctx().branch(lift(eq(v, k + 1))):
                pass
        spec = ((1 - wx) * (1 - wy) * at(img, b, a) + wx * (1 - wy) * at(img, b, a1)
                + (1 - wx) * wy * at(img, b1, a) + wx * wy * at(img, b1, a1))
        prove(eq(r, spec), "ensures result == bilinear formula of the enclosing cell, coordinates clamped")
    s.run(run)


@harness("bilinear: integer coordinates", BIL)
def h_grid(L, s):
    def run():
        f, H, W, img, x, y = bil_setup(L)
        xi, yi = Int("xi", 0, W), Int("yi", 0, H)
        assume(and_(eq(x, xi), eq(y, yi)))
        prove(eq(f(img, x, y), at(img, yi, xi)), "ensures result == image[y, x] at integer coordinates")
    s.run(run)


@harness("bilinear: clamped outside", BIL)
def h_clamp(L, s):
    def run():
        f, H, W, img, x, y = bil_setup(L)
        r1 = f(img, x, y)
        r2 = f(img, clip_(x, 0, W - 1), clip_(y, 0, H - 1))
        for v, n in ((x, W), (y, H)):
            if ctx().branch(lift(v < 0)):
                pass
            elif ctx().branch(lift(v > n - 1)):
                pass
        prove(eq(r1, r2), "ensures result equals the value at the nearest border point")
    s.run(run)


@harness("bilinear: convex combination", BIL)
def h_bound(L, s):
    def run():
        U = L.load("synthpix.utils")
        H, W = Int("H", 1), Int("W", 1)
        x, y = Real("x"), Real("y")
        x0 = clip_(wrap(z3.ToInt(x.t)), 0, W - 1)
        y0 = clip_(wrap(z3.ToInt(y.t)), 0, H - 1)
        # an image that is m on or above the four surrounding pixels: img = m + d, d >= 0 there
        m = Real("m")
        d = arr("d", (H, W))
        img = SArr((H, W), lambda i, j: m + d.fn(i, j))
        r = U.bilinear_interpolate(img, x, y)
        zero = U.bilinear_interpolate(SArr((H, W), lambda i, j: m), x, y)
        prove(eq(zero, m), "weights sum to one: a constant image is reproduced")
        one = lambda p, q: U.bilinear_interpolate(
            SArr((H, W), lambda i, j: if_(and_(eq(i, p), eq(j, q)), 1.0, 0.0)), x, y)
        p, q = Int("p", 0, H), Int("q", 0, W)
        w = one(p, q)
        x1 = clip_(x0 + 1, 0, W - 1)
        y1 = clip_(y0 + 1, 0, H - 1)
        near = and_(or_(eq(q, x0), eq(q, x1)), or_(eq(p, y0), eq(p, y1)))
        for v, n in ((x, W), (y, H)):
            if ctx().branch(lift(v < 0)):
                pass
            elif ctx().branch(lift(v > n - 1)):
                pass
        if ctx().branch(lift(near)):
            prove(w >= 0, "every weight is non-negative")
            prove(w <= 1, "no weight exceeds one")
        else:
            prove(eq(w, 0), "pixels other than the four surrounding ones have no weight")
    s.run(run)


@harness("bilinear: affine images", BIL)
def h_affine(L, s):
    def run():
        U = L.load("synthpix.utils")
        H, W = Int("H", 1), Int("W", 1)
        x, y = Real("x", 0, W - 1), Real("y", 0, H - 1)
        p, q, r = Real("p"), Real("q"), Real("r")
        img = SArr((H, W), lambda i, j: p + q * j + r * i)
        v = U.bilinear_interpolate(img, x, y)
        ctx().branch(lift(x < W - 1))
        ctx().branch(lift(y < H - 1))
        prove(eq(v, p + q * x + r * y), "ensures affine images are reproduced inside")
    s.run(run)


@harness("bilinear: elementwise over coordinate arrays", BIL)
def h_elem(L, s):
    def run():
        U = L.load("synthpix.utils")
        H, W, N, M = Int("H", 1), Int("W", 1), Int("N", 1), Int("M", 1)
        img = arr("img", (H, W))
        xs, ys = arr("xs", (N, M)), arr("ys", (N, M))
        r = U.bilinear_interpolate(img, xs, ys)
        prove(shape_is(r, N, M), "ensures the shape is that of the coordinates")
        i, j = Int("i", 0, N), Int("j", 0, M)
        prove(eq(at(r, i, j), U.bilinear_interpolate(img, at(xs, i, j), at(ys, i, j))),
              "ensures element (i, j) depends on coordinates (i, j) only")
    s.run(run)


# ---------------------------------------------------------------- trilinear
def tri_setup(L):
    U = L.load("synthpix.utils")
    D, H, W = Int("D", 1), Int("H", 1), Int("W", 1)
    return U.trilinear_interpolate, D, H, W


@harness("trilinear: value in a cell", TRI, prove_ms=15000, parts=3)
def h3_cell(L, s, part):
    def run():
        f, D, H, W = tri_setup(L)
        vol = arr("vol", (D, H, W))
        cs, ks = [], []
        for nm, n in (("x", W), ("y", H), ("z", D)):
            v = Real(nm, 0, n - 1)
            k = Int("k" + nm, 0)
            assume(and_(k <= v, k <= n - 1))
            assume(or_(and_(k + 1 <= n - 1, v <= k + 1), eq(v, k)))
            if nm == "x":  # one part of the case split per run
                assume([eq(v, k + 1), eq(v, k), and_(not_(eq(v, k)), not_(eq(v, k + 1)))][part])
            elif ctx().branch(lift(eq(v, k + 1))):
                pass
            elif ctx().branch(lift(eq(v, k))):
                pass
            cs.append(v)
            ks.append((k, if_(k + 1 <= n - 1, k + 1, k), v - k))
        cands(*[k + d for k, _, _ in ks for d in (0, 1)])
        r = f(vol, *cs)
        spec = 0
        (kx, lx, wx), (ky, ly, wy), (kz, lz, wz) = ks
        for (z, fz) in ((kz, 1 - wz), (lz, wz)):
            for (y, fy) in ((ky, 1 - wy), (ly, wy)):
                for (x, fx) in ((kx, 1 - wx), (lx, wx)):
                    spec = spec + fx * fy * fz * at(vol, z, y, x)
        prove(eq(r, spec), "ensures result == trilinear formula of the enclosing cell")
    s.run(run)


@harness("trilinear: integer coordinates", TRI)
def h3_grid(L, s):
    def run():
        f, D, H, W = tri_setup(L)
        vol = arr("vol", (D, H, W))
        x, y, z = Int("x", 0, W), Int("y", 0, H), Int("z", 0, D)
        prove(eq(f(vol, x * 1.0, y * 1.0, z * 1.0), at(vol, z, y, x)),
              "ensures result == volume[z, y, x] at integer coordinates")
    s.run(run)


@harness("trilinear: convex combination", TRI)
def h3_bound(L, s):
    def run():
        f, D, H, W = tri_setup(L)
        x, y, z = Real("x", 0, W - 1), Real("y", 0, H - 1), Real("z", 0, D - 1)
        m = Real("m")
        prove(eq(f(SArr((D, H, W), lambda i, j, k: m), x, y, z), m), "weights sum to one")
        p, q, t = Int("p", 0, D), Int("q", 0, H), Int("t", 0, W)
        w = f(SArr((D, H, W), lambda i, j, k: if_(and_(eq(i, p), eq(j, q), eq(k, t)), 1.0, 0.0)), x, y, z)
        near = True
        for v, k in ((x, t), (y, q), (z, p)):
            if not ctx().branch(lift(and_(k <= v + 1, v <= k + 1))):
                near = False
        if near:
            prove(and_(w >= 0, w <= 1), "every weight lies in [0, 1]")
        else:
            prove(eq(w, 0), "points outside the enclosing cell have no weight")
    s.run(run)


@harness("trilinear: affine volumes", TRI)
def h3_affine(L, s):
    def run():
        f, D, H, W = tri_setup(L)
        x, y, z = Real("x", 0, W - 1), Real("y", 0, H - 1), Real("z", 0, D - 1)
        p, q, r, t = Real("p"), Real("q"), Real("r"), Real("t")
        v = f(SArr((D, H, W), lambda i, j, k: p + q * k + r * j + t * i), x, y, z)
        ks = [Int("k" + n) for n in "xyz"]
        for k, c in zip(ks, (x, y, z)):
            assume(and_(k <= c, c < k + 1))
        cands(*ks)
        for k, c in zip(ks, (x, y, z)):
            ctx().branch(lift(eq(c, k)))
        prove(eq(v, p + q * x + r * y + t * z), "ensures affine volumes are reproduced inside")
    s.run(run)


@harness("trilinear: elementwise over coordinate arrays", TRI)
def h3_elem(L, s):
    def run():
        f, D, H, W = tri_setup(L)
        N = Int("N", 1)
        vol = arr("vol", (D, H, W))
        xs, ys, zs = arr("xs", (N,)), arr("ys", (N,)), arr("zs", (N,))
        r = f(vol, xs, ys, zs)
        prove(shape_is(r, N), "ensures the shape is that of the coordinates")
        i = Int("i", 0, N)
        prove(eq(at(r, i), f(vol, at(xs, i), at(ys, i), at(zs, i))),
              "ensures element i depends on coordinates i only")
    s.run(run)
