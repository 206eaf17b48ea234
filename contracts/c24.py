"""C24: image warping."""
from contracts.common import *

FW = ["apply.apply_flow_to_image_forward"]
BW = ["apply.apply_flow_to_image_backward"]
CB = ["apply.apply_flow_to_image_callable"]
ASSUMPTIONS = ["the sum over pixels of recorded contributions is left symbolic: addition is associative and commutative (exact reals)",
               "jnp scatter-add: negative indices wrap once, out-of-bounds updates are dropped"]


def tent(z):
    a = if_(z < 0, -z, z)
    return if_(a < 1, 1 - a, 0)


def contribution(deps, subst_src, Y, X):
    """Total deposited at (Y, X) by one source element."""
    total = 0
    for d in deps:
        pairs = [(o.t, lift(v)) for o, v in zip(d.over, subst_src)]
        g, idx, val = [A.subst_obj(v, pairs) for v in (d.guard, tuple(d.idx), d.value)]
        total = total + if_(and_(g, eq(idx[0], Y), eq(idx[1], X)), val, 0)
    return total


def fw_setup():
    H, W = Int("H", 1), Int("W", 1)
    img = arr("img", (H, W))
    flow = arr("flow", (H, W, 2))
    return H, W, img, flow, Real("dt")


@harness("forward: every pixel is splatted once with bilinear weights", FW, prove_ms=20000)
def hf(L, s):
    ap = L.load("synthpix.apply")

    def run():
        H, W, img, flow, dt = fw_setup()
        out = ap.apply_flow_to_image_forward(img, flow, dt)
        prove(shape_is(out, H, W), "ensures the shape is kept")
        sc = out.meta.get("scatter") if isinstance(out, SArr) else None
        if sc is None:
            unsup("the result is not an accumulation")
        Y, X = Int("Y", 0, H), Int("X", 0, W)
        prove(eq(sc.base.fn(Y, X), 0), "the accumulation starts from zero")
        for d in sc.deposits:
            if len(d.over) != 2 or not (same(d.bounds[0], H) and same(d.bounds[1], W)):
                unsup("the accumulation does not run over all pixels")
        y, x = Int("y", 0, H), Int("x", 0, W)
        xd = x + at(flow, y, x, 0) * dt
        yd = y + at(flow, y, x, 1) * dt
        a, b = Int("a"), Int("b")
        assume(and_(a <= xd, xd < a + 1, b <= yd, yd < b + 1))
        cands(a, b)
        # where the target lies relative to the displaced position
        for (k, t) in ((a, X), (b, Y)):
            if ctx().branch(lift(eq(t, k))):
                pass
            elif ctx().branch(lift(eq(t, k + 1))):
                pass
            elif ctx().branch(lift(t > k + 1)):
                lemma(t >= k + 2)
            else:
                lemma(t <= k - 1)
        got = contribution(sc.deposits, (y, x), Y, X)
        prove(eq(got, at(img, y, x) * (tent(xd - X) * tent(yd - Y))),
              "ensures the share of pixel (y, x) in target (Y, X) is value * bilinear weight")
    s.run(run)


@harness("forward: weights of the four targets sum to one", FW)
def hs(L, s):
    ap = L.load("synthpix.apply")

    def run():
        H, W, img, flow, dt = fw_setup()
        out = ap.apply_flow_to_image_forward(img, flow, dt)
        sc = out.meta.get("scatter")
        if sc is None:
            unsup("the result is not an accumulation")
        y, x = Int("y", 0, H), Int("x", 0, W)
        xd = x + at(flow, y, x, 0) * dt
        yd = y + at(flow, y, x, 1) * dt
        assume(and_(xd >= 0, xd < W - 1, yd >= 0, yd < H - 1))
        a, b = Int("a"), Int("b")
        assume(and_(a <= xd, xd < a + 1, b <= yd, yd < b + 1))
        cands(a, b, a + 1, b + 1)
        tot = 0
        for dy in (0, 1):
            for dx in (0, 1):
                tot = tot + contribution(sc.deposits, (y, x), b + dy, a + dx)
        prove(eq(tot, at(img, y, x)), "intensity is conserved for a displacement that stays inside")
    s.run(run)


@harness("forward: zero flow is the identity", FW)
def hz(L, s):
    ap = L.load("synthpix.apply")

    def run():
        H, W, img, _, dt = fw_setup()
        out = ap.apply_flow_to_image_forward(img, SArr((H, W, 2), lambda *i: 0.0), dt)
        sc = out.meta.get("scatter")
        if sc is None:
            unsup("the result is not an accumulation")
        y, x = Int("y", 0, H), Int("x", 0, W)
        Y, X = Int("Y", 0, H), Int("X", 0, W)
        own = ctx().branch(lift(and_(eq(x, X), eq(y, Y))))
        prove(eq(contribution(sc.deposits, (y, x), Y, X), at(img, y, x) if own else 0),
              "ensures each pixel contributes its value to itself only")
    s.run(run)


@harness("backward: samples upstream", BW)
def hb(L, s):
    ap = L.load("synthpix.apply")
    B = stub_bilinear(L)

    def run():
        H, W, img, flow, dt = fw_setup()
        out = ap.apply_flow_to_image_backward(img, flow, dt)
        prove(shape_is(out, H, W), "ensures the shape is kept")
        y, x = Int("y", 0, H), Int("x", 0, W)
        prove(eq(at(out, y, x), B.value(img, x - at(flow, y, x, 0) * dt, y - at(flow, y, x, 1) * dt)),
              "ensures result[y, x] == image sampled at (x - u dt, y - v dt)")
        out1 = ap.apply_flow_to_image_backward(img, flow)
        prove(eq(at(out1, y, x), B.value(img, x - at(flow, y, x, 0), y - at(flow, y, x, 1))), "dt defaults to one")
    s.run(run)


@harness("backward: zero flow is the identity", BW)
def hbz(L, s):
    ap = L.load("synthpix.apply")

    def run():
        H, W, img, _, dt = fw_setup()
        out = ap.apply_flow_to_image_backward(img, SArr((H, W, 2), lambda *i: 0.0), dt)
        y, x = Int("y", 0, H), Int("x", 0, W)
        prove(eq(at(out, y, x), at(img, y, x)), "ensures result == image")
    s.run(run)


@harness("callable: equals warping with the array of its values", CB)
def hc(L, s):
    ap = L.load("synthpix.apply")
    calls = []

    def stub(kind):
        def f(image, flow_field, dt=1.0):
            calls.append((kind, image, flow_field, dt))
            return ("warped", kind)
        return f
    L.replace(ap.apply_flow_to_image_forward, stub("forward"))
    L.replace(ap.apply_flow_to_image_backward, stub("backward"))

    def run():
        calls.clear()
        H, W, img, _, dt = fw_setup()
        t = Real("t")
        R = z3.RealSort()
        U, V = z3.Function("flow_u", R, R, R, R), z3.Function("flow_v", R, R, R, R)
        flow = lambda *a: tuple(wrap(g(*[to_real(lift(v)) for v in a])) for g in (U, V))
        fwd = ctx().branch(z3.Bool("forward"))
        r = ap.apply_flow_to_image_callable(img, flow, t, dt, fwd)
        kind = "forward" if fwd else "backward"
        prove(len(calls) == 1 and r == ("warped", kind), "returns the warp in the requested direction")
        _, im, ff, d = calls[0]
        prove(same_value(im, img), "warps the given image")
        prove(eq(d, dt), "uses the given time step")
        prove(shape_is(ff, H, W, 2), "the array of flow values covers the image")
        y, x = Int("y", 0, H), Int("x", 0, W)
        e = flow(t, x, y)
        prove(eq(at(ff, y, x, 0), e[0]), "component 0 at (y, x) is flow(t, x, y)[0]")
        prove(eq(at(ff, y, x, 1), e[1]), "component 1 at (y, x) is flow(t, x, y)[1]")
    s.run(run)
