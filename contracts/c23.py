"""C23: particle advection in 2D and 3D (callee: interpolation, by its contract C22)."""
from contracts.common import *

F = ["apply.apply_flow_to_particles"]
ASSUMPTIONS = ["bilinear_interpolate / trilinear_interpolate enter by contract: pure functions of (array, coordinates), verified under C22"]


def setup(L, dim):
    ap = L.load("synthpix.apply")
    B, T = stub_bilinear(L), stub_trilinear(L)
    return ap.apply_flow_to_particles, B, T


def args(dim):
    N = Int("N", 1)
    H, W, D = Int("H", 1), Int("W", 1), Int("D", 1)
    pos = arr("pos", (N, dim))
    flow = arr("flow", (H, W, 2) if dim == 2 else (D, H, W, 3))
    dt = Real("dt")
    res = [Real(f"res_{a}") for a in "xyz"]
    for r in res:
        assume(r > 0)
    return N, pos, flow, dt, res


@harness("2D", F)
def h2(L, s):
    f, B, _ = setup(L, 2)

    def run():
        N, pos, flow, dt, (rx, ry, rz) = args(2)
        out = f(pos, flow, dt, rx, ry, rz)
        prove(shape_is(out, N, 2), "ensures one position per particle, in order")
        n = Int("n", 0, N)
        y, x = at(pos, n, 0), at(pos, n, 1)
        u = B.value(flow[..., 0], x, y)
        v = B.value(flow[..., 1], x, y)
        prove(eq(at(out, n, 0), y + dt * ry * v), "ensures y' == y + dt*res_y*v(x, y) of the same particle")
        prove(eq(at(out, n, 1), x + dt * rx * u), "ensures x' == x + dt*res_x*u(x, y) of the same particle")
    s.run(run)


@harness("3D", F)
def h3(L, s):
    f, _, T = setup(L, 3)

    def run():
        N, pos, flow, dt, (rx, ry, rz) = args(3)
        out = f(pos, flow, dt, rx, ry, rz)
        prove(shape_is(out, N, 3), "ensures one position per particle, in order")
        n = Int("n", 0, N)
        z, y, x = at(pos, n, 0), at(pos, n, 1), at(pos, n, 2)
        u, v, w = [T.value(flow[..., c], x, y, z) for c in range(3)]
        prove(eq(at(out, n, 0), z + dt * rz * w), "ensures z' == z + dt*res_z*w(x, y, z) of the same particle")
        prove(eq(at(out, n, 1), y + dt * ry * v), "ensures y' == y + dt*res_y*v(x, y, z) of the same particle")
        prove(eq(at(out, n, 2), x + dt * rx * u), "ensures x' == x + dt*res_x*u(x, y, z) of the same particle")
    s.run(run)


@harness("default arguments", F)
def hdef(L, s):
    f, B, _ = setup(L, 2)

    def run():
        N, pos, flow, dt, _ = args(2)
        n = Int("n", 0, N)
        out = f(pos, flow, dt)
        y, x = at(pos, n, 0), at(pos, n, 1)
        prove(eq(at(out, n, 0), y + dt * B.value(flow[..., 1], x, y)), "resolutions default to one (y)")
        prove(eq(at(out, n, 1), x + dt * B.value(flow[..., 0], x, y)), "resolutions default to one (x)")
    s.run(run)


@harness("nothing moves in a zero field or with a zero time step", F)
def hzero(L, s):
    ap = L.load("synthpix.apply")

    def run():
        dim = 2 if ctx().branch(z3.Bool("two_dimensional")) else 3
        N, pos, flow, dt, (rx, ry, rz) = args(dim)
        if ctx().branch(z3.Bool("zero_field")):
            flow = SArr(flow.shape, lambda *i: 0.0)
        else:
            dt = 0.0
        out = ap.apply_flow_to_particles(pos, flow, dt, rx, ry, rz)
        n = Int("n", 0, N)
        for c in range(dim):
            prove(eq(at(out, n, c), at(pos, n, c)), "ensures the position is unchanged")
    s.run(run)
