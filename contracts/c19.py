"""C19: image 2 shows image 1's particles moved by the flow."""
from contracts.gen import *

FN = GEN + APPLY
BUDGET, MINCASES = 8, 8
NOTE = "For every flow field, resolution, time step, seeded region, image of the batch and particle. The interpolation is C22's contract."
ASSUMPTIONS = ["bilinear_interpolate by its contract (C22); rendering by its contract (C21)", "exact reals"]


@harness("each particle is moved by the time step times the flow at its own position", FN, jax_division=True, prove_ms=15000)
def h1(L, s):
    def run():
        g = generate(L)
        c1, c2 = g.calls
        N = c1.dim("particle_positions", g, 0)
        prove(eq(c2.dim("particle_positions", g, 0), N), "ensures the second image has the same particles")
        p = Int("p", 0, N)
        y1, x1 = [c1.at("particle_positions", g, p, k) for k in (0, 1)]
        y2, x2 = [c2.at("particle_positions", g, p, k) for k in (0, 1)]
        j = g.i % g.nf
        qy, qx = y1 * g.fh / g.pb[0], x1 * g.fw / g.pb[1]
        comp = lambda c: SArr((g.fh, g.fw), lambda y, x: g.flow.fn(j, y, x, c), "f")
        vx, vy = g.B2.value(comp(0), qx, qy), g.B2.value(comp(1), qx, qy)
        prove(eq(x2, (qx + vx * g.p.dt * g.rx) * g.pb[1] / g.fw), "ensures columns move by the x velocity, interpolated at the particle")
        prove(eq(y2, (qy + vy * g.p.dt * g.ry) * g.pb[0] / g.fh), "ensures rows move by the y velocity, interpolated at the particle")
        # the same physical area: flow grid = res * size, region = resolution * size
        for n, v, d, r, f, b in (("x", vx, x2 - x1, g.rx, g.fw, g.pb[1]), ("y", vy, y2 - y1, g.ry, g.fh, g.pb[0])):
            res, size = Real("resolution_" + n), Real("size_" + n)
            prove(implies(and_(res > 0, size > 0, eq(f, r * size), eq(b, res * size)), eq(d, v * res * g.p.dt)),
                  f"ensures the displacement along {n} in pixels is velocity * resolution * dt")
    s.run(run)
