"""C20: reported flow fields."""
from contracts.common import *

FA = ["utils.flow_field_adapter"]
BUDGET, MINCASES = 8, 12
NOTE = "For every batch size, number and size of fields, target shape, window, resolution, padding and unit; interpolation by its contract (C22)."


def inputs():
    v = dict(N=Int("N", 1), H=Int("H", 1), W=Int("W", 1), nh=Int("nh", 1), nw=Int("nw", 1), ih=Int("ih", 1), iw=Int("iw", 1),
             oy=Real("oy", 0), ox=Real("ox", 0), res=Real("resolution"), ry=Real("res_y"), rx=Real("res_x"),
             bh=Int("bh", 1), bw=Int("bw", 1), by=Real("by", 0), bx=Real("bx", 0), B=Int("B", 1), dt=Real("dt"),
             py=Int("py", 0), px=Int("px", 0))
    assume(and_(v["res"] > 0, v["ry"] > 0, v["rx"] > 0, v["dt"] > 0))
    v["flow"] = arr("flow", (v["N"], v["H"], v["W"], 2))
    v["pixels"] = ctx().branch(z3.Bool("pixels"))
    return v


def call(U, v):
    return U.flow_field_adapter(
        v["flow"], new_flow_field_shape=(v["nh"], v["nw"]), image_shape=(v["ih"], v["iw"]), img_offset=(v["oy"], v["ox"]),
        resolution=v["res"], res_x=v["rx"], res_y=v["ry"], position_bounds=(v["bh"], v["bw"]),
        position_bounds_offset=(v["by"], v["bx"]), batch_size=v["B"],
        output_units="pixels" if v["pixels"] else "measure units per second", dt=v["dt"], zero_padding=(v["py"], v["px"]))


def padded(v, n, c):
    """Component c of field n, extended to the top and left by its edge."""
    py, px = v["py"], v["px"]
    return SArr((v["H"] + py, v["W"] + px),
                lambda y, x: v["flow"].fn(n, if_(y - py < 0, 0, y - py), if_(x - px < 0, 0, x - px), c))


def grid(start, length, n, i):
    """i-th of n evenly spaced coordinates from start over length grid steps."""
    if ctx().branch(lift(eq(n, 1))):
        return start
    return start + (length - 1) / (n - 1) * i


@harness("entry k: field k mod N, interpolated over the image window, in the requested unit", FA, parts=2)
def h1(L, s, part):
    U = L.load("synthpix.utils")
    B = stub_bilinear(L)

    def run():
        v = inputs()
        out, _ = call(U, v)
        prove(shape_is(out, v["B"], v["nh"], v["nw"], 2), "ensures the shape is (batch_size, new_h, new_w, 2)")
        k, i, j = Int("k", 0, v["B"]), Int("i", 0, v["nh"]), Int("j", 0, v["nw"])
        y = grid(v["by"] * v["ry"] + v["oy"] / v["res"] * v["ry"], v["ih"] / v["res"] * v["ry"], v["nh"], i)
        x = grid(v["bx"] * v["rx"] + v["ox"] / v["res"] * v["rx"], v["iw"] / v["res"] * v["rx"], v["nw"], j)
        scale = v["res"] * v["dt"] if v["pixels"] else 1
        prove(eq(at(out, k, i, j, part), B.value(padded(v, k % v["N"], part), x, y) * scale),
              f"ensures component {part} at (k, i, j) is the scaled field k mod N at the window's grid point (i, j)")
    s.run(run)


@harness("second result: each field over the seeded region, never rescaled", FA)
def h2(L, s):
    U = L.load("synthpix.utils")
    B = stub_bilinear(L)

    def run():
        v = inputs()
        _, out = call(U, v)
        rh, rw = v["bh"] / v["res"] * v["ry"], v["bw"] / v["res"] * v["rx"]
        fh, fw = wrap(floor_t(lift(rh))), wrap(floor_t(lift(rw)))
        nh, nw = if_(fh < 1, 1, fh), if_(fw < 1, 1, fw)
        prove(shape_is(out, v["N"], nh, nw, 2), "ensures one field per input field, with a row per grid step of the region")
        n, i, j = Int("n", 0, v["N"]), Int("i", 0, nh), Int("j", 0, nw)
        y = grid(v["by"] * v["ry"], rh, nh, i)
        x = grid(v["bx"] * v["rx"], rw, nw, j)
        for c in (0, 1):
            prove(eq(at(out, n, i, j, c), B.value(padded(v, n, c), x, y)),
                  f"ensures component {c} is the field's component at the region's grid point, unscaled")
    s.run(run)
