"""C15: the image always lies inside the seeded region."""
from contracts.samp import *

FN = ["sampler.synthetic.SyntheticImageSampler.__init__"]
BUDGET, MINCASES = 6, 30
NOTE = "For every accepted configuration: all image shapes, offsets, resolutions, speeds, time steps and flow field sizes (exact reals)."
ASSUMPTIONS = ["floating point is real arithmetic: a product that is an integer is not rounded below it"]




@harness("an accepted configuration seeds a region that contains the image and its margins", FN, prove_ms=20000)
def h1(L, s):
    def run():
        y = synthetic(L, 1)
        e, sm = raises(y.build)
        if e is not None:
            prove(isinstance(e, ValueError), "a rejection is a ValueError")
            prove(not_(y.accepted), "ensures a configuration that fits is not rejected")
            return
        prove(y.accepted, "ensures a configuration that does not fit is rejected")
        sp = y.spec
        sm.__next__()
        g, a = y.gens[-1], y.adapts[-1]
        off, pb = g["parameters"].img_offset, g["position_bounds"]
        for d in (0, 1):
            prove(eq(a["img_offset"][d], off[d]), "one offset for images and flow fields")
            prove(eq(a["position_bounds"][d], pb[d]), "one seeded region for images and flow fields")
            prove(off[d] >= 0, "ensures the image starts inside the seeded region")
            prove(off[d] + sp.image_shape[d] <= pb[d], "ensures the image ends inside the seeded region")
            prove(off[d] > y.hi[d] * sp.dt * y.res - 1, "ensures the region extends by the distance travelled at the maximum speed")
            prove(pb[d] - off[d] - sp.image_shape[d] > -y.lo[d] * sp.dt * y.res - 1,
                  "ensures the region extends by the distance travelled at the minimum speed")
            prove(isinstance(off[d], (int, SInt)) and isinstance(pb[d], (int, SInt)), "ensures whole pixels")
            pad, start = a["zero_padding"][d], a["position_bounds_offset"][d]
            prove(and_(pad >= 0, start >= 0), "ensures padding and offset are not negative")
            at_ = start * y.res + off[d] - y.offset[d] * y.res
            prove(implies(eq(pad, 0), and_(at_ > -1, at_ < 1)), "ensures that without padding the image lies at the requested offset")
            prove(eq(g["parameters"].image_shape[d], sp.image_shape[d]), "ensures the requested image shape")
            prove(eq(a["image_shape"][d], sp.image_shape[d]), "ensures the requested image shape")
        for k, f, z in (("res_y", y.stub.fh, y.size[0]), ("res_x", y.stub.fw, y.size[1])):
            prove(eq(g[k] * z, f), "ensures the flow field covers its physical size")
            prove(eq(a[k] * z, f), "ensures the flow field covers its physical size")
        prove(eq(a["resolution"], y.res), "ensures the requested resolution")
    s.run(run)


def subterms(*xs):
    out, st = {}, [lift(x) for x in xs]
    while st:
        t = st.pop()
        if t.get_id() not in out:
            out[t.get_id()] = t
            st.extend(t.children())
    return list(out.values())


def known(goal):
    if ctx().check(goal):
        assume(goal)


@harness("the region of hidden particles extends before the image by a particle", FN, prove_ms=20000)
def h2(L, s):
    def run():
        y = synthetic(L, 1)
        sp = y.spec
        d0, d1 = sp.seeding_density_range
        assume(y.accepted)
        assume(or_(sp.p_hide_img1 > 0, sp.p_hide_img2 > 0, not_(eq(d0, d1))))
        q = Int("q", 0)
        assume(q < sp.diameter_ranges.n)
        D = sp.diameter_ranges.get(q)[1]
        ctx().axiom(lift(D).decl(), lambda t: [t <= lift(D)])  # q is (one of) the largest: the list is arbitrary but not empty
        r = wrap(z3.ToInt(lift(3 * D / 2)))
        e, sm = raises(y.build)
        if e is not None:
            unsup("an accepted configuration is rejected (decided by the other contract)")
        sm.__next__()
        off = y.gens[-1]["parameters"].img_offset
        # intermediate assertions: proved before they are used
        for t in subterms(*off, *ctx().solver.assertions()):
            if z3.is_app(t) and t.decl().eq(lift(D).decl()) and not z3.is_var(t.arg(0)):
                known(eq(wrap(t), D))
        for d in (0, 1):
            for t in subterms(off[d]):
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_INT:
                    known(wrap(t.arg(0)) >= 2 * r + 1)
            prove(off[d] > 2 * r + 1 - 1, "ensures the region extends by the patch of the largest particle")
    s.run(run)


@harness("padding moves the image to the requested place", FN, prove_ms=20000)
def h3(L, s):
    def run():
        y = synthetic(L, 1)
        assume(y.accepted)
        e, sm = raises(y.build)
        if e is not None:
            unsup("an accepted configuration is rejected (decided by the other contract)")
        sm.__next__()
        a = y.adapts[-1]
        for d, k, f in ((0, "res_y", y.stub.fh), (1, "res_x", y.stub.fw)):
            rk = a[k]
            pad, start, io = a["zero_padding"][d], a["position_bounds_offset"][d], a["img_offset"][d]
            # in steps of the flow field grid, times the image resolution
            at_ = (start - y.offset[d]) * rk * y.res - pad * y.res + io * rk
            lim = rk + y.res
            prove(and_(at_ < lim, at_ > -lim), "ensures the padded flow field is shown at the requested offset")
    s.run(run)
