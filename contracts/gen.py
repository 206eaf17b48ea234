"""generate_images_from_flow executed over stubs of the renderer (C21), the interpolation (C22) and the
histogram matching (C25): shared by C16, C17, C18 and C19."""
from contracts.common import *


GEN = ["data_generate.generate_images_from_flow"]
NOISE = ["generate.add_noise_to_image"]
APPLY = ["apply.apply_flow_to_particles"]
RANDOM = ("uniform", "normal", "bits")


def rlist(name, lo_min, hi_max=None):
    """An arbitrary non-empty list of valid ranges."""
    n = Int("n_" + name, 1)
    lo, hi = z3.Function(name + "_lo", z3.IntSort(), z3.RealSort()), z3.Function(name + "_hi", z3.IntSort(), z3.RealSort())
    ctx().axiom(lo, lambda t: [t > lo_min, t <= hi(t.arg(0))])
    ctx().axiom(hi, lambda t: [t >= lo(t.arg(0))] + ([t < hi_max] if hi_max is not None else []))
    return SList(SymSeq(n, lambda i: (wrap(lo(lift(i))), wrap(hi(lift(i))))))


def specification(T, B=None):
    """An arbitrary valid specification (the constraints proved in C26)."""
    S = T.ImageGenerationSpecification
    p = object.__new__(S)
    d0, d1 = Real("density_lo"), Real("density_hi")
    assume(and_(d0 >= 0, d0 <= d1))
    f = dict(batch_size=Int("B", 1) if B is None else B, image_shape=(Int("h", 1), Int("w", 1)),
             img_offset=(Int("off_y", 0), Int("off_x", 0)), seeding_density_range=(d0, d1),
             diameter_ranges=rlist("diameter", 0), intensity_ranges=rlist("intensity", 0), rho_ranges=rlist("rho", -1, 1))
    for n in ("p_hide_img1", "p_hide_img2", "diameter_var", "intensity_var", "rho_var", "dt", "noise_uniform",
              "noise_gaussian_mean", "noise_gaussian_std"):
        f[n] = Real(n)
        assume(f[n] > 0 if n == "dt" else and_(f[n] >= 0, f[n] <= 1) if n.startswith("p_") else f[n] >= 0)
    for k, v in f.items():
        object.__setattr__(p, k, v)
    return p


def generic_list():
    d = ctx().ghost.get("generic_dims", {})
    return [d[i][0] for i in sorted(ctx().generic) if i in d]


class Call:
    """One call of the renderer, in the generic iteration it was made in."""

    def __init__(self, args, gen, f):
        self.args, self.gen, self.f = args, gen, f

    def scalar(self, name, G):
        return A.subst_obj(self.args[name], G.pairs(self))

    def at(self, name, G, *idx):
        a = self.args[name]
        if not isinstance(a, SArr):
            unsup(f"{name} of the renderer is not an array")
        with scope(*[wrap(g) for g in self.gen]):
            for g in self.gen:
                k, d = ctx().ghost["generic_dims"][g.get_id()]
                assume(and_(k >= 0, k < d))
            e = a.fn(*idx)
        return A.subst_obj(e, G.pairs(self))

    def dim(self, name, G, k):
        return A.subst_obj(self.args[name].shape[k], G.pairs(self))


class Gen:
    def pairs(self, call):
        return [(g, lift(self.i)) for g in call.gen]


def generate(L, mask=False, hist=False):
    """Runs the function for arbitrary inputs; .calls are the renderer's calls, .i an arbitrary image."""
    T, D, R = L.load("synthpix.types"), L.load("synthpix.data_generate"), L.load("synthpix.generate")
    U = L.load("synthpix.utils")
    L.load("synthpix")
    g = Gen()
    g.calls, g.matches = [], []

    def render(particle_positions, image_shape=(256, 256), max_diameter=1, diameters_x=None, diameters_y=None, intensities=None,
               rho=None, clip=True):
        gen = [lift(x) for x in generic_list()]
        f = z3.Function(f"render{len(g.calls)}", *([z3.IntSort()] * (len(gen) + 2)), z3.RealSort())
        if clip is True:
            ctx().axiom(f, lambda t: [t >= 0, t <= 255])
        args = dict(particle_positions=particle_positions, image_shape=image_shape, max_diameter=max_diameter,
                    diameters_x=diameters_x, diameters_y=diameters_y, intensities=intensities, rho=rho, clip=clip)
        g.calls.append(Call(args, gen, f))
        return SArr(tuple(image_shape), lambda y, x: wrap(f(*gen, lift(y), lift(x))), "f")

    def match(source, template_hist):
        g.matches.append(source)
        f = z3.Function(f"matched{len(g.matches)}", *([z3.IntSort()] * (len(generic_list()) + 2)), z3.RealSort())
        ctx().axiom(f, lambda t: [t >= 0, t <= 255])
        gen = [lift(x) for x in generic_list()]
        return SArr(source.shape, lambda y, x: wrap(f(*gen, lift(y), lift(x))), source.dtype)
    L.replace(R.img_gen_from_data, render)
    L.replace(U.match_histogram, match)
    g.B2 = stub_bilinear(L)
    p = g.p = specification(T)
    g.B, (g.h, g.w), (g.oy, g.ox) = p.batch_size, p.image_shape, p.img_offset
    g.pb = (Int("pb_h", 1), Int("pb_w", 1))
    assume(and_(g.pb[0] >= g.h + g.oy, g.pb[1] >= g.w + g.ox))
    g.nf, g.fh, g.fw = Int("n_flows", 1), Int("flow_h", 1), Int("flow_w", 1)
    g.flow = arr("flow", (g.nf, g.fh, g.fw, 2))
    g.rx, g.ry = Real("res_x"), Real("res_y")
    assume(and_(g.rx > 0, g.ry > 0))
    g.mask = None
    if mask:
        g.mask = arr("mask", (g.h, g.w))
        ctx().axiom(z3.Function("mask", z3.IntSort(), z3.IntSort(), z3.RealSort()), lambda t: [z3.Or(t == 0, t == 1)])
    g.key = root(Int("seed"))
    g.im1, g.im2, g.params = D.generate_images_from_flow(
        g.key, g.flow, p, position_bounds=g.pb, flow_field_res_x=g.rx, flow_field_res_y=g.ry, mask=g.mask,
        histogram=arr("histogram", (256,)) if hist else None)
    g.i = Int("i", 0, g.B)
    if len(g.calls) != 2:
        unsup("the renderer is not called once per image of a pair")
    return g


def random_apps(*terms, kinds=RANDOM):
    """The random draws occurring in the terms."""
    out, st, seen = {}, [lift(t) for t in terms], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.num_args() and t.arg(0).sort() == Key and t.decl().name().partition("_")[0].rstrip("0123456789") in kinds:
            out[t.get_id()] = t
        st.extend(t.children())
    return list(out.values())


def one_app(kind, *terms):
    a = random_apps(*terms, kinds=(kind,))
    if len(a) != 1:
        print(a) if __import__("os").environ.get("DBG") else None
        unsup(f"{len(a)} draws of kind {kind} where one is expected")
    return a[0]
