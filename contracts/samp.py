"""Samplers over scheduler contract stubs: shared by C12, C13, C14, C15, C16 and C30."""
from contracts.common import *


class Label(SObj):
    """A file name; those of missing samples are empty."""
    __slots__ = ()

    def __bool__(self):
        return ctx().branch(z3.Function("named", self.t.sort(), z3.BoolSort())(self.t))


class Batch:
    """One batch served by the scheduler stub."""

    def __init__(self, k, n, fh, fw, images=False, mask=None, files=None, kind="f"):
        self.k, self.n = k, n
        # mixed: the first images are integers, the rest is not
        first, kind = ("i", "f") if kind == "mixed" else (kind, kind)
        self.flow = arr(f"batch{k}_flow", (n, fh, fw, 2), kind)
        self.im1 = arr(f"batch{k}_im1", (n, fh, fw), first) if images else None
        self.im2 = arr(f"batch{k}_im2", (n, fh, fw), kind) if images else None
        self.mask = arr(f"batch{k}_mask", (n,), "b") if mask else None
        self.files = SymSeq(n, lambda i: Label(z3.Function(f"batch{k}_file", z3.IntSort(), z3.DeclareSort("File"))(lift(i)))) if files else None


def make_stub(L, images=False, episodic=False, mask=True, files=True, kind="f"):
    """A scheduler known by its protocol only: every call is recorded.  episodic="wrapper": it is an EpisodicFlowFieldScheduler."""
    T, P = L.load("synthpix.types"), L.load("synthpix.scheduler.protocol")

    class Stub:
        include_images = images
        file_list = []
        log = None

        def __init__(self):
            self.log, self.batches = [], []
            self.masks, self.labels = mask, files
            self.fh, self.fw = Int("flow_h", 1), Int("flow_w", 1)
            self.rem = None

        def get_batch(self, batch_size):
            self.log.append("get_batch")
            if episodic:
                if self.rem <= 0:
                    raise P.EpisodeEnd
                self.rem = self.rem - 1
            b = Batch(len(self.batches), batch_size, self.fh, self.fw, images, self.masks, self.labels, kind)
            self.batches.append(b)
            return T.SchedulerData(flow_fields=b.flow, images1=b.im1, images2=b.im2, mask=b.mask, files=b.files)

        def get_flow_fields_shape(self):
            return (self.fh, self.fw, 2)

        def reset(self):
            self.log.append("reset")

        def shutdown(self):
            self.log.append("shutdown")

    if episodic:
        bases = (Stub, L.load("synthpix.scheduler.episodic").EpisodicFlowFieldScheduler) if episodic == "wrapper" else (Stub,)

        class EStub(*bases):
            def steps_remaining(self):
                return self.rem

            def next_episode(self):
                self.log.append("next_episode")
                self.rem = self.length

            @property
            def episode_length(self):
                return self.length

        s = EStub()
        s.length = Int("episode_length", 1)
        s.rem = Int("steps_remaining", 0)
        assume(s.rem <= s.length)
        return s
    return Stub()


def same_seq(a, b):
    """Two sequences are element-wise equal."""
    if a is b:
        return True
    if a is None or b is None:
        return False
    a, b = [x.seq if isinstance(x, SList) else from_list(x) if isinstance(x, (list, tuple)) else x for x in (a, b)]
    if not (isinstance(a, SymSeq) and isinstance(b, SymSeq)):
        unsup("comparison of other containers")
    k = Int("seq_k", 0, b.n)
    return and_(eq(a.n, b.n), eq(a.get(k), b.get(k)))


TOK = z3.DeclareSort("Token")
TOKEN = z3.Function("token", z3.RealSort(), z3.RealSort())


class Syn:
    """A synthetic sampler over a scheduler stub, its image generation and flow adaptation known by contract.

    A flow field is identified by its element (0, 0, 0).  The adapter's contract (C24): output field i of a shard comes
    from field i modulo the number of fields, current field j from field j.  The generator's contract (C19): image i shows
    field i modulo the number of fields.
    """


def synthetic(L, ndev=None, episodic=False, mask=True, files=True, device_ids=None, static=False,
              ffb=None):
    from contracts.gen import specification
    T, D, U = L.load("synthpix.types"), L.load("synthpix.data_generate"), L.load("synthpix.utils")
    M = L.load("synthpix.sampler.synthetic")
    y = Syn()
    y.T = T
    y.stub = st = make_stub(L, False, episodic, mask, files)
    y.gens, y.adapts = [], []
    REAL, INT = z3.RealSort(), z3.IntSort()
    OUT = z3.Function("adapted_flow", *[REAL] + [INT] * 3, REAL)
    CUR = z3.Function("current_flow", *[REAL] + [INT] * 3, REAL)
    IDN = z3.Function("identity_of", REAL, REAL)
    ctx().axiom(CUR, lambda t: [z3.Implies(z3.And(*[t.arg(k) == 0 for k in (1, 2, 3)]), IDN(t) == t.arg(0))])
    IM = [z3.Function(f"image{k}", Key, REAL, INT, INT, INT, REAL) for k in (1, 2)]
    PAR = {n: z3.Function("param_" + n, Key, INT, INT, REAL) for n in ("seeding_densities", "diameter_ranges", "intensity_ranges", "rho_ranges")}
    y.OUT, y.CUR, y.IDN, y.IM, y.PAR = OUT, CUR, IDN, IM, PAR

    def adapter(flow_fields, new_flow_field_shape=(256, 256), image_shape=(256, 256), img_offset=(0, 0), resolution=1.0, res_x=1.0,
                res_y=1.0, position_bounds=(256, 256), position_bounds_offset=(0.0, 0.0), batch_size=1, output_units="pixels", dt=1.0,
                zero_padding=(0, 0)):
        y.adapts.append(dict(flow=flow_fields, new_flow_field_shape=new_flow_field_shape, image_shape=image_shape, img_offset=img_offset,
                             resolution=resolution, res_x=res_x, res_y=res_y, position_bounds=position_bounds,
                             position_bounds_offset=position_bounds_offset, batch_size=batch_size, output_units=output_units, dt=dt,
                             zero_padding=zero_padding))
        n = flow_fields.shape[0]
        ident = lambda j: lift(flow_fields.fn(j, 0, 0, 0))
        out = SArr((batch_size,) + tuple(new_flow_field_shape) + (2,),
                   lambda i, a, b, c: wrap(OUT(ident(flat(i) % size(n)), lift(a), lift(b), lift(c))), "f")
        ch, cw = Int(f"cur_h{len(y.adapts)}", 1), Int(f"cur_w{len(y.adapts)}", 1)
        cur = SArr((n, ch, cw, 2), lambda j, a, b, c: wrap(CUR(ident(j), lift(a), lift(b), lift(c))), "f")
        return out, cur

    def generate(key, flow_field, parameters, position_bounds=(512, 512), flow_field_res_x=1.0, flow_field_res_y=1.0, mask=None,
                 histogram=None):
        k = key.reshape((-1, key.shape[-1]))[0].key
        y.gens.append(dict(key=k, flow=flow_field, parameters=parameters, position_bounds=position_bounds, res_x=flow_field_res_x,
                           res_y=flow_field_res_y, mask=mask, histogram=histogram, generic=set(ctx().generic)))
        n = flow_field.shape[0]
        B = parameters.batch_size
        idn = lambda i: IDN(lift(flow_field.fn(flat(i) % size(n), 0, 0, 0)))
        h, w = parameters.image_shape
        ims = [SArr((B, h, w), lambda i, a, b, f=f: wrap(f(k, idn(i), lift(flat(i)), lift(a), lift(b))), "f") for f in IM]
        par = T.ImageGenerationParameters(
            seeding_densities=SArr((B,), lambda i: wrap(PAR["seeding_densities"](k, lift(flat(i)), z3.IntVal(0))), "f"),
            **{n_: SArr((B, 2), lambda i, c, n_=n_: wrap(PAR[n_](k, lift(flat(i)), lift(c))), "f") for n_ in PAR if n_ != "seeding_densities"})
        return ims[0], ims[1], par
    L.load("synthpix")
    L.replace(D.generate_images_from_flow, generate)
    L.replace(U.flow_field_adapter, adapter)
    if ndev is not None:
        from dv.shims import Device
        ctx().ghost["devices"] = [Device(k) for k in range(ndev)] if isinstance(ndev, int) else SymSeq(ndev, lambda i: Device(i))
    T.ImageGenerationSpecification.__post_init__ = lambda self: None  # (validation: C26)
    y.spec = sp = specification(T)
    y.B = sp.batch_size
    oy, ox = Real("offset_y"), Real("offset_x")
    assume(and_(oy >= 0, ox >= 0))
    object.__setattr__(sp, "img_offset", (oy, ox))
    y.bpf, y.ffb = Int("batches_per_flow_batch", 1), Int("flow_fields_per_batch", 1) if ffb is None else ffb
    y.size = (Real("size_y"), Real("size_x"))
    y.res, y.vpp = Real("resolution"), Real("velocities_per_pixel")
    assume(and_(y.size[0] > 0, y.size[1] > 0, y.res > 0, y.vpp > 0))
    y.speeds = dict(max_speed_x=Real("max_speed_x"), max_speed_y=Real("max_speed_y"), min_speed_x=Real("min_speed_x"),
                    min_speed_y=Real("min_speed_y"))
    y.seed = Int("seed", 0)
    y.units = "pixels"
    y.mask_images = arr("static_mask", sp.image_shape) if static else None

    v = y.speeds
    y.hi = [if_(v["max_speed_" + n] > 0, v["max_speed_" + n], 0) for n in "yx"]
    y.lo = [if_(v["min_speed_" + n] < 0, v["min_speed_" + n], 0) for n in "yx"]
    y.offset = (oy, ox)
    y.accepted = and_(y.ffb <= y.B, v["max_speed_x"] >= v["min_speed_x"], v["max_speed_y"] >= v["min_speed_y"],
                      *[o - h * sp.dt >= 0 for o, h in zip(y.offset, y.hi)],
                      *[o + n / y.res - l * sp.dt <= z for o, n, l, z in zip(y.offset, sp.image_shape, y.lo, y.size)])

    def build():
        return M.SyntheticImageSampler(
            scheduler=st, batches_per_flow_batch=y.bpf, flow_fields_per_batch=y.ffb, flow_field_size=y.size, resolution=y.res,
            velocities_per_pixel=y.vpp, seed=y.seed, output_units=y.units, device_ids=device_ids, generation_specification=sp,
            mask_images=y.mask_images, **y.speeds)
    y.build = build
    return y


def flat(i):
    """An index over a product dimension as a number is not needed by the contracts: only the last factor is kept."""
    return i


def size(n):
    return n.size() if isinstance(n, A.Prod) else n
