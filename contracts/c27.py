"""C27: make."""
import inspect

from contracts.common import *

MAKE = ["make.make", "make.get_base_scheduler"]
CONF = ["scheduler.hdf5.HDF5FlowFieldScheduler.from_config", "scheduler.mat.MATFlowFieldScheduler.from_config",
        "scheduler.numpy.NumpyFlowFieldScheduler.from_config"]
BUDGET, MINCASES = 8, 40
NOTE = "For every combination of options, each absent or of any valid value; every rejected entry of each invalid kind."
ASSUMPTIONS = ["goggles.load_configuration returns the mapping written in the YAML file (external library)",
               "jax.device_put returns the value it is given"]
MISSING = object()
FORMATS = {".h5": ("hdf5", "HDF5FlowFieldScheduler"), ".mat": ("mat", "MATFlowFieldScheduler"), ".npy": ("numpy", "NumpyFlowFieldScheduler")}


class Conf(dict):
    """A configuration whose entries take any of the given values, decided when they are first looked at."""

    def __init__(self, spec):
        self.spec, self.open = spec, set(spec)

    def see(self, k):
        if isinstance(k, str) and k in self.open:
            self.open.discard(k)
            alts = self.spec[k]
            v = alts[ctx().choose(len(alts), k)]
            v = v() if callable(v) else v
            if v is not MISSING:
                dict.__setitem__(self, k, v)

    def value(self, k):
        self.see(k)
        return dict.get(self, k, MISSING)

    def all(self):
        for k in self.spec:
            self.see(k)

    def __getitem__(self, k):
        self.see(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self.see(k)
        return dict.get(self, k, d)

    def __contains__(self, k):
        self.see(k)
        return dict.__contains__(self, k)

    def pop(self, k, *d):
        self.see(k)
        return dict.pop(self, k, *d)

    def setdefault(self, k, d=None):
        self.see(k)
        return dict.setdefault(self, k, d)

    def keys(self):
        self.all()
        return dict.keys(self)

    def items(self):
        self.all()
        return dict.items(self)

    def values(self):
        self.all()
        return dict.values(self)

    def copy(self):
        self.all()
        return dict(self)

    def __iter__(self):
        self.all()
        return dict.__iter__(self)

    def __len__(self):
        self.all()
        return dict.__len__(self)

    def __or__(self, o):
        self.all()
        return dict.__or__(self, o)

    def __ror__(self, o):
        self.all()
        return dict.__ror__(self, o)


def capture(cls, log):
    """The class, its constructor replaced by one that records the arguments (bound to the real signature)."""
    sig = inspect.signature(cls.__init__)

    def init(self, *a, **k):
        try:
            b = sig.bind(self, *a, **k)
        except TypeError as e:
            raise TypeError(str(e)) from None
        b.apply_defaults()
        d = dict(b.arguments)
        d.pop(next(iter(sig.parameters)))
        self.arg = d
        for n, v in d.items():
            try:
                setattr(self, n, v)
            except AttributeError:
                pass
        log.append(self)
    # not served before it is asked for
    served = {n: (lambda self, *a, **k: log.append("served")) for n in ("get_batch", "__next__", "next_episode", "__iter__")
              if hasattr(cls, n)}
    return type(cls.__name__, (cls,), {"__init__": init, "__del__": lambda self: None, "__module__": cls.__module__, **served})


class World:
    def __init__(self, L, synthetic_config=False):
        self.M = L.load("synthpix.make")
        self.log = []
        SC, SA = "synthpix.scheduler.", "synthpix.sampler."
        src = {n: (SC + m, n) for m, n in FORMATS.values()}
        src.update(EpisodicFlowFieldScheduler=(SC + "episodic", "EpisodicFlowFieldScheduler"),
                   PrefetchingFlowFieldScheduler=(SC + "prefetch", "PrefetchingFlowFieldScheduler"),
                   RealImageSampler=(SA + "real", "RealImageSampler"),
                   SyntheticImageSampler=(SA + "synthetic", "SyntheticImageSampler"))
        self.cls = {}
        for n, (m, k) in src.items():
            orig = getattr(L.load(m), k)
            c = self.cls[n] = capture(orig, self.log)
            if n == "SyntheticImageSampler":
                # known by from_config's own contract
                def fc(cls, scheduler, config):
                    x = object.__new__(cls)
                    x.arg = dict(scheduler=scheduler, config=config)
                    self.log.append(x)
                    return x
                c.from_config = classmethod(fc)
            L.replace(orig, c)
            for mod in list(L.modules.values()):
                for v in list(mod.__dict__.values()):
                    if isinstance(v, dict) and not any(v is d for d in (L.bi, mod.__dict__)):
                        for q, w in list(dict.items(v)):
                            if w is orig:
                                dict.__setitem__(v, q, c)

    def call(self, config):
        self.log.clear()
        return self.M.make(config)


def seed_only(key, seed, what):
    """The key is a function of the seed alone, different for different seeds."""
    prove(key is not None, f"{what} gets a key")
    k = lift(key.key) if hasattr(key, "key") else None
    if k is None:
        unsup("a key of another kind")
    if seed is MISSING:
        prove(not free(k), f"{what}'s key is fixed when no seed is given")
        return
    s = lift(seed)
    prove(all(v.eq(s) for v in free(k)), f"{what}'s key depends on nothing but the seed")
    o = z3.Int("another_seed")
    prove(implies(SBool(o != s), SBool(z3.substitute(k, (s, o)) != k)), f"{what}'s key is derived from the seed")


def free(t):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.children())
    return out


def optional(fmt, images):
    """The valid values of every entry."""
    return dict(
        scheduler_class=[fmt], batch_size=[lambda: Int("batch_size", 1)],
        include_images=[True] if images else [MISSING, False],
        flow_fields_per_batch=[lambda: Int("flow_fields_per_batch", 1)],
        batches_per_flow_batch=[lambda: Int("batches_per_flow_batch", 1)] + ([MISSING] if images else []),
        buffer_size=[MISSING, 0, lambda: Int("buffer_size", 1)], episode_length=[MISSING, 0, lambda: Int("episode_length", 1)],
        seed=[lambda: Int("seed", 0)] + ([MISSING] if images else []),
        file_list=[MISSING, lambda: ["some_dir", "a" + fmt, "b" + fmt]],
        randomize=[MISSING, lambda: Bool("randomize")], loop=[MISSING, lambda: Bool("loop")],
        image_shape=[lambda: [Int("image_h", 1), Int("image_w", 1)]] + ([MISSING] if images else []))


class Yaml:
    def __init__(self, path, exists=True, file=True):
        self.path, self.e, self.f = path, exists, file

    def exists(self, p):
        return self.e if p == self.path else unsup("another file is looked at")

    def isfile(self, p):
        return self.e and self.f if p == self.path else unsup("another file is looked at")

    def isdir(self, p):
        return self.e and not self.f if p == self.path else unsup("another file is looked at")


def given(conf, k, default):
    v = conf.value(k)
    return default if v is MISSING else v


def check(W, conf, fmt, images, sampler):
    log = W.log
    prove("served" not in log, "no data is served by make")
    made = lambda n: [x for x in log if type(x) is W.cls[n]]
    for f, (_, n) in FORMATS.items():
        prove(len(made(n)) == (1 if f == fmt else 0), "ensures one base scheduler, of the requested format")
    if fmt not in FORMATS or not made(FORMATS[fmt][1]):
        return
    base, seed = made(FORMATS[fmt][1])[0], conf.value("seed")
    prove(same_value(list(base.arg["file_list"]), given(conf, "file_list", [])), "ensures the configured files")
    prove(eq(base.arg["randomize"], given(conf, "randomize", False)), "ensures the configured order")
    prove(eq(base.arg["loop"], given(conf, "loop", True)), "ensures the configured looping")
    seed_only(base.arg["key"], seed, "the base scheduler")
    if "include_images" in base.arg:
        prove(eq(base.arg["include_images"], images), "ensures images are loaded exactly if configured")
    else:
        prove(not images, "ensures a scheduler that can load images")
    if images:
        sh = base.arg.get("output_shape")
        exp = tuple(given(conf, "image_shape", (256, 256)))
        prove(isinstance(sh, tuple) and len(sh) == 2 and and_(*[eq(a, b) for a, b in zip(sh, exp)]), "ensures the configured image shape")
    n = conf.value("batch_size") if images else conf.value("flow_fields_per_batch")
    outer, wraps = base, []
    E, P = conf.value("episode_length"), conf.value("buffer_size")
    if E is not MISSING and isinstance(E, S):
        wraps.append("EpisodicFlowFieldScheduler")
    if P is not MISSING and isinstance(P, S):
        wraps.append("PrefetchingFlowFieldScheduler")
    for w in ("EpisodicFlowFieldScheduler", "PrefetchingFlowFieldScheduler"):
        prove(len(made(w)) == (1 if w in wraps else 0), f"ensures {w} exactly if configured")
        if w not in wraps or not made(w):
            continue
        x = made(w)[0]
        prove(x.arg["scheduler"] is outer, f"ensures {w} wraps the scheduler inside it")
        prove(eq(x.arg["batch_size"], n), f"ensures {w} serves batches of the size the sampler asks for")
        if w[0] == "E":
            prove(eq(x.arg["episode_length"], E), "ensures the configured episode length")
            seed_only(x.arg["key"], seed, "the episodic scheduler")
        else:
            prove(eq(x.arg["buffer_size"], P), "ensures the configured buffer size")
        outer = x
    R, Y = made("RealImageSampler"), made("SyntheticImageSampler")
    prove(len(R) == (1 if images else 0) and len(Y) == (0 if images else 1), "ensures a real sampler exactly if images are included")
    mine = R if images else Y
    if not mine:
        return
    prove(sampler is mine[0], "ensures the sampler is returned")
    prove(sampler.arg["scheduler"] is outer, "ensures the sampler draws from the outermost scheduler")
    if images:
        prove(eq(sampler.arg["batch_size"], conf.value("batch_size")), "ensures the configured batch size")
    else:
        c = sampler.arg["config"] if "config" in sampler.arg else sampler.arg
        for k in conf.spec:
            if k in ("scheduler_class", "include_images", "buffer_size", "episode_length", "file_list", "randomize", "loop"):
                continue
            v = conf.value(k)
            g = c.get(k, MISSING)
            prove(g is v or g is not MISSING and v is not MISSING and same_value(g, v), f"ensures the sampler is configured with {k}")


def wiring(fmt, images):
    def h(L, s, part):
        W = World(L)

        def run():
            spec = optional(fmt, images)
            if part == 0:
                spec["episode_length"] = spec["episode_length"][:2]
            else:
                spec["episode_length"] = spec["episode_length"][2:]
            conf = Conf(spec)
            if ctx().choose(2, "from a file"):
                ctx().ghost["fs"] = Yaml("dir/conf.yaml")
                ctx().ghost["load_configuration"] = lambda p: conf if p == "dir/conf.yaml" else unsup("another file is loaded")
                r = W.call("dir/conf.yaml")
            else:
                r = W.call(conf)
            check(W, conf, fmt, images, r)
        s.run(run)
    harness(f"{fmt} flow fields{' with images' if images else ''}: the sampler is the one described", MAKE + CONF, parts=2,
            seconds=200, max_paths=100000)(h)


for _f in FORMATS:
    wiring(_f, False)
wiring(".mat", True)

BAD = dict(
    scheduler_class=[MISSING, ".txt", "mat", None, lambda: 3],
    batch_size=[MISSING, None, "8", 2.5, lambda: Int("bad_batch_size", None, 1), lambda: Real("bad_batch_size_real"), lambda: [4]],
    include_images=["yes", None, lambda: Int("bad_include"), lambda: [True]],
    buffer_size=[None, "2", 1.5, lambda: Int("bad_buffer", None, 0), lambda: Real("bad_buffer_real")],
    episode_length=[None, "2", 1.5, lambda: Int("bad_episode", None, 0), lambda: Real("bad_episode_real")],
    flow_fields_per_batch=[MISSING],
    batches_per_flow_batch=[MISSING, None])


@harness("missing or ill-typed entries are rejected", MAKE, parts=len(BAD), seconds=200, max_paths=100000)
def h_bad(L, s, part):
    W = World(L)
    key = list(BAD)[part]

    def run():
        fmt = list(FORMATS)[ctx().choose(3, "format")]
        images = fmt == ".mat" and key != "batches_per_flow_batch" and bool(ctx().choose(2, "images"))
        spec = optional(fmt, images)
        for k in ("file_list", "randomize", "loop", "image_shape"):
            spec[k] = spec[k][-1:]
        spec[key] = BAD[key]
        conf = Conf(spec)
        e, r = raises(W.call, conf)
        prove(e is not None, f"requires a valid {key}")
        prove("served" not in W.log, "no data is served")
    s.run(run)


@harness("images are refused for formats without them", MAKE)
def h_img(L, s):
    W = World(L)

    def run():
        fmt = (".h5", ".npy")[ctx().choose(2, "format")]
        spec = optional(fmt, True)
        e, r = raises(W.call, Conf(spec))
        prove(e is not None, "requires a format that carries images")
        prove("served" not in W.log, "no data is served")
    s.run(run)


@harness("only a mapping or the path of an existing .yaml file is accepted", MAKE)
def h_path(L, s):
    W = World(L)

    def run():
        conf = Conf({k: v[-1:] for k, v in optional(".h5", False).items()})
        c = ctx().choose(6, "what")
        ctx().ghost["load_configuration"] = lambda p: [1, 2] if c == 5 else conf
        what = [3, None, [("scheduler_class", ".h5")], "conf.yaml", "conf.yaml", "conf.yaml"][c] if c else "conf.json"
        ctx().ghost["fs"] = Yaml(what, exists=c != 3, file=c != 4)
        e, r = raises(W.call, what)
        prove(e is not None, "requires a mapping or an existing .yaml file that holds one")
        prove("served" not in W.log, "no data is served")
    s.run(run)


def forwards(fmt):
    @harness(f"from_config of {fmt} files hands over every entry", [f"scheduler.{FORMATS[fmt][0]}.{FORMATS[fmt][1]}.from_config"])
    def h(L, s):
        log = []
        orig = getattr(L.load("synthpix.scheduler." + FORMATS[fmt][0]), FORMATS[fmt][1])
        C = capture(orig, log)

        def run():
            log.clear()
            spec = dict(file_list=[lambda: ["a" + fmt, "b" + fmt]], randomize=[MISSING, lambda: Bool("randomize")],
                        loop=[MISSING, lambda: Bool("loop")], key=[lambda: root(Int("key"))], include_images=[MISSING, lambda: Bool("include_images")],
                        output_shape=[MISSING, lambda: [Int("h", 1), Int("w", 1)]])
            conf = Conf(spec)
            r = C.from_config(conf)
            prove(log == [r], "ensures one scheduler of this format")
            for k in spec:
                v = conf.value(k)
                if v is MISSING or k not in r.arg:
                    continue
                g = r.arg[k]
                if k == "key":
                    prove(g is not None and SBool(lift(g.key) == lift(v.key)), "ensures the given key")
                elif k in ("file_list", "output_shape"):
                    prove(same_value(list(g), v), f"ensures the given {k}")
                    prove(isinstance(g, list if k == "file_list" else tuple), f"ensures the type of {k}")
                else:
                    prove(eq(g, v), f"ensures the given {k}")
        s.run(run)


for _f in FORMATS:
    forwards(_f)

GS = ("batch_size image_shape img_offset seeding_density_range p_hide_img1 p_hide_img2 diameter_ranges diameter_var intensity_ranges "
      "intensity_var rho_ranges rho_var dt noise_uniform noise_gaussian_mean noise_gaussian_std").split()
SY = ("batches_per_flow_batch flow_fields_per_batch flow_field_size resolution velocities_per_pixel seed max_speed_x max_speed_y "
      "min_speed_x min_speed_y output_units").split()


@harness("from_config of the synthetic sampler hands over every entry", ["sampler.synthetic.SyntheticImageSampler.from_config"])
def h_syn(L, s):
    T = L.load("synthpix.types")
    log = []
    orig = L.load("synthpix.sampler.synthetic").SyntheticImageSampler
    C = capture(orig, log)
    L.replace(orig, C)

    def run():
        from contracts.gen import specification
        log.clear()
        p = specification(T, Int("batch_size", 1))
        full = {k: getattr(p, k) for k in GS}
        for k in ("diameter_ranges", "intensity_ranges", "rho_ranges"):
            full[k] = [[Real(f"{k}_lo{i}"), Real(f"{k}_hi{i}")] for i in range(2)]
            for lo, hi in full[k]:
                assume(and_(lo <= hi, lo > (-1 if k[0] == "r" else 0), hi < 1 if k[0] == "r" else True))
        for k in ("image_shape", "img_offset", "seeding_density_range"):
            full[k] = list(full[k])
        full.update(flow_field_size=[Real("size_y"), Real("size_x")], output_units="pixels")
        for k in SY:
            if k not in full:
                full[k] = Int(k) if k in ("batches_per_flow_batch", "flow_fields_per_batch", "seed") else Real(k)
        lost = (list(full) + [None])[ctx().choose(len(full) + 1, "missing")]
        if lost is not None:
            del full[lost]
            e, r = raises(C.from_config, make_sched(), full)
            prove(e is not None and not log, f"requires {lost}")
            return
        if ctx().choose(2, "devices"):
            full["device_ids"] = [0, 1]
        sched = make_sched()
        r = C.from_config(scheduler=sched, config=full)
        prove(log == [r], "ensures one synthetic sampler")
        prove(r.arg["scheduler"] is sched, "ensures the given scheduler")
        for k in SY:
            prove(same_value(tuple(r.arg[k]) if isinstance(full[k], list) else r.arg[k], tuple(full[k]) if isinstance(full[k], list) else full[k]), f"ensures the given {k}")
        g = r.arg["generation_specification"]
        for k in GS:
            a, b = getattr(g, k), full[k]
            if isinstance(b, list):
                if len(a) != len(b):
                    prove(False, f"ensures the given {k}")
                    continue
                flatten = lambda q: [z for x in q for z in (x if isinstance(x, (list, tuple)) else [x])]
                a, b = flatten(a), flatten(b)
                prove(and_(*[eq(x, y) for x, y in zip(a, b)]), f"ensures the given {k}")
            else:
                prove(eq(a, b), f"ensures the given {k}")
        prove(same_value(r.arg["device_ids"], full.get("device_ids")), "ensures the given devices")
        prove(r.arg["mask_images"] is None and r.arg["histogram"] is None, "ensures no mask or histogram unless given")
    s.run(run)


def make_sched():
    return object()


POS_INT = [lambda: None, lambda: "2", lambda: Real("bad_real"), lambda: [2], lambda: Int("bad_int", None, 0)]
NUM = [lambda: None, lambda: "2.5", lambda: [1.0]]
CTOR = dict(batches_per_flow_batch=POS_INT, flow_fields_per_batch=POS_INT, resolution=NUM + [lambda: nonpos("bad_resolution")],
            velocities_per_pixel=NUM + [lambda: nonpos("bad_velocities")], max_speed_x=NUM, max_speed_y=NUM, min_speed_x=NUM,
            min_speed_y=NUM, seed=NUM + [lambda: Int("bad_seed", None, -1), lambda: Real("bad_real")],
            output_units=[lambda: None, lambda: 3, lambda: "px", lambda: "Pixels"],
            flow_field_size=[lambda: (nonpos("bad_size"), Real("size_x")), lambda: (Real("size_y"), nonpos("bad_size")),
                             lambda: ("1", "2")],
            scheduler=[lambda: None, lambda: object(), lambda: [1]])


def nonpos(n):
    x = Real(n)
    assume(x <= 0)
    return x


@harness("the synthetic sampler rejects ill-typed required entries", ["sampler.synthetic.SyntheticImageSampler.__init__", "sampler.base.Sampler.__init__"],
         parts=len(CTOR))
def h_ctor(L, s, part):
    from contracts.samp import synthetic
    key = list(CTOR)[part]

    def run():
        y = synthetic(L, ndev=1)
        assume(y.accepted)
        kw = dict(scheduler=y.stub, batches_per_flow_batch=y.bpf, flow_fields_per_batch=y.ffb, flow_field_size=y.size, resolution=y.res,
                  velocities_per_pixel=y.vpp, seed=y.seed, output_units=y.units, generation_specification=y.spec, **y.speeds)
        kw[key] = CTOR[key][ctx().choose(len(CTOR[key]), "bad")]()
        e, r = raises(L.load("synthpix.sampler.synthetic").SyntheticImageSampler, **kw)
        prove(e is not None, f"requires a valid {key}")
        prove(not y.stub.batches, "no data is served")
    s.run(run)


@harness("the real sampler's own from_config", ["sampler.real.RealImageSampler.from_config"])
def h_real(L, s):
    log = []
    C = capture(L.load("synthpix.sampler.real").RealImageSampler, log)

    def run():
        log.clear()
        B, sched = Int("batch_size", 1), make_sched()
        r = C.from_config(sched, {"batch_size": B, "flow_fields_per_batch": Int("F", 1)})
        prove(log == [r] and r.arg["scheduler"] is sched and eq(r.arg["batch_size"], B), "ensures the given scheduler and batch size")
    s.run(run)


@harness("masks and histograms come from the configured files", ["sampler.synthetic.SyntheticImageSampler.from_config"])
def h_mask(L, s):
    T = L.load("synthpix.types")
    log = []
    orig = L.load("synthpix.sampler.synthetic").SyntheticImageSampler
    C = capture(orig, log)

    def run():
        from contracts.gen import specification
        log.clear()
        p = specification(T, Int("batch_size", 1))
        T.ImageGenerationSpecification.__post_init__ = lambda self: None  # (validation: C26)
        full = {k: getattr(p, k) for k in GS}
        for k in ("diameter_ranges", "intensity_ranges", "rho_ranges"):
            full[k] = [[0.25, 0.5]]
        for k in SY:
            full.setdefault(k, 1 if k != "output_units" else "pixels")
        full["flow_field_size"] = [2.0, 2.0]
        H, W = p.image_shape
        mask = arr("mask", (H, W), "i")
        hist = arr("histogram", (256,), "f")
        exists = bool(ctx().choose(2, "exists"))
        what = ("mask", "histogram")[ctx().choose(2, "which")]
        full[what] = "dir/" + what + ".npy"
        if ctx().choose(2, "ill-typed"):
            full[what] = [1, 2]

        class FS:
            isfile = exists_ = lambda self, q: exists if q == "dir/" + what + ".npy" else unsup("another file is looked at")
            exists = exists_

            def np_load(self, q, *a, **k):
                if q != "dir/" + what + ".npy":
                    unsup("another file is read")
                return mask if what == "mask" else hist
        ctx().ghost["fs"] = FS()
        e, r = raises(C.from_config, make_sched(), full)
        if isinstance(full[what], list) or not exists:
            prove(e is not None and not log, f"requires the {what} to be the path of an existing file")
            return
        y, x = Int("y", 0, H), Int("x", 0, W)
        if what == "mask":
            if e is not None:
                prove(not_(forall_binary(mask, H, W)), "ensures masks of zeros and ones are accepted")
                return
            prove(forall_binary(mask, H, W, y, x), "requires zeros and ones only")
            g = r.arg["mask_images"]
            prove(shape_is(g, H, W) and eq(at(g, y, x), at(mask, y, x)), "ensures the file's mask")
            prove(r.arg["histogram"] is None, "ensures no histogram unless given")
        else:
            prove(e is None, "ensures a histogram is accepted")
            if e is not None:
                return
            k = Int("bin", 0, 256)
            g = r.arg["histogram"]
            prove(shape_is(g, 256) and eq(at(g, k), at(hist, k)), "ensures the file's histogram")
            prove(r.arg["mask_images"] is None, "ensures no mask unless given")
    s.run(run)


def forall_binary(m, H, W, y=None, x=None):
    if y is not None:
        return or_(eq(at(m, y, x), 0), eq(at(m, y, x), 1))
    a, b = z3.Ints("mask_y mask_x")
    v = lift(m.fn(SInt(a), SInt(b)))
    return SBool(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < lift(H), b >= 0, b < lift(W)), z3.Or(v == 0, v == 1))))
