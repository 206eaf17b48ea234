"""C06: NumPy flows are paired with their own frames."""
from contracts.fmts import *

NPY = "scheduler.numpy.NumpyFlowFieldScheduler."
BUDGET, MINCASES = 12, 20
NOTE = "For every number of files, folder, frame number and array; names off the pattern are represented by samples."
ASSUMPTIONS = ["numpy.load gives the array of the file; PIL opens and converts an image as a pure function of the file and the mode",
               "frame numbers are written without leading zeros",
               "the base scheduler calls load_file and get_next_slice as proved in C01"]
DIR = z3.Function("folder", INT, PATH)
T = z3.Function("frame", INT, INT)
EXISTS = z3.Function("image_exists", PATH, INT, BOOL)
RAW = z3.Function("flow_value", PATH, INT, INT, INT, INT, REAL)
SIZE = [z3.Function(n, PATH, INT, INT) for n in ("img_height", "img_width")]
BAD = ("flow_x.npy", "flow_.npy", "xflow_1.npy", "flow_1a.npy", "flow_1.npy.npy", "flow_-1.npy", "flow1.npy", "flow_1_2.npy", "Flow_1.npy", "flow_1 .npy", "flow_12.5.npy")


def name(i):
    i = lift(i)
    return SymStr([SObj(DIR(i)), "/flow_", SInt(T(i)), ".npy"])


def parse(p, pre, post):
    """(folder, number) of the file <folder>/<pre><number><post>."""
    if not isinstance(p, SymStr) or len(p.parts) != 4 or not isinstance(p.parts[0], SObj) or not isinstance(p.parts[2], (SInt, int)):
        unsup("a path of another form")
    if p.parts[1] != "/" + pre or p.parts[3] != post:
        return None
    return p.parts[0].t, lift(p.parts[2])


class NpyImage:
    """An opened image file."""

    def __init__(self, folder, t, mode=None):
        self.folder, self.t, self.mode = folder, t, mode

    def convert(self, mode=None, *a, **k):
        if a or k or not isinstance(mode, str):
            unsup("conversion of an image")
        return NpyImage(self.folder, self.t, mode)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def load(self):
        pass

    close = load

    def copy(self):
        return self

    def __dv_to_array__(self):
        ctx().ghost.setdefault("modes", set()).add(self.mode)
        return pixels(self.folder, self.t, self.mode)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        unsup(f"PIL.Image.{k}")


def pixels(folder, t, mode):
    rank = 3 if mode in ("RGB", "RGBA", "HSV", "YCbCr", "CMYK", "LAB") else 2
    f = z3.Function(f"pixel_{mode}", PATH, INT, *([INT] * rank), INT)
    sh = tuple(wrap(s(folder, t)) for s in SIZE) + (({"RGBA": 4, "CMYK": 4}.get(mode, 3),) if rank == 3 else ())
    for d in sh:
        assume(d >= 1)
    return SArr(sh, lambda *i: wrap(f(folder, t, *[lift(x) for x in i])), "i")


class NpyFS(FS):
    def isfile(self, p):
        if isinstance(p, Either):
            return True
        if not isinstance(F.resolve(p), SymStr):
            return True if isinstance(p, SObj) else unsup("a path of another form")
        p = F.resolve(p)
        if p.endswith(".npy"):
            return True
        q = parse(p, "img_", ".jpg")
        return wrap(EXISTS(*q)) if q else False

    exists = isfile

    def np_load(self, p, *a, **k):
        if a or set(k) - {"allow_pickle"}:
            unsup("numpy.load with options")
        q = parse(F.resolve(p), "flow_", ".npy")
        if q is None:
            raise OSError("no such file")
        return flow(*q)

    def image_open(self, p, *a, **k):
        q = parse(F.resolve(p), "img_", ".jpg")
        if q is None:
            raise OSError("no such file")
        return NpyImage(*q)


def flow(d, t):
    f = z3.Function("flow_array", PATH, INT, INT, INT, INT, REAL)
    return SArr((Int("fh", 1), Int("fw", 1), 2), lambda *i: wrap(f(d, t, *[lift(x) for x in i])))


class Either:
    """Entry i: the name of a flow, except at entry b, whose name is off the pattern."""

    def __init__(self, i, b, bad):
        self.i, self.b, self.bad = i, b, SymStr([SObj(DIR(lift(i))), "/" + bad])
        self.good = name(i)

    def __dv_isinstance__(self, k):
        return k is str

    def __dv_subst__(self, pairs):
        return Either(wrap(z3.substitute(lift(self.i), *pairs)), self.b, self.bad.parts[1][1:])

    def __dv_resolve__(self):
        return self.bad if ctx().branch(lift(eq(self.i, self.b))) else self.good

    def endswith(self, suf):
        x, y = self.bad.endswith(suf), self.good.endswith(suf)
        return x if x is y else if_(eq(self.i, self.b), x, y)

    def __str__(self):
        return "<a name>"

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(self.__dv_resolve__(), k)


class Passed(LoopSpec):
    """Invariant of the validating loop: entry b, which must be refused, has not been passed."""

    def __init__(self, b):
        self.b = b

    def check(self, loop, env, when):
        if not isinstance(loop.i, (int, SInt)):
            unsup("a loop of another kind")
        if self.b is not None:
            prove(loop.i <= self.b, f"the entry to refuse is not passed ({when})")

    def assume(self, loop, env):
        if self.b is not None:
            assume(loop.i <= self.b)


def make(L, include, get=None, b=None, n=None):
    M = L.load("synthpix.scheduler.numpy")
    Base = M.BaseFlowFieldScheduler
    n = Int("number_of_files", 1) if n is None else n
    ctx().axiom(T, lambda t: [t >= 0, *both_exist(t)])
    orig = Base.__init__
    done = []

    def base_init(self, *a, **k):
        orig(self, *a, **k)
        done.append(1)
    Base.__init__ = base_init
    ctx().ghost["loop_specs"] = [lambda lp: Passed(b) if done and lp.kind == "for" else None]
    try:
        return build(L, "synthpix.scheduler.numpy", "NumpyFlowFieldScheduler", n=n, get=get or name, fs=NpyFS(), include_images=include)
    finally:
        Base.__init__ = orig


@harness("constructor: accepts flows with both images; needs none without images", [NPY + "__init__"], seconds=60)
def _(L, s):
    def run():
        include = bool(ctx().choose(2, "include"))
        if include:
            assume_all_exist()
        M, e, sch = make(L, include)
        prove(e is None, "ensures construction succeeds when both images of every flow exist" if include else "requires no image when none is requested")
        if sch is not None:
            inherited(type(sch), M.BaseFlowFieldScheduler, "_get_next", "get_batch", "reset", "file_list")
            prove(sch.include_images is include, "ensures the flag")
    s.run(run)


def assume_all_exist():
    """Both images of every listed flow exist."""
    ctx().ghost["all_exist"] = True


def both_exist(t):
    i, n = t.arg(0), z3.Int("number_of_files")
    if not ctx().ghost.get("all_exist"):
        return []
    return [z3.Implies(z3.And(i >= 0, i < n), z3.And(EXISTS(DIR(i), t - 1), EXISTS(DIR(i), t)))]


@harness("constructor: fails when an image of any flow is missing", [NPY + "__init__"], seconds=60)
def _(L, s):
    def run():
        n = Int("number_of_files", 1)
        b = Int("entry_without_image", 0, n)
        bt = b.t
        assume(not_(wrap(EXISTS(DIR(bt), T(bt) - 1 if ctx().choose(2, "which") == 0 else T(bt)))))
        M, e, sch = make(L, True, b=b, n=n)
        prove(e is not None, "ensures construction fails when an image is missing")
    s.run(run)


@harness("constructor: fails on a name off the pattern when images are requested", [NPY + "__init__"], seconds=90,
         bounded="names off the pattern: " + ", ".join(BAD))
def _(L, s):
    def run():
        n = Int("number_of_files", 1)
        b = Int("bad_entry", 0, n)
        bad = BAD[ctx().choose(len(BAD), "name")]
        M, e, sch = make(L, True, get=lambda i: Either(i, b, bad), b=b, n=n)
        prove(e is not None, "ensures construction fails when a name is off the pattern")
    s.run(run)


def one(L, include):
    """A scheduler of one flow, in any state."""
    assume_all_exist()
    M, e, s = make(L, include)
    if e is not None:
        prove(False, "ensures construction")
        return None, None
    path = SymStr([SObj(z3.Const("in_folder", PATH)), "/flow_", Int("t", 0), ".npy"])
    return s, path


@harness("load_file yields the array unchanged", [NPY + "load_file"], seconds=60)
def _(L, s):
    def run():
        sch, path = one(L, bool(ctx().choose(2, "include")))
        if sch is None:
            return
        before = dict(sch.__dict__)
        e, d = raises(sch.load_file, path)
        if e is not None:
            prove(False, "ensures the file is loaded")
            return
        frame(sch, before, "load_file")
        same_array(d.flow_fields, flow(path.parts[0].t, path.parts[2].t), "load_file")
        one_label(d, path, "load_file")
    s.run(run)


@harness("get_next_slice pairs the flow of frame t with images t-1 and t of its folder", [NPY + "get_next_slice"], seconds=60)
def _(L, s):
    def run():
        include = bool(ctx().choose(2, "include"))
        sch, path = one(L, include)
        if sch is None:
            return
        path = current(sch)
        if not isinstance(path, SymStr):
            unsup("the listed paths are changed")
        Ty = L.load("synthpix.types")
        v = arr("cached_flow", (Int("fh", 1), Int("fw", 1), 2))
        before = fresh_state(L, sch, path, Ty.SchedulerData(flow_fields=v, files=(path,)))
        k = sch._slice_idx
        e, d = raises(sch.get_next_slice)
        frame(sch, before, "get_next_slice")
        if e is not None:
            prove(type(e).__name__ == "FileEndedError", "raises nothing but the end of the file")
            prove(k >= 1, "ensures one item per file")
            return
        prove(k <= 0, "ensures only one item per file")
        same_array(d.flow_fields, v, "flow")
        one_label(d, path, "get_next_slice")
        for f, off in (("images1", 1), ("images2", 0)):
            g = getattr(d, f)
            if not include:
                prove(g is None, f"ensures no {f} unless requested")
                continue
            if g is None:
                prove(False, f"ensures {f}")
                continue
            modes = ctx().ghost.get("modes", set())
            if len(modes) != 1:
                unsup("images converted in several ways")
            same_array(g, pixels(path.parts[0].t, path.parts[2].t - off, next(iter(modes))), f)
    s.run(run)


@harness("constructor: directories of .npy files, and .npy files only", [NPY + "__init__"], seconds=60)
def _(L, s):
    from contracts.sched import directories
    s.run(lambda: directories(L, "synthpix.scheduler.numpy", "NumpyFlowFieldScheduler", ".npy"))


@harness("get_flow_fields_shape is the shape of the first array", [NPY + "get_flow_fields_shape"], seconds=30)
def _(L, s):
    def run():
        sch, path = one(L, bool(ctx().choose(2, "include")))
        if sch is None:
            return
        if ctx().choose(2, "another file is being served"):
            other = current(sch)
            v = arr("cached_flow", (Int("fh", 1), Int("fw", 1), 2))
            fresh_state(L, sch, other, L.load("synthpix.types").SchedulerData(flow_fields=v, files=(other,)))
        before = dict(sch.__dict__)
        e, got = raises(sch.get_flow_fields_shape)
        if e is not None:
            prove(False, "ensures a shape")
            return
        frame(sch, before, "get_flow_fields_shape")
        p = F.resolve(sch.file_list.get(0)) if isinstance(sch.file_list, SList) else unsup("another file list")
        want = flow(p.parts[0].t, p.parts[2].t).shape
        prove(isinstance(got, tuple) and len(got) == len(want) and and_(*[eq(x, y) for x, y in zip(got, want)]), "ensures the shape of the array")
    s.run(run)
