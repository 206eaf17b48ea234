"""C05: MAT files: layout, size and velocity scaling."""
from contracts.fmts import *
from dv.shims import expand_dims

MAT = "scheduler.mat.MATFlowFieldScheduler."
BUDGET, MINCASES = 12, 20
NOTE = ("For every output shape, every size of the data and every value; the entries other than V, I0 and I1 are represented by two, "
        "the groups of an HDF5 file by one.")
ASSUMPTIONS = ["PIL resamples an image to (height, width) as a pure function of the image, the filter and the size (an image of integers to integers)",
               "scipy.io.loadmat gives the variables of a legacy file with at least two axes each (squeezed on request), and raises NotImplementedError or ValueError for an HDF5 one",
               "the base scheduler calls load_file and get_next_slice as proved in C01"]
LEGACY, HDF5, NEITHER, FAILS = range(4)


class MatFS(FS):
    """One file, legacy or HDF5, holding the given variables."""

    def __init__(self, kind, content, nested):
        self.kind, self.content, self.nested = kind, content, nested

    def loadmat(self, path, **k):
        if set(k) - {"struct_as_record", "squeeze_me", "appendmat", "mdict", "verify_compressed_data_integrity"} \
                or k.get("struct_as_record", False):
            unsup("loadmat with other options")
        if self.kind == FAILS:
            raise OSError("cannot be read")
        if self.kind == LEGACY:
            from dv.shims import squeeze
            data = {"extra": arr("extra", (2, 2)), "I2": arr("im2", (Int("h0", 1), Int("w0", 1))), "U": arr("other", (2, 2)), **self.content}
            if k.get("squeeze_me", False):  # SciPy drops every axis of size 1
                data = {n: squeeze(v) for n, v in data.items()}
            return {"__header__": b"header", "__version__": "1.0", **data}
        raise (NotImplementedError if ctx().choose(2, "exception") else ValueError)("HDF5")

    def is_hdf5(self, path):
        return self.kind == HDF5

    def h5open(self, path, mode="r", **k):
        if self.kind != HDF5:
            raise OSError("not HDF5")
        items = {"#refs#": F.H5Group({n: F.H5Dataset(arr("nested_" + n, (3, 3))) for n in self.nested})}
        items.update({n: F.H5Dataset(v) for n, v in self.content.items()})
        return F.H5Group(items)


def resampler():
    fns = {}

    def get(f, ndim):
        if (f, ndim) not in fns:
            fns[f, ndim] = SpecFn(f"resize_{f}", ndim)
        return fns[f, ndim]
    ctx().ghost["resample"] = get
    return get


def scaled(get, comp, H, W, y, x, ratio, got):
    """got is the resampling of comp by one of the filters used, times the ratio."""
    vs = [eq(got, get(f, 2).value(comp, y, x, H, W) * ratio) for f in sorted(ctx().ghost.get("filters", ()))]
    return or_(*vs) if vs else False


def setup(L, include, kind=LEGACY, have=("V", "I0", "I1"), nested=(), layout=None, surplus=False, whole=False):
    """surplus: the arrays of a legacy file come with a further axis of size 1; whole: the velocities are integers."""
    H, W = Int("out_h", 1), Int("out_w", 1)
    h, w = Int("h", 1), Int("w", 1)
    layout = ctx().choose(2, "layout") if layout is None else layout
    v = arr("v", (h, w, 2) if layout == 0 else (2, h, w), "fi"[whole])
    if layout == 1:
        assume(not_(eq(w, 2)))  # (2, h, 2) is channels-last already
    content = {"V": v, "I0": arr("im0", (Int("h0", 1), Int("w0", 1))), "I1": arr("im1", (Int("h1", 1), Int("w1", 1)))}
    content = {k: x for k, x in content.items() if k in have}
    full = content
    if surplus:
        last = bool(ctx().choose(2, "the last axis"))
        if last:  # (otherwise it is not known which of the axes of size 1 is the surplus one)
            assume(and_(*[d > 1 for x in content.values() for d in x.shape if not isinstance(d, int)]))
        full = {k: expand_dims(x, x.ndim if last else 0) for k, x in content.items()}
    fs = MatFS(kind, full, nested)
    M, e, s = build(L, "synthpix.scheduler.mat", "MATFlowFieldScheduler", fs=fs, include_images=include, output_shape=(H, W))
    if e is not None:
        from dv.core import PathEnd
        raise PathEnd()
    inherited(type(s), M.BaseFlowFieldScheduler, "_get_next", "get_batch", "reset", "file_list")
    comp = [SArr((h, w), (lambda y, x, c=c: v.fn(y, x, c)) if layout == 0 else (lambda y, x, c=c: v.fn(c, y, x))) for c in (0, 1)]
    return s, fs, comp, (h, w, H, W), content


def checked(s, comp, dims, content, include, path, d, get, name):
    h, w, H, W = dims
    prove(shape_is(d.flow_fields, H, W, 2), f"ensures the flow has the output shape ({name})")
    y, x = Int("y", 0, H), Int("x", 0, W)
    same = ctx().branch(lift(and_(eq(h, H), eq(w, W))))
    for c, ratio in ((0, W / w), (1, H / h)):
        got = at(d.flow_fields, y, x, c)
        if same:
            prove(eq(got, comp[c].fn(y, x)), f"ensures data of the output shape unchanged, component {c} ({name})")
        else:
            prove(scaled(get, comp[c], H, W, y, x, ratio, got),
                  f"ensures component {c} resampled and scaled by the ratio of its own axis ({name})")
    for f, k in (("images1", "I0"), ("images2", "I1")):
        g = getattr(d, f)
        if not include:
            prove(g is None, f"ensures no {f} unless requested ({name})")
            continue
        if g is None:
            prove(False, f"ensures {f} ({name})")
            continue
        prove(shape_is(g, H, W), f"ensures {f} has the output shape ({name})")
        if ctx().branch(lift(and_(eq(content[k].shape[0], H), eq(content[k].shape[1], W)))):
            prove(eq(at(g, y, x), content[k].fn(y, x)), f"ensures {f} is {k}, unchanged at the output shape ({name})")
        else:
            prove(scaled(get, content[k], H, W, y, x, 1, at(g, y, x)), f"ensures {f} is {k} resampled ({name})")
    one_label(d, path, name)


@harness("load_file: layout, size, scaling and images", [MAT + "load_file", MAT + "__init__"], seconds=90, parts=2)
def _(L, s, part):
    def run():
        include = bool(part)
        get = resampler()
        kind = ctx().choose(2, "kind")
        surplus = kind == LEGACY and bool(ctx().choose(2, "surplus axis"))
        sch, fs, comp, dims, content = setup(L, include, kind, surplus=surplus, whole=bool(ctx().choose(2, "integer velocities")))
        before = dict(sch.__dict__)
        path = SObj(z3.Const("path", PATH))
        e, d = raises(sch.load_file, path)
        frame(sch, before, "load_file")
        if e is not None:
            prove(False, "ensures a file with its data is loaded")
            return
        checked(sch, comp, dims, content, include, path, d, get, "load_file")
    s.run(run)


@harness("load_file: a file without a flow, or without its images, is an error", [MAT + "load_file"], seconds=90,
         bounded="the variables V, I0, I1 present or not; HDF5 groups may hold namesakes")
def _(L, s):
    def run():
        include = bool(ctx().choose(2, "include"))
        resampler()
        have = [k for k in ("V", "I0", "I1") if ctx().choose(2, k)]
        kind = ctx().choose(4, "kind")
        need = ("V", "I0", "I1") if include else ("V",)
        ok = kind in (LEGACY, HDF5) and all(k in have for k in need)
        sch, fs, comp, dims, content = setup(L, include, kind, have, nested=("V", "I0", "I1"), layout=0)
        e, d = raises(sch.load_file, SObj(z3.Const("path", PATH)))
        prove((e is None) == ok, "raises exactly when the flow, or a requested image, is missing or the file cannot be read")
    s.run(run)


@harness("load_file: a flow of another layout is an error", [MAT + "load_file"], seconds=60)
def _(L, s):
    def run():
        resampler()
        include = bool(ctx().choose(2, "include"))
        sch, fs, comp, dims, content = setup(L, include, layout=0)
        a, b, c = Int("a", 1), Int("b", 1), Int("c", 1)
        assume(and_(not_(eq(a, 2)), not_(eq(c, 2))))
        fs.content["V"] = arr("bad", (a, b, c))
        e, d = raises(sch.load_file, SObj(z3.Const("path", PATH)))
        prove(e is not None, "raises when neither the first nor the last axis has two components")
    s.run(run)


@harness("get_next_slice serves one item per file", [MAT + "get_next_slice"], seconds=60)
def _(L, s):
    def run():
        resampler()
        include = bool(ctx().choose(2, "include"))
        sch, fs, comp, dims, content = setup(L, include, layout=0)
        h, w, H, W = dims
        path = SObj(z3.Const("path", PATH))
        T = L.load("synthpix.types")
        v, i0, i1 = arr("cv", (H, W, 2)), arr("ci0", (H, W)), arr("ci1", (H, W))
        cached = T.SchedulerData(flow_fields=v, images1=i0 if include else None, images2=i1 if include else None, files=(path,))
        before = fresh_state(L, sch, path, cached)
        k = sch._slice_idx
        e, d = raises(sch.get_next_slice)
        frame(sch, before, "get_next_slice")
        if e is not None:
            prove(type(e).__name__ == "FileEndedError", "raises nothing but the end of the file")
            prove(k >= 1, "ensures one item per file")
            return
        prove(k <= 0, "ensures only one item per file")
        same_array(d.flow_fields, v, "flow")
        one_label(d, path, "get_next_slice")
        if include:
            if d.images1 is None or d.images2 is None:
                prove(False, "ensures both images")
                return
            same_array(d.images1, i0, "images1")
            same_array(d.images2, i1, "images2")
        else:
            prove(d.images1 is None and d.images2 is None, "ensures no images unless requested")
    s.run(run)


@harness("get_flow_fields_shape is the output shape", [MAT + "get_flow_fields_shape"], seconds=30)
def _(L, s):
    def run():
        resampler()
        sch, fs, comp, (h, w, H, W), content = setup(L, bool(ctx().choose(2, "include")), layout=0)
        r = sch.get_flow_fields_shape()
        prove(isinstance(r, tuple) and len(r) == 3 and and_(eq(r[0], H), eq(r[1], W), eq(r[2], 2)), "ensures (height, width, 2)")
    s.run(run)


@harness("constructor: directories of .mat files, and .mat files only", [MAT + "__init__"], seconds=60)
def _(L, s):
    from contracts.sched import directories
    s.run(lambda: directories(L, "synthpix.scheduler.mat", "MATFlowFieldScheduler", ".mat", include_images=bool(ctx().choose(2, "images"))))
