"""C04: HDF5 files are served slice by slice along y."""
from contracts.fmts import *

H5 = "scheduler.hdf5.HDF5FlowFieldScheduler."
BUDGET, MINCASES = 12, 20
NOTE = "For every data set, every number of entries of the file and every state of the scheduler."
ASSUMPTIONS = ["the base scheduler calls load_file and get_next_slice as proved in C01 (slice index 0 after loading, one more after each slice)",
               "h5py.File(path) lists the entries of the file in one order; indexing a dataset with ... or () reads all of it"]
NAME = z3.DeclareSort("Str")
ENTRY = z3.Function("entry", PATH, INT, NAME)
OPENS = z3.Function("opens", PATH, BOOL)
COUNT = z3.Function("entries", PATH, INT)
ISDATA = z3.Function("is_dataset", PATH, NAME, BOOL)
DIMS = [z3.Function(f"dim{k}", PATH, NAME, INT) for k in range(5)]


def data(p, name, rank=4):
    f = z3.Function(f"data{rank}", PATH, NAME, *([INT] * rank), REAL)
    dims = [wrap(DIMS[k](p, name)) for k in range(rank)]
    for d in dims:
        assume(d >= 0)
    return SArr(tuple(dims), lambda *i: wrap(f(p, name, *[lift(x) for x in i])))


class H5FS(FS):
    rank = 4

    def h5open(self, path, mode="r", **k):
        if mode != "r" or k:
            unsup("opening a file otherwise")
        p = lift(path)
        if not bool(wrap(OPENS(p))):
            raise OSError("cannot be opened")
        n = wrap(COUNT(p))
        assume(n >= 0)

        def item(name):
            if bool(wrap(ISDATA(p, name.t))):
                return F.H5Dataset(data(p, name.t, self.rank))
            return F.H5Group({})
        return F.H5Group(n=n, name=lambda i: SObj(ENTRY(p, lift(i))), item=item)


def scheduler(L, fs):
    M, e, s = build(L, "synthpix.scheduler.hdf5", "HDF5FlowFieldScheduler", fs=fs)
    if e is not None:
        raise_end()
    inherited(type(s), M.BaseFlowFieldScheduler, "_get_next", "get_batch", "reset", "file_list")
    return M, s


def raise_end():
    from dv.core import PathEnd
    raise PathEnd()


@harness("load_file yields the first dataset unchanged", [H5 + "load_file", H5 + "__init__"], seconds=60)
def _(L, s):
    def run():
        fs = H5FS()
        fs.rank = 4 if ctx().choose(2, "rank") == 0 else 5
        M, sch = scheduler(L, fs)
        before = dict(sch.__dict__)
        p = z3.Const("path", PATH)
        e, d = raises(sch.load_file, SObj(p))
        first = ENTRY(p, z3.IntVal(0))
        ok = and_(SBool(OPENS(p)), SBool(COUNT(p) > 0), SBool(ISDATA(p, first)))
        frame(sch, before, "load_file")
        if e is not None:
            prove(not_(ok), "raises only when the first entry is not a dataset or the file cannot be read")
            return
        prove(ok, "raises when the first entry is not a dataset or the file cannot be read")
        same_array(d.flow_fields, data(p, first, fs.rank), "load_file")
        one_label(d, SObj(p), "load_file")
        prove(d.images1 is None and d.images2 is None, "ensures no images")
    s.run(run)


@harness("get_next_slice serves slice k along y, or the end", [H5 + "get_next_slice"], seconds=60)
def _(L, s):
    def run():
        M, sch = scheduler(L, H5FS())
        p = z3.Const("path", PATH)
        raw = arr("raw", (Int("X", 1), Int("Y", 0), Int("Z", 1), Int("C", 1)))
        cached = L.load("synthpix.types").SchedulerData(flow_fields=raw, files=(SObj(p),))
        before = fresh_state(L, sch, SObj(p), cached)
        k = sch._slice_idx
        e, d = raises(sch.get_next_slice)
        frame(sch, before, "get_next_slice")
        if e is not None:
            prove(type(e).__name__ == "FileEndedError", "raises nothing but the end of the file")
            prove(k >= raw.shape[1], "ensures every slice is served before the end of the file")
            return
        prove(k < raw.shape[1], "ensures the end of the file after the last slice")
        X, Y, Z, C = raw.shape
        same_array(d.flow_fields, SArr((X, Z, C), lambda x, z, c: raw.fn(x, k, z, c)), "get_next_slice")
        one_label(d, SObj(p), "get_next_slice")
        prove(d.images1 is None and d.images2 is None, "ensures no images")
    s.run(run)


@harness("constructor: directories of .h5 files, and .h5 files only", [H5 + "__init__"], seconds=60)
def _(L, s):
    from contracts.sched import directories
    s.run(lambda: directories(L, "synthpix.scheduler.hdf5", "HDF5FlowFieldScheduler", ".h5"))


@harness("get_flow_fields_shape is the shape of the slices of the first file", [H5 + "get_flow_fields_shape"], seconds=30)
def _(L, s):
    def run():
        M, sch = scheduler(L, H5FS())
        if ctx().choose(2, "another file is being served"):
            other = current(sch)
            cached = L.load("synthpix.types").SchedulerData(flow_fields=arr("raw", (Int("X", 1), Int("Y", 0), Int("Z", 1), 2)), files=(other,))
            fresh_state(L, sch, other, cached)
        before = dict(sch.__dict__)
        p = lift(sch.file_list.get(0)) if isinstance(sch.file_list, SList) else unsup("another file list")
        first = ENTRY(p, z3.IntVal(0))
        # the flow fields have two components
        assume(SBool(DIMS[3](p, first) == 2))
        e, got = raises(sch.get_flow_fields_shape)
        frame(sch, before, "get_flow_fields_shape")
        ok = and_(SBool(OPENS(p)), SBool(COUNT(p) > 0), SBool(ISDATA(p, first)))
        if e is not None:
            prove(not_(ok), "raises only when the first entry is not a dataset or the file cannot be read")
            return
        prove(ok, "raises when the first entry is not a dataset or the file cannot be read")
        want = data(p, first).shape
        prove(isinstance(got, tuple) and len(got) == 3 and and_(eq(got[0], want[0]), eq(got[1], want[2]), eq(got[2], 2)), "ensures (X, Z, 2)")
    s.run(run)
