"""The base scheduler over an arbitrary list of files of a format known by its contract: shared by C01, C02 and C03.

The contract of a format (load_file, get_next_slice; proved for the three formats in C04, C05 and C06):
load_file(p) returns the data of p or raises; get_next_slice() returns slice k of the cached file, where k is the
slice index, or raises FileEndedError when k is at least the number of slices.
"""
from contracts.common import *
from dv.files import PATH
from dv.seqs import SRange, havoc_value

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
FILE = z3.Function("file", INT, PATH)
READ = z3.Function("readable", PATH, BOOL)
NS = z3.Function("slices", PATH, INT)
SLICE = z3.Function("slice", PATH, INT, INT, INT, INT, REAL)
IM1 = z3.Function("slice_image1", PATH, INT, INT, INT, INT, REAL)
IM2 = z3.Function("slice_image2", PATH, INT, INT, INT, INT, REAL)
GREY, RGB = 1, 2


def picture(w, fn, *args):
    """An image of the world: height by width, with three channels when it is in colour."""
    if not w.images:
        return None
    if w.images == RGB:
        return SArr((w.H, w.W, 3), lambda y, x, c: wrap(fn(*args, lift(y), lift(x), lift(c))))
    return SArr((w.H, w.W), lambda y, x: wrap(fn(*args, lift(y), lift(x), z3.IntVal(0))))


HEAD, TAIL, REALPATH, NORMAL = (z3.Function(n, PATH, PATH) for n in ("folder_of", "name_of", "real_path", "normal_path"))


class Files:
    """The file system: every listed path is a file.  Two files may have the same name, or be the same by another path."""

    def split(self, p):
        return SObj(HEAD(lift(p))), SObj(TAIL(lift(p)))

    def realpath(self, p):
        return SObj(REALPATH(lift(p)))

    def abspath(self, p):
        return SObj(NORMAL(lift(p)))

    normpath = abspath

    def isdir(self, p):
        return False

    def isfile(self, p):
        return True

    exists = isfile


class World:
    pass


def obj(t):
    return SObj(z3.simplify(t))


def world(L, images=False, fs=None):
    """A format class over arbitrary files, and the list of N of them."""
    w = World()
    w.M, w.T, w.P = L.load("synthpix.scheduler.base"), L.load("synthpix.types"), L.load("synthpix.scheduler.protocol")
    w.N = Int("number_of_files", 1)
    w.H, w.W = Int("height", 1), Int("width", 1)
    w.images = images
    ctx().ghost["fs"] = fs or Files()
    ctx().axiom(NS, lambda t: [t >= 0])
    T, P = w.T, w.P

    class Format(w.M.BaseFlowFieldScheduler):
        def load_file(self, file_path):
            if not bool(wrap(READ(lift(file_path)))):
                # a file may fail to load in any of the ways the formats' loaders fail
                raise (OSError, ValueError, KeyError)[ctx().choose(3, "how the file fails")]("cannot be read")
            w.loads = getattr(w, "loads", 0) + 1
            return T.SchedulerData(flow_fields=SArr((wrap(NS(lift(file_path))), w.H, w.W, 2), lambda *i: unsup("raw data")),
                                   files=(file_path,))

        def get_next_slice(self):
            data, k = self._cached_data, self._slice_idx
            if data is None or self._cached_file is None:
                raise RuntimeError("nothing cached")
            p = lift(data.files[0])
            prove(wrap(p == lift(self._cached_file)), "get_next_slice requires the data of the cached file")
            pos = getattr(self, "index", None)
            if pos is None or not ctx().check(wrap(lift(self._cached_file) == lift(as_seq_(self.file_list).get(pos)))):
                # the formats' contracts (C04 to C06) take the cached file to be the one of the current entry
                unsup("the current entry is tracked differently")
            if bool(k >= wrap(NS(p))):
                raise P.FileEndedError("end")
            w.at = (self.index, k)
            return item(w, p, k)

        def get_flow_fields_shape(self):
            return (w.H, w.W, 2)

        @classmethod
        def from_config(cls, config):
            unsup("from_config")
    w.Format = Format
    w.listed = SList(SymSeq(w.N, lambda i: SObj(FILE(lift(i)))))
    return w


def item(w, p, k, files=True):
    kk = lift(k)
    return w.T.SchedulerData(
        flow_fields=SArr((w.H, w.W, 2), lambda y, x, c: wrap(SLICE(p, kk, lift(y), lift(x), lift(c)))),
        images1=picture(w, IM1, p, kk), images2=picture(w, IM2, p, kk),
        files=(SObj(p),) if files else None)


def is_item(w, got, p, k, name):
    """got is slice k of file p, with its images and label."""
    want = item(w, p, k)
    f = got.files
    if not isinstance(f, (tuple, list)) or len(f) != 1:
        prove(False, f"ensures one file name ({name})")
    else:
        prove(eq(f[0], SObj(p)), f"ensures the file name ({name})")
    for n in ("flow_fields", "images1", "images2"):
        g, h = getattr(got, n), getattr(want, n)
        if h is None:
            prove(g is None, f"ensures no {n} ({name})")
            continue
        if g is None:
            prove(False, f"ensures {n} ({name})")
            continue
        prove(shape_is(g, *h.shape), f"ensures the shape of {n} ({name})")
        ix = fresh_idx(h.shape, "e")
        prove(eq(at(g, *ix), at(h, *ix)), f"ensures {n} of the next slice ({name})")


# ------------------------------------------------------------------ positions
class Pos:
    """Abstract state: the set of slices still to come of this pass, over the current list."""

    def __init__(self, w, s):
        for n in ("index", "_slice_idx", "_cached_file", "_cached_data"):
            if n not in s.__dict__:
                unsup("the scheduler's state is kept differently")
        if not hasattr(s, "file_list"):
            unsup("the scheduler's state is kept differently")
        self.files = as_seq_(s.file_list)
        self.i = lift(s.index)
        k = lift(s._slice_idx)
        if s._cached_file is None:
            self.k = z3.IntVal(0)
        else:
            self.k = z3.If(z3.And(self.i < lift(self.files.n), lift(s._cached_file) == self.file(self.i)), k, z3.IntVal(0))

    def file(self, j):
        return lift(self.files.get(wrap(j)))

    def n(self, j):
        p = self.file(j)
        return z3.If(READ(p), NS(p), z3.IntVal(0))

    def slot(self, a, b):
        """(a, b) is a slice of the current list."""
        return z3.And(a >= 0, a < lift(self.files.n), b >= 0, b < self.n(a))

    def due(self, a, b):
        return z3.Or(a > self.i, z3.And(a == self.i, b >= self.k))

    def rep(self, w, s, name=None):
        """The representation invariant, proved (with a name) or assumed."""
        fs = [self.i >= 0, self.i <= lift(self.files.n), lift(s._slice_idx) >= 0]
        if s._cached_file is not None:
            c = lift(s._cached_file)
            fs += [READ(c), lift(s._slice_idx) <= NS(c)]
            d = s._cached_data
            if d is None or not d.files or len(d.files) != 1:
                fs.append(z3.BoolVal(False))
            else:
                fs.append(lift(d.files[0]) == c)
        for f in fs:
            prove(wrap(z3.simplify(f)), name) if name else assume(SBool(f))


def as_seq_(x):
    x = x.seq if isinstance(x, SList) else x
    if isinstance(x, (list, tuple)):
        x = from_list(x)
    if not isinstance(x, SymSeq):
        unsup("the scheduler's state is kept differently")
    return x


def havoc_state(w, s, tag=""):
    """Arbitrary state of the scheduler that satisfies the representation invariant."""
    Pos(w, s)
    s.index = fresh_int("index" + tag, 0)
    s._slice_idx = fresh_int("slice" + tag, 0)
    if ctx().choose(2, "cached"):
        p = SObj(z3.Const(ctx().fresh("cached_path"), PATH))
        s._cached_file = p
        s._cached_data = w.T.SchedulerData(flow_fields=SArr((wrap(NS(p.t)), w.H, w.W, 2), lambda *i: unsup("raw data")), files=(p,))
    else:
        s._cached_file = s._cached_data = None
    p = Pos(w, s)
    p.rep(w, s)
    return p


def known(fn):
    """A fact about every pair (a, b): instantiated at the pairs that for_all proves something about, and at the witness."""
    ctx().ghost.setdefault("facts", []).append(fn)
    for a, b in ctx().ghost.get("witnesses", []):
        assume(SBool(fn(a, b)))


def for_all(fn, name, quiet=False):
    a, b = fresh_int("slot_file"), fresh_int("slot")
    for f in ctx().ghost.get("facts", []):
        assume(SBool(f(a.t, b.t)))
    g = fn(a.t, b.t)
    return ctx().prove(SBool(g), name, quiet=quiet)


def none_due(p):
    return lambda a, b: z3.Implies(p.slot(a, b), z3.Not(p.due(a, b)))


def all_due(p):
    return lambda a, b: z3.Implies(p.slot(a, b), p.due(a, b))


def same_due(p, q):
    return lambda a, b: z3.Implies(q.slot(a, b), p.due(a, b) == q.due(a, b))


class Scan(LoopSpec):
    """Invariant of the search for the next slice: nothing due has been passed over.

    Either the slices due are those due at the start, or none was and the whole (reshuffled) list is due again.
    """

    def __init__(self, w, s, p0):
        self.w, self.s, self.p0 = w, s, p0
        self.wrapped = False

    def check(self, loop, env, when):
        p = Pos(self.w, self.s)
        p.rep(self.w, self.s, f"the state is consistent: {when}")
        if self.s.loop and self.wrapped is False and not for_all(same_due(p, self.p0), "", quiet=True):
            for_all(none_due(self.p0), f"starts over only when nothing was due: {when}")
            for_all(all_due(p), f"starts over with everything due: {when}")
        elif self.wrapped:
            for_all(all_due(p), f"passes over empty files only: {when}")
        else:
            for_all(same_due(p, self.p0), f"passes over empty files only: {when}")

    def assume(self, loop, env):
        w, s = self.w, self.s
        self.wrapped = bool(s.loop and ctx().choose(2, "wrapped"))
        if self.wrapped and s.randomize:
            f2 = z3.Function(ctx().fresh("reshuffled"), INT, PATH)
            s.file_list = SList(SymSeq(w.N, lambda i: SObj(f2(lift(i)))))
        p = havoc_state(w, s, "_l")
        if self.wrapped:
            known(none_due(self.p0))
            if s.loop:
                witness(w, Pos(w, s))
            known(all_due(p))
        else:
            known(same_due(p, self.p0))


def witness(w, p):
    """Some file of the list has a slice (else a looping scheduler has nothing to serve)."""
    a = fresh_int("witness", 0)
    assume(SBool(p.slot(a.t, z3.IntVal(0))))
    ctx().ghost.setdefault("witnesses", []).append((a.t, z3.IntVal(0)))
    for f in ctx().ghost.get("facts", []):
        assume(SBool(f(a.t, z3.IntVal(0))))


def scheduler(w, **k):
    e, s = raises(w.Format, w.listed, **k)
    if e is not None:
        prove(False, "accepts every list of files")
        return None
    return s


def next_slice(L, images, loop, randomize):
    """_get_next from an arbitrary state."""
    w = world(L, images)
    s = scheduler(w, randomize=randomize, loop=loop)
    if s is None:
        return
    if not hasattr(s, "_get_next"):
        unsup("no _get_next")
    p0 = havoc_state(w, s, "0")
    if loop:
        witness(w, p0)
    ctx().ghost["loop_specs"] = [lambda lp: Scan(w, s, p0) if lp.kind == "while" else None]
    e, got = raises(s._get_next)
    p = Pos(w, s)
    if e is not None:
        prove(type(e) is StopIteration, "raises nothing but StopIteration")
        if loop:
            prove(False, "ensures a looping scheduler never ends")
            return
        for_all(none_due(p0), "ensures StopIteration only when no slice is left")
        for_all(none_due(p), "ensures it stays at the end")
        p.rep(w, s, "the state is consistent at the end")
        return
    p.rep(w, s, "the state is consistent after a slice")
    i, k = lift(w.at[0]), lift(w.at[1])
    here = lambda a, b: z3.Or(a > i, z3.And(a == i, b >= k))
    beyond = lambda a, b: z3.Or(a > i, z3.And(a == i, b > k))
    prove(SBool(p.slot(i, k)), "ensures a slice of the list")
    if loop and not for_all(lambda a, b: z3.Implies(p0.slot(a, b), p0.due(a, b) == here(a, b)), "", quiet=True):
        for_all(none_due(p0), "ensures it starts over only when nothing was due")
        for_all(lambda a, b: z3.Implies(p.slot(a, b), here(a, b)), "ensures it starts over with the first slice of the list")
    else:
        prove(SBool(p0.slot(i, k)), "ensures a slice of the current pass")
        for_all(lambda a, b: z3.Implies(p0.slot(a, b), p0.due(a, b) == here(a, b)), "ensures the first slice due, none skipped")
    for_all(lambda a, b: z3.Implies(p.slot(a, b), p.due(a, b) == beyond(a, b)), "ensures exactly this slice is no longer due")
    is_item(w, got, p.file(i), wrap(k), "next slice")


# ------------------------------------------------------------------ get_batch over a stream of slices
FLOW = z3.Function("stream_slice", INT, INT, INT, INT, REAL)
SIM = [z3.Function(f"stream_image{k}", INT, INT, INT, INT, REAL) for k in (1, 2)]
SPATH = z3.Function("stream_file", INT, PATH)


class Stream:
    """The contract of _get_next: slice number pos of the stream, or StopIteration at its end (C01, C03)."""

    def __init__(self, w, end, files):
        self.w, self.end, self.files = w, end, files
        self.pos = Int("served_before", 0)
        if end is not None:
            assume(self.pos <= end)
        self.start = self.pos
        self.raised = False

    def next(self):
        if self.end is not None and bool(self.pos >= self.end):
            self.raised = True
            raise StopIteration
        r = self.item(self.pos)
        self.pos = self.pos + 1
        return r

    def item(self, j):
        w, jj = self.w, lift(j)
        return w.T.SchedulerData(
            flow_fields=SArr((w.H, w.W, 2), lambda y, x, c: wrap(FLOW(jj, lift(y), lift(x), lift(c)))),
            images1=picture(w, SIM[0], jj), images2=picture(w, SIM[1], jj),
            files=(SObj(SPATH(jj)),) if self.files else None)


class Collect(LoopSpec):
    """Invariant of the collecting loop: the list holds exactly the slices consumed so far, in order."""

    def __init__(self, st, n):
        self.st, self.n = st, n
        self.names = None

    def entry(self, loop, env):
        prove(eq(self.st.pos, self.st.start), "nothing is consumed before the batch is collected")
        self.names = [k for k, v in env.items() if isinstance(v, (list, SList)) and k != "self"]
        for k in self.names:
            if same_len(env[k]) is not True:
                unsup("a list that is not empty before the batch is collected")

    def havoc(self, loop, name, v):
        if name in (self.names or ()):
            if not hasattr(self, "m"):
                self.m = fresh_int("collected", 0)
            st = self.st
            return SList(SymSeq(self.m, lambda j: st.item(st.start + j)))
        return havoc_value(name, v)

    def assume(self, loop, env):
        if not hasattr(self, "m"):
            unsup("no list collects the batch")
        st = self.st
        st.pos = st.start + self.m
        if st.end is not None:
            assume(st.pos <= st.end)
        assume(self.m <= self.n)
        if loop.kind == "for":
            assume(eq(self.m, loop.i))

    def preserved(self, loop, env):
        m1 = self.m + 1
        if loop.kind == "for":
            prove(eq(loop.i, m1), "one slice per iteration")
        prove(m1 <= self.n, "never more than requested")
        prove(eq(self.st.pos, self.st.start + m1), "each iteration consumes one slice")
        for k in self.names:
            v = env[k]
            if not isinstance(v, SList):
                unsup("the batch is collected differently")
            prove(eq(v.n, m1), "each slice consumed is collected")
            same_item(self.st, v.get(self.m), self.st.start + self.m, "the slice collected is the one consumed")


def same_len(v):
    n = v.n if isinstance(v, SList) else len(v)
    return n == 0


def same_item(st, got, j, name):
    want = st.item(j)
    for n in ("flow_fields", "images1", "images2"):
        g, h = getattr(got, n), getattr(want, n)
        if (g is None) != (h is None):
            prove(False, name)
        elif g is not None:
            ix = fresh_idx(h.shape, "e")
            prove(and_(shape_is(g, *h.shape), eq(at(g, *ix), at(h, *ix))), name)
    if (got.files is None) != (want.files is None):
        prove(False, name)
    elif got.files is not None:
        prove(eq(got.files[0], want.files[0]), name)


def batch(L, loop, images, files, randomize=False):
    """get_batch of any size from any position of the stream."""
    w = world(L, images)
    s = scheduler(w, randomize=randomize, loop=loop)
    if s is None:
        return
    if not hasattr(s, "_get_next"):
        unsup("no _get_next")
    n = Int("batch_size", 1)
    end = None if loop else Int("slices_in_all", 0)
    st = Stream(w, end, files)
    s._get_next = st.next
    ctx().ghost["loop_specs"] = [lambda lp: Collect(st, n) if lp.func == "get_batch" and (lp.kind == "while" or isinstance(lp.it, SRange)) and "collect" not in ctx().ghost
                                 and not ctx().ghost.update(collect=1) else None]
    left = None if loop else end - st.start
    e, got = raises(s.get_batch, n)
    if e is not None:
        prove(type(e) is StopIteration, "raises nothing but StopIteration")
        prove(False if loop else left <= 0, "ensures StopIteration only when no slice is left")
        prove(eq(st.pos, st.start), "ensures nothing is consumed then")
        return
    real = n if loop else if_(left < n, left, n)
    if not loop:
        prove(left >= 1, "ensures no empty batch")
    prove(eq(st.pos, st.start + real), "ensures exactly min(n, remaining) slices are consumed")
    prove(got.mask is not None and shape_is(got.mask, n), "ensures a mask of length n")
    k = Int("k", 0, n)
    prove(eq(at(got.mask, k), k < real), "ensures the mask is true exactly at the real slices")
    m = got.mask.dtype.kind
    prove(m == "b", "ensures a boolean mask")
    y, x, c = Int("y", 0, w.H), Int("x", 0, w.W), Int("c", 0, 2)
    prove(shape_is(got.flow_fields, n, w.H, w.W, 2), "ensures the shape of the flow fields")
    z = lambda t: if_(k < real, wrap(t), 0.0)
    kk = lift(st.start + k)
    prove(eq(at(got.flow_fields, k, y, x, c), z(FLOW(kk, y.t, x.t, c.t))), "ensures the flow field at each position, zero where missing")
    for j, nm in enumerate(("images1", "images2")):
        im = getattr(got, nm)
        if not images:
            prove(im is None, f"ensures no {nm}")
            continue
        if im is None:
            prove(False, f"ensures {nm}")
            continue
        ch = (Int("ch", 0, 3),) if images == RGB else ()
        prove(shape_is(im, n, w.H, w.W, *((3,) if ch else ())), f"ensures the shape of {nm}")
        prove(eq(at(im, k, y, x, *ch), z(SIM[j](kk, y.t, x.t, ch[0].t if ch else z3.IntVal(0)))), f"ensures {nm} of the same slice at each position, zero where missing")
    if not files:
        prove(got.files is None, "ensures no file names when the slices have none")
        return
    fl = got.files
    if fl is None:
        prove(False, "ensures file names")
        return
    fl = as_seq_(fl)
    prove(eq(fl.n, n), "ensures one file name per position")
    f = fl.get(k)
    if ctx().branch(lift(k < real)):
        f = fl.get(k)
        prove(isinstance(f, SObj) and eq(f, SObj(SPATH(kk))), "ensures the file name of the same slice")
    else:
        f = fl.get(k)
        prove(isinstance(f, str) and f == "", "ensures an empty file name where missing")


# ------------------------------------------------------------------ order of the files
LISTED = z3.Function("position_in_list", PATH, INT)


def constants(t):
    """Names of the free constants and functions of a term."""
    out, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    return out


def order_contract(w, new, randomize, before, key, name):
    """`new` is the list `before` (a function of the position), permuted by a function of the key only when randomizing."""
    new = as_seq_(new)
    prove(eq(new.n, w.N), f"ensures no file lost or added ({name})")
    i, j = Int("i", 0, w.N), Int("j", 0, w.N)
    if not randomize:
        prove(eq(new.get(i), before(i)), f"ensures the files stay in the order listed ({name})")
        return
    # the entries are told apart by their positions
    a, b = lift(new.get(i)), lift(new.get(j))
    pos = lambda t: SInt(LISTED(t))
    prove(SBool(z3.And(LISTED(a) >= 0, LISTED(a) < w.N.t)), f"ensures every file is one of the list ({name})")
    prove(eq(SObj(a), before(pos(a))), f"ensures every file is one of the list unchanged ({name})")
    prove(implies(not_(eq(i, j)), not_(eq(pos(a), pos(b)))), f"ensures no entry is duplicated (hence none lost) ({name})")
    t = z3.simplify(a)
    extra = constants(t) - constants(key) - {"i", "number_of_files", "file", "before", "perm", "perm_inv"} - {d.name() for d in (z3.Const("x", Key).decl(),)}
    extra = {x for x in extra if x not in KEYFNS}
    prove(not extra, f"ensures the order depends on the key and the number of files only ({name})")


KEYFNS = {"Root", "Child", "child", "root", "fold"}


def distinct_files(F):
    """The entries of the list as distinct tokens: what permutation is applied does not depend on the names."""
    ctx().axiom(F, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < z3.Int("number_of_files")), LISTED(t) == t.arg(0))])


# ------------------------------------------------------------------ directories in the list
GLOB = z3.Function("globbed", INT, INT, PATH)  # in the order of the file system
SORTED = z3.Function("sorted_name", INT, INT, PATH)


class Globbed(SymSeq):
    """What glob returns: in no particular order; sorted() gives the files by name."""

    def __init__(self, d, n):
        super().__init__(n, lambda i: SObj(GLOB(z3.IntVal(d), lift(i))))
        self.d = d

    def __dv_sorted__(self):
        return SymSeq(self.n, lambda i: SObj(SORTED(z3.IntVal(self.d), lift(i))))

    def copy(self):
        return self


class Dirs(Files):
    """A file system with directories, numbered by their place in the list; pattern: what the scheduler looks for."""

    def __init__(self, dirs, pattern, counts):
        self.dirs, self.pattern, self.counts = dirs, pattern, counts

    def which(self, p):
        if isinstance(p, SObj):
            for d, t in self.dirs.items():
                if p.t.eq(t):
                    return d
        return None

    def isdir(self, p):
        return self.which(p) is not None

    def isfile(self, p):
        return self.which(p) is None

    def exists(self, p):
        return True

    def glob(self, pattern, recursive=False, **k):
        if k:
            unsup("glob options")
        ps = getattr(pattern, "parts", None)
        if not ps or len(ps) != 2 or self.which(ps[0]) is None:
            unsup("glob of another pattern")
        want = "/" + self.pattern
        if ps[1] != want or ("**" in want and not recursive):
            unsup("glob of another pattern")
        d = self.which(ps[0])
        return Globbed(d, self.counts[d])


SHAPES = ("F", "D", "FD", "DF", "DD", "FDF", "DFD")


def listing(shape, pattern):
    """A list of files and directories, its file system, and the expected files in order."""
    lst, dirs, counts, want, n = [], {}, {}, [], 0
    for k, c in enumerate(shape):
        p = SObj(z3.Const(f"entry{k}", PATH))
        lst.append(p)
        if c == "D":
            dirs[k] = p.t
            counts[k] = Int(f"files_in_dir{k}", 0)
            want.append((counts[k], lambda i, k=k: SObj(SORTED(z3.IntVal(k), lift(i)))))
            n = n + counts[k]
        else:
            want.append((1, lambda i, p=p: p))
            n = n + 1
    return lst, Dirs(dirs, pattern, counts), want, n


def in_order(got, want, n, name):
    got = as_seq_(got)
    prove(eq(got.n, n), f"ensures every file of every directory ({name})")
    j = Int("j", 0)
    off = 0
    for cnt, f in want:
        if ctx().branch(lift(and_(j >= off, j < off + cnt))):
            prove(eq(got.get(j), f(j - off)), f"ensures files in list order, those of a directory by name ({name})")
            return
        off = off + cnt
    raise_end()


def raise_end():
    from dv.core import PathEnd
    raise PathEnd()


# ------------------------------------------------------------------ any number of entries
ENTRY = z3.Function("listed_entry", INT, PATH)
ENTRYNO = z3.Function("number_of_entry", PATH, INT)
IS_DIR = z3.Function("entry_is_dir", INT, BOOL)
FOUND = z3.Function("files_found_in", INT, INT)
BEFORE = z3.Function("files_before", INT, INT)
OF = z3.Function("entry_of_file", INT, INT)


def amount(k):
    return z3.If(IS_DIR(k), FOUND(k), z3.IntVal(1))


def before(k):
    """BEFORE at k, by definition."""
    k = lift(k)
    ctx().assume(SBool(z3.And(BEFORE(z3.IntVal(0)) == 0, FOUND(k) >= 0, z3.Implies(k >= 0, BEFORE(k + 1) == BEFORE(k) + amount(k)))))


class AnyListing(Files):
    """A file system in which entry k of the list is a file or a directory with FOUND(k) matching files."""

    def __init__(self, pattern):
        self.pattern = pattern

    def number(self, p):
        return wrap(p.t.arg(0)) if isinstance(p, SObj) and p.t.decl().eq(ENTRY) else None

    def isdir(self, p):
        k = self.number(p)
        return False if k is None else SBool(IS_DIR(lift(k)))

    def isfile(self, p):
        k = self.number(p)
        return True if k is None else SBool(z3.Not(IS_DIR(lift(k))))

    def exists(self, p):
        return True

    def glob(self, pattern, recursive=False, **k):
        ps = getattr(pattern, "parts", None)
        if k or not ps or len(ps) != 2 or self.number(ps[0]) is None or ps[1] != "/" + self.pattern or ("**" in ps[1] and not recursive):
            unsup("glob of another pattern")
        d = self.number(ps[0])
        ctx().assume(SBool(FOUND(lift(d)) >= 0))
        return Named(d, wrap(FOUND(lift(d))))


class Named(SymSeq):
    """What glob returns for directory d: in no particular order; sorted() gives the files by name."""

    def __init__(self, d, n):
        super().__init__(n, lambda i: SObj(GLOB(lift(d), lift(i))))
        self.d = d

    def __dv_sorted__(self):
        return SymSeq(self.n, lambda i: SObj(SORTED(lift(self.d), lift(i))))

    def __dv_subst__(self, pairs):
        from dv.arrays import subst_obj
        return Named(subst_obj(self.d, pairs), subst_obj(self.n, pairs))

    def copy(self):
        return self


def expanded(j):
    """File j of the expansion."""
    j = lift(j)
    o = OF(j)
    return SObj(z3.If(IS_DIR(o), SORTED(o, j - BEFORE(o)), ENTRY(o)))


def built(env, name):
    """The list that a loop builds: a variable, or an attribute of one."""
    x, _, at_ = name.partition(".")
    return as_seq_(getattr(env[x], at_) if at_ else env[x])


class Expand(LoopSpec):
    """After k entries the list built holds the expansion of the first k."""
    list = None

    def entry(self, loop, env):
        pass

    def havoc(self, loop, name, v):
        if isinstance(v, list) and not v:
            if self.list not in (None, name):
                unsup("another list is built")
            self.list = name
            return SList(SymSeq(wrap(BEFORE(lift(loop.i))), expanded))
        return havoc_value(name, v)

    def assume(self, loop, env):
        before(loop.i)

    def preserved(self, loop, env):
        if self.list is None:
            unsup("which list is built")
        got = built(env, self.list)
        prove(eq(got.n, wrap(BEFORE(lift(loop.i)))), "the files of the entry are added")
        j = Int("number_of_file", 0)
        assume(j < got.n)
        prove(eq(got.get(j), expanded(j)), "every file added is the next one")


def whose(N):
    """To which entry a file of the expansion belongs (lemma: see below), and that the counts grow."""
    a, b = z3.Ints("before_a before_b")
    ctx().assume(SBool(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b), BEFORE(a) <= BEFORE(b)), patterns=[z3.MultiPattern(BEFORE(a), BEFORE(b))])))
    ctx().axiom(OF, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < BEFORE(lift(N))), z3.And(
        t >= 0, t < lift(N), BEFORE(t) <= t.arg(0), t.arg(0) < BEFORE(t + 1), BEFORE(t + 1) == BEFORE(t) + amount(t)))])


def directories(L, module, cls, ext, **k):
    """The constructor of a format: the files of a listed directory take its place, and every file must have the extension."""
    M = L.load(module)
    C = getattr(M, cls)
    N = Int("listed_entries", 1)
    whose(N)
    ctx().ghost["fs"] = AnyListing(C._file_pattern)
    ctx().ghost["loop_specs"] = [lambda loop: Expand() if loop.kind == "for" and same(loop.it.n, N) else None]
    ctx().ghost["comp_specs"] = [lambda loop: Expand() if loop.nested and same(loop.it.n, N) else None]
    total = wrap(BEFORE(N.t))
    has = lambda t: lift(SObj(t).endswith(ext))
    a, b = z3.Ints("dir_a place_b")
    # what a directory is searched for has the extension
    for f in (SORTED, GLOB):
        assume(SBool(z3.ForAll([a, b], has(f(a, b)), patterns=[f(a, b)])))
    bad = Int("entry_of_another_kind", 0, N) if ctx().choose(2, "a file of another kind is listed") else None
    if bad is None:
        assume(SBool(z3.ForAll([a], z3.Or(IS_DIR(a), has(ENTRY(a))), patterns=[ENTRY(a)])))
    else:
        assume(SBool(z3.And(z3.Not(IS_DIR(bad.t)), z3.Not(has(ENTRY(bad.t))))))
        before(bad)
        # it is file number BEFORE(bad), which belongs to that entry
        at = BEFORE(bad.t)
        ctx().instantiate(OF(at))
        assume(SBool(z3.And(BEFORE(bad.t + 1) <= BEFORE(N.t), OF(at) == bad.t)))
    e, sch = raises(C, SList(SymSeq(N, lambda i: SObj(ENTRY(lift(i))))), **k)
    if e is not None:
        prove(type(e) is ValueError, "rejects with a ValueError")
        if bad is None:
            prove(eq(total, 0), "accepts every list of directories and files of the format that has a file")
        return
    prove(total >= 1, "rejects lists without any file")
    prove(bad is None, "rejects a file without the extension of the format")
    got = as_seq_(sch.file_list)
    prove(eq(got.n, total), "ensures every file of every directory, and every file listed")
    e_, r = Int("entry", 0), Int("r", 0)
    assume(and_(e_ < N, r < wrap(amount(e_.t))))
    before(e_)
    j = wrap(BEFORE(e_.t)) + r
    prove(j < got.n, "ensures every file of every directory, and every file listed (its place)")
    prove(eq(got.get(j), if_(SBool(IS_DIR(e_.t)), SObj(SORTED(e_.t, r.t)), SObj(ENTRY(e_.t)))), "ensures the files of a directory by name, in the place of the directory")
