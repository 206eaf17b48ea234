"""Episodic scheduling over directories of frames: shared by C07, C08, C10 and C27."""
import itertools

from contracts.sched import *
from dv.files import make

DIRNO = z3.Function("directory_of", PATH, INT)
FRAME = z3.Function("frame_number", PATH, INT)
NAMES = z3.Function("listed_name", INT, INT, PATH)


class Entry:
    def __init__(self, d):
        self.d = d

    def is_dir(self, *, follow_symlinks=True):
        return self.d

    def is_file(self, *, follow_symlinks=True):
        return not self.d


class Scandir(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class EpisodeDirs(Files):
    """Directories 0 .. D-1, directory d holding counts[d] frames; those in `inner` also hold a directory."""

    def __init__(self, counts, inner=()):
        self.counts, self.inner = counts, set(inner)
        self.dirs = [z3.Const(f"dir{k}", PATH) for k in range(len(counts))]
        for a, b in itertools.combinations(self.dirs, 2):
            assume(SBool(a != b))
        ctx().axiom(SORTED, lambda t: [DIRNO(t) == t.arg(0), FRAME(t) == t.arg(1)])
        ctx().axiom(GLOB, lambda t: [DIRNO(t) == t.arg(0)])

    def which(self, p):
        if isinstance(p, SObj):
            for d, t in enumerate(self.dirs):
                if p.t.eq(t):
                    return d
        return None

    def need(self, p):
        d = self.which(p)
        return unsup("another directory is looked at") if d is None else d

    def plain_name(self, p):
        return self.which(p) is None

    def isdir(self, p):
        return self.which(p) is not None

    def isfile(self, p):
        return self.which(p) is None

    def exists(self, p):
        return True

    def normpath(self, p):
        return p

    def scandir(self, p):
        d = self.need(p)
        return Scandir([Entry(False)] + [Entry(True)] * (d in self.inner))

    def glob(self, pattern, recursive=False, **k):
        ps = getattr(pattern, "parts", None)
        if k or not ps or len(ps) != 2 or self.which(ps[0]) is None or ps[1] not in ("/*.mat", "/**/*.mat"):
            unsup("glob of another pattern")
        d = self.which(ps[0])
        return Globbed(d, self.counts[d])


def episode_world(L, D, inner=(), twice=False):
    w = World()
    w.E, w.T, w.P = L.load("synthpix.scheduler.episodic"), L.load("synthpix.types"), L.load("synthpix.scheduler.protocol")
    w.n = [Int(f"frames_in_dir{k}", 1) for k in range(D)]
    w.B, w.L = Int("batch_size", 1), Int("episode_length", 1)
    w.fs = EpisodeDirs(w.n, inner)
    w.leaves = [k for k in range(D) if k not in inner]
    ctx().ghost["fs"] = w.fs
    w.listed = [make([SObj(w.fs.dirs[k]), "/", SObj(z3.Const(f"name{k}_{r}", PATH))]) for r in range(2 if twice else 1) for k in range(D)]
    return w


def base_stub(w, randomize=False):
    """A base scheduler known by its contract: reset may permute the list; get_batch serves the next files of the list."""
    log = []

    class Base:
        def __init__(self):
            self.file_list = list(w.listed)

        def get_batch(self, batch_size):
            log.append(("get_batch", batch_size))
            # a batch may be padded: its mask is arbitrary
            return w.T.SchedulerData(flow_fields=SArr((batch_size, 2, 2, 2), lambda *i: SReal(z3.RealVal(0))),
                                     mask=arr(ctx().fresh("mask"), (batch_size,), "b"))

        def get_flow_fields_shape(self):
            return (2, 2, 2)

        def shutdown(self):
            log.append(("shutdown",))

        def reset(self):
            log.append(("reset",))
            if randomize:
                sh = z3.Function(ctx().fresh("shuffled"), INT, PATH)
                n = self.file_list.n if isinstance(self.file_list, (SymSeq, SList)) else len(self.file_list)
                self.file_list = SList(SymSeq(n, lambda i: SObj(sh(lift(i)))))
            w.state = ("fresh", self.file_list)

        def __iter__(self):
            return self

        def __next__(self):
            log.append(("next",))
            raise StopIteration

        @classmethod
        def from_config(cls, config):
            unsup("from_config")
    w.log = log
    w.base = Base()
    return w.base


def subterms(t):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        st.extend(x.children())
    return out


def draws_of(t):
    """The random integers in a term, when they are one and the same (written in several ways); else None."""
    ds = [x for x in subterms(t) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_INT]
    if not ds or not all(ctx().prove(SBool(ds[0] == d), "", quiet=True) for d in ds[1:]):
        return None
    return ds


def lane(seq, w, t, i):
    """The file of lane i at step t."""
    if isinstance(seq, SList):
        seq = seq.seq
    if getattr(seq, "get_dims", None) is not None and len(seq.dims) == 2 and ctx().check(and_(eq(seq.dims[0], w.L), eq(seq.dims[1], w.B))):
        return seq.get_dims(t, i)
    return seq.get(t * w.B + i)


def interleaved(w, lst, name):
    """The list is time-major over B lanes, each a run of L consecutive frames of one leaf directory."""
    seq = as_seq_(lst)
    prove(eq(seq.n, w.B * w.L), f"ensures {name}: B files for each of L steps")
    i, t = Int("lane", 0, w.B), Int("step", 0, w.L)
    first, x = lane(seq, w, 0, i), lane(seq, w, t, i)
    if not isinstance(first, SObj) or not isinstance(x, SObj):
        unsup("the file list holds something else")
    d, s0 = DIRNO(first.t), FRAME(first.t)
    ctx().instantiate(first.t, x.t)
    ok = []
    for k in w.leaves:
        ok.append(z3.And(d == k, s0 >= 0, s0 + w.L.t <= w.n[k].t))
    prove(SBool(z3.Or(*ok)), f"ensures {name}: every lane starts in a leaf directory where a full episode fits")
    prove(SBool(x.t == SORTED(d, s0 + t.t)), f"ensures {name}: step t of a lane is the t-th frame after its start, by name")
    return i, first


def every_start(w, first, name):
    """Every admissible start is drawn for some value of the random integer."""
    ds = draws_of(first.t)
    rs = ctx().ghost.get("ranges") or []
    if ds is None or len(rs) == 0:
        unsup("starts are drawn in another way")
    lo, hi = rs[-1]
    r = fresh_int("drawn")
    fr = z3.substitute(first.t, *[(e, r.t - lift(lo)) for e in ds])
    if any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_INT for x in subterms(fr)):
        unsup("starts are drawn in another way")
    for k in w.leaves:
        s = fresh_int("wanted_start", 0)
        assume(s + w.L <= w.n[k])
        goal = lambda q: SBool(z3.And(q >= lift(lo), q < lift(hi), z3.substitute(fr, (r.t, q)) == SORTED(z3.IntVal(k), s.t)))
        others = [w.n[j].t - w.L.t + 1 for j in w.leaves if j != k]
        cands_ = []
        for sub in itertools.chain.from_iterable(itertools.combinations(others, m) for m in range(len(others) + 1)):
            off = sum(sub, z3.IntVal(0))
            cands_ += [off + s.t, off + (w.n[k].t - w.L.t) - s.t]
        msg = f"ensures {name}: every start that leaves room can be drawn (directory {k})"
        facts = [w.L >= 1, s >= 0, s + w.L <= w.n[k]] + [w.n[j] >= w.L for j in w.leaves] \
            + [SBool(a != b) for a, b in itertools.combinations(w.fs.dirs, 2)]
        good = next(([q] for q in cands_ if ctx().prove_from(facts, goal(z3.simplify(lift(lo) + q)), "", quiet=True)), None)
        if good:
            ctx().prove_from(facts, goal(z3.simplify(lift(lo) + good[0])), msg)
        else:
            q = z3.Const(ctx().fresh("value"), INT)
            prove(SBool(z3.Exists([q], goal(q).t)), msg)


def uses_only(w, x, key, name):
    """The order is a function of the key, the files and the sizes."""
    names = constants(z3.simplify(x.t))
    allowed = {"given_key", "batch_size", "episode_length", "lane", "step", "sorted_name"} | {f"frames_in_dir{k}" for k in range(len(w.n))} \
        | {f"dir{k}" for k in range(len(w.n))} | KEYFNS | {"bits"}
    extra = {n for n in names if n not in allowed and not n.startswith(("bits", "Root", "Child"))}
    prove(not extra, f"ensures {name}: a function of the key and the files only" + (f" (also uses {sorted(extra)})" if extra else ""))
    used = [k for _, k, _, _ in ctx().ghost.get("draws", [])]
    prove(all(constants(k) & {"given_key"} for k in used) if used else True, f"ensures {name}: drawn with the given key")

