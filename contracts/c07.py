"""C07: lanes of an episodic scheduler."""
from contracts.eps import *

E = "scheduler.episodic.EpisodicFlowFieldScheduler."
FNS = [E + "__init__", E + "_calculate_starts", E + "_sample_new_episodes", E + "next_episode", E + "reset", E + "reset_episode", "utils.discover_leaf_dirs"]
BUDGET, MINCASES = 18, 11
SETUPS = [(1, ()), (2, ()), (3, ()), (2, (0,)), (3, (1,))]
NOTE = "For every number of directories, frames per directory, lanes, steps, batch size, episode length and key; the contract of discover_leaf_dirs for every list of files.  The harnesses over one to three directories are bounded: they also cover other ways to write the same code, directories that are not leaves, and another set order."
ASSUMPTIONS = ["glob returns exactly the matching files, once each, in any order; sorting orders them by name",
               "directory paths are written in normal form, one way each",
               "the base scheduler serves its file_list in order (C01, C03); its reset may permute the list",
               "jax.random.choice(key, n, shape) is floor(u * n) for draws u in [0, 1), a function of the key and the position"]


def lanes(L, D, inner, what):
    w = episode_world(L, D, inner, twice=bool(ctx().choose(2, "twice")))
    rnd = bool(ctx().choose(2, "base_shuffles"))
    base = base_stub(w, rnd)
    key = z3.Const("given_key", Key)
    mk = lambda: w.E.EpisodicFlowFieldScheduler(base, w.B, w.L, key=KeyArr((), lambda: key))
    ctx().ghost["ranges"] = []
    e, s = raises(mk)
    short = or_(*[w.n[k] < w.L for k in w.leaves])
    if e is not None:
        prove(type(e) is ValueError and short, "raises ValueError only when a directory is too short for an episode")
        return
    prove(not_(short), "raises ValueError when a directory is too short for an episode")
    name = "construction"
    for step in ([what] if what else []):
        k0 = len(ctx().ghost.get("draws", []))
        ctx().ghost["ranges"] = []
        e, _ = raises(getattr(s, step))
        if e is not None:
            prove(False, f"ensures {step} does not fail")
            return
        name = step
        ks = [d[1] for d in ctx().ghost.get("draws", [])]
        for a in ks[:k0]:
            for b in ks[k0:]:
                prove(SBool(a != b), f"ensures {step}: episodes are drawn with a new key")
    lst = base.file_list
    prove(w.state[0] == "fresh" and w.log and w.log[-1] == ("reset",), f"ensures {name}: the base scheduler starts afresh on the new order")
    i, first = interleaved(w, lst, name)
    every_start(w, first, name)
    uses_only(w, first, key, name)
    # another process iterates over sets in another order
    ctx().ghost["set_order"] = "reversed"
    base.file_list = list(w.listed)
    e, s2 = raises(mk)
    if e is not None:
        prove(False, f"ensures {name}: the same in every process")
        return
    if what:
        getattr(s2, what)()
    x2 = lane(as_seq_(base.file_list), w, 0, i)
    prove(eq(x2, first), f"ensures {name}: the same in every process")


for D, inner in SETUPS:
    @harness(f"lanes over {D} director{'y' if D == 1 else 'ies'}{', one of them not a leaf' if inner else ''}", FNS, seconds=60, bounded=f"{D} directories, up to two listed files each")
    def _(L, s, D=D, inner=inner):
        def run():
            lanes(L, D, inner, (None, "next_episode", "reset")[ctx().choose(3, "what")])
        s.run(run)


# ------------------------------------------------------------------ any number of directories
I = z3.IntSort()
LEAF = z3.Function("leaf_dir", I, PATH)
LEAFNO = z3.Function("number_of_leaf", PATH, I)
COUNT = z3.Function("frames_in", I, I)
PRE = z3.Function("starts_before", I, I)  # admissible starts in the first k directories
OWN = z3.Function("directory_of_start", I, I)


def room(k, w):
    """Admissible starts in directory k."""
    d = COUNT(k) - lift(w.L) + 1
    return z3.If(d > 0, d, z3.IntVal(0))


def prefix(w, k):
    """The recursion of PRE at k (a definition)."""
    k = lift(k)
    ctx().assume(SBool(z3.And(PRE(z3.IntVal(0)) == 0, z3.Implies(k >= 0, PRE(k + 1) == PRE(k) + room(k, w)))))


def monotone():
    a, b = z3.Ints("pre_a pre_b")
    ctx().assume(SBool(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b), PRE(a) <= PRE(b)), patterns=[z3.MultiPattern(PRE(a), PRE(b))])))


@harness("the admissible starts can be numbered directory by directory", FNS[1:2])
def _(L, s):
    def run():
        w = World()
        w.L, n, k = Int("episode_length", 1), Int("n", 0), Int("k", 0)
        prefix(w, n)
        # by induction over n: PRE is monotone, and every number below PRE(n) belongs to one directory below n
        assume(implies(k <= n, SBool(PRE(k.t) <= PRE(n.t))))
        prove(implies(k <= n + 1, SBool(PRE(k.t) <= PRE(n.t + 1))), "lemma: the number of starts before a directory grows")
        j, o = Int("j", 0), Int("owner", 0)
        belongs = lambda o: SBool(z3.And(PRE(lift(o)) <= j.t, j.t < PRE(lift(o) + 1)))
        prove(not_(SBool(j.t < PRE(z3.IntVal(0)))), "lemma: no start before the first directory")
        assume(implies(SBool(j.t < PRE(n.t)), and_(o < n, belongs(o))))
        o2 = if_(SBool(j.t < PRE(n.t)), o, n)
        prove(implies(SBool(j.t < PRE(n.t + 1)), and_(o2 < n + 1, belongs(o2))), "lemma: every start belongs to a directory")
    s.run(run)


class ManyDirs(Files):
    """Leaf directories LEAF(0 .. D-1), directory k holding COUNT(k) frames."""

    def __init__(self, D):
        self.D = D

    def number(self, p):
        if isinstance(p, SObj) and p.t.decl().eq(LEAF):
            return wrap(p.t.arg(0))
        return None

    def isdir(self, p):
        return True if self.number(p) is not None else unsup("another path is looked at")

    def isfile(self, p):
        return not self.isdir(p)

    exists = isdir

    def normpath(self, p):
        return p

    def glob(self, pattern, recursive=False, **k):
        ps = getattr(pattern, "parts", None)
        if k or not ps or len(ps) != 2 or self.number(ps[0]) is None or ps[1] not in ("/*.mat", "/**/*.mat"):
            unsup("glob of another pattern")
        d = self.number(ps[0])
        n = wrap(COUNT(lift(d)))
        ctx().assume(n >= 0)
        return Named(d, n)


class Numbering(LoopSpec):
    """After k directories the list of starts holds those of the first k, in order; and none of these is too short."""

    def __init__(self, w):
        self.w, self.list = w, None

    def start(self, j):
        o = OWN(lift(j))
        return (SObj(LEAF(o)), wrap(lift(j) - PRE(o)))

    def entry(self, loop, env):
        pass

    def empty(self, v):
        return isinstance(v, list) and not v

    def havoc(self, loop, name, v):
        if self.empty(v) or isinstance(v, SList):
            if isinstance(v, SList) or self.list not in (None, name):
                unsup("another list is built")
            self.list = name
            return SList(SymSeq(wrap(PRE(lift(loop.i))), self.start))
        return havoc_value(name, v)

    def assume(self, loop, env):
        w, i = self.w, loop.i
        prefix(w, i)
        if self.list is None:  # the loop builds nothing: it may check
            self.checked(i)

    def checked(self, n):
        k = z3.Int("checked_dir")
        ctx().assume(SBool(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < lift(n)), COUNT(k) >= lift(self.w.L)), patterns=[COUNT(k)])))

    def preserved(self, loop, env):
        w, i = self.w, loop.i  # directories done
        k = i - 1
        if self.list is None:
            prove(SBool(COUNT(lift(k)) >= lift(w.L)), "the loop passes no directory that is too short")
            return
        got = built(env, self.list)
        prove(eq(got.n, wrap(PRE(lift(i)))), "the starts of the directory are added")
        j = Int("number_of_start", 0)
        assume(j < got.n)
        owner(w, j)
        x = got.get(j)
        if not isinstance(x, tuple) or len(x) != 2 or not isinstance(x[0], SObj):
            unsup("starts are kept in another form")
        e = self.start(j)
        prove(and_(eq(x[0], e[0]), eq(x[1], e[1])), "every start added is the next admissible one")


def owner(w, j):
    """The lemma at j: it belongs to a directory."""
    o = OWN(lift(j))
    ctx().assume(SBool(z3.Implies(z3.And(lift(j) >= 0, lift(j) < PRE(lift(w.D))), z3.And(o >= 0, o < lift(w.D), PRE(o) <= lift(j), lift(j) < PRE(o + 1)))))
    prefix(w, wrap(o))


@harness("lanes over any number of directories", FNS[:-1], seconds=120)
def _(L, s):
    M = L.load("synthpix.scheduler.episodic")
    U = L.load("synthpix.utils")
    st = {}
    L.replace(U.discover_leaf_dirs, lambda paths, **k: st["leaves"](paths, **k))

    def run():
        w = World()
        w.E, w.T, w.P = M, L.load("synthpix.types"), L.load("synthpix.scheduler.protocol")
        w.D, w.B, w.L = Int("directories", 1), Int("batch_size", 1), Int("episode_length", 1)
        N = Int("listed_files", 1)
        w.listed = SList(SymSeq(N, lambda i: SObj(z3.Function("listed_file", I, PATH)(lift(i)))))
        ctx().axiom(LEAF, lambda t: [LEAFNO(t) == t.arg(0)])
        ctx().axiom(COUNT, lambda t: [t >= 0])
        ctx().axiom(SORTED, lambda t: [DIRNO(t) == t.arg(0), FRAME(t) == t.arg(1)])
        ctx().axiom(GLOB, lambda t: [DIRNO(t) == t.arg(0)])
        ctx().axiom(OWN, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < PRE(w.D.t)), z3.And(
            t >= 0, t < w.D.t, PRE(t) <= t.arg(0), t.arg(0) < PRE(t + 1), PRE(t + 1) == PRE(t) + room(t, w)))])
        monotone()
        prefix(w, 0)
        ctx().ghost["fs"] = ManyDirs(w.D)
        listed, w.listed = w.listed, []
        base = base_stub(w, bool(ctx().choose(2, "base_shuffles")))
        base.file_list = w.listed = listed

        def leaves(paths, **k):
            a, i = as_seq_(paths), Int("any_listed", 0)
            prove(and_(eq(a.n, N), eq(a.get(i), w.listed.get(i))), "the directories are those of the listed files")
            return SList(SymSeq(w.D, lambda i: SObj(LEAF(lift(i)))))
        st["leaves"] = leaves
        spec = []

        def specs(loop):
            if loop.kind != "for" or not same(loop.it.n, w.D):
                return None
            spec.append(Numbering(w))
            return spec[-1]
        ctx().ghost["loop_specs"] = [specs]
        ctx().ghost["comp_specs"] = [lambda loop: Numbering(w) if loop.nested and same(loop.it.n, w.D) else None]
        key = z3.Const("given_key", Key)
        ctx().ghost["ranges"] = []
        e, sc = raises(lambda: M.EpisodicFlowFieldScheduler(base, w.B, w.L, key=KeyArr((), lambda: key)))
        if e is not None:
            q = z3.Int("some_dir")
            short = SBool(z3.Exists([q], z3.And(q >= 0, q < w.D.t, COUNT(q) < w.L.t)))
            if not any(x.list is None for x in spec) and not ctx().check(short):
                unsup("where short directories are rejected")
            prove(type(e) is ValueError, "raises only ValueError")
            prove(short, "raises ValueError only when a directory is too short for an episode")
            return
        k = Int("any_dir", 0)
        assume(k < w.D)
        prove(SBool(COUNT(k.t) >= w.L.t), "raises ValueError when a directory is too short for an episode")
        step = (None, "next_episode", "reset")[ctx().choose(3, "what")]
        name = step or "construction"
        if step:
            ctx().ghost["ranges"] = []
            e, _ = raises(getattr(sc, step))
            if e is not None:
                prove(False, f"ensures {step} does not fail")
                return
        lst = base.file_list
        prove(w.state[0] == "fresh" and w.log and w.log[-1] == ("reset",), f"ensures {name}: the base scheduler starts afresh on the new order")
        seq = as_seq_(lst)
        prove(eq(seq.n, w.B * w.L), f"ensures {name}: B files for each of L steps")
        i, t = Int("lane", 0, w.B), Int("step", 0, w.L)
        first, x = lane(seq, w, 0, i), lane(seq, w, t, i)
        if not isinstance(first, SObj) or not isinstance(x, SObj):
            unsup("the file list holds something else")
        ctx().instantiate(first.t, x.t)
        d, s0 = DIRNO(first.t), FRAME(first.t)
        prove(SBool(z3.And(d >= 0, d < w.D.t, s0 >= 0, s0 + w.L.t <= COUNT(d))), f"ensures {name}: every lane starts in a leaf directory where a full episode fits")
        prove(SBool(x.t == SORTED(d, s0 + t.t)), f"ensures {name}: step t of a lane is the t-th frame after its start, by name")
        # every admissible start is drawn for some value of the random integer
        ds, rs = draws_of(first.t), ctx().ghost.get("ranges") or []
        if ds is None or not rs:
            unsup("starts are drawn in another way")
        lo, hi = rs[-1]
        want = Int("wanted_start", 0)
        assume(SBool(want.t + w.L.t <= COUNT(k.t)))
        v = PRE(k.t) + want.t  # the number of the start
        prefix(w, k)
        fr = z3.substitute(first.t, *[(e, v) for e in ds])
        if any(z3.is_app(y) and y.decl().kind() == z3.Z3_OP_TO_INT for y in subterms(fr)):
            unsup("starts are drawn in another way")
        prove(SBool(z3.And(v + lift(lo) >= lift(lo), v < lift(hi) - lift(lo))), f"ensures {name}: every start that leaves room can be drawn (its number)")
        prove(SBool(fr == SORTED(k.t, want.t)), f"ensures {name}: every start that leaves room can be drawn")
        used = [q for _, q, _, _ in ctx().ghost.get("draws", [])]
        prove(bool(used) and all(constants(q) & {"given_key"} for q in used), f"ensures {name}: drawn with the given key")
    s.run(run)


# ------------------------------------------------------------------ the leaf directories of any list
DIR_OF = z3.Function("dirname_of", PATH, PATH)
ISDIR = z3.Function("entry_is_dir", PATH, I, z3.BoolSort(), z3.BoolSort())
ENTRIES = z3.Function("entries_of", PATH, I)
ERR = z3.Function("scan_outcome", PATH, I)  # 0 readable, 1 vanished, 2 not a directory, 3 not permitted
HASDIR = z3.Function("has_subdirectory", PATH, z3.BoolSort())
UPTO = z3.Function("leaves_before", I, I)
FROM = z3.Function("place_of_leaf", I, I)


class Entries(SymSeq):
    """The entries of a directory."""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class Search(LoopSpec):
    """A loop over the entries that ends at the first sub-directory: so far there was none, and nothing has changed."""

    def __init__(self, it, st):
        self.it, self.st = it, st

    def entry(self, loop, env):
        self.env = dict(env)

    def havoc(self, loop, name, v):
        return v

    def assume(self, loop, env):
        e, i = z3.Int("earlier_entry"), lift(loop.i)
        ctx().assume(SBool(z3.ForAll([e], z3.Implies(z3.And(e >= 0, e < i), z3.Not(ISDIR(self.it.dir, e, self.st["flag"]))))))

    def preserved(self, loop, env):
        for k, v in self.env.items():
            if env.get(k) is not v and k not in loop.targets and not k.startswith("dv__"):
                unsup("a loop over the entries that changes something")
        i = lift(loop.i) - 1
        if not ctx().check(SBool(z3.Not(ISDIR(self.it.dir, i, self.st["flag"])))):
            unsup("a loop over the entries that does not end at a sub-directory")


class SomeDirs(Files):
    """Any directories: each may be unreadable, and holds any number of entries."""

    def normpath(self, p):
        return p

    def split(self, p):
        return SObj(DIR_OF(lift(p))), SObj(z3.Function("basename_of", PATH, PATH)(lift(p)))

    def scandir(self, p):
        if not isinstance(p, SObj):
            unsup("another directory is looked at")
        for k, e in ((1, FileNotFoundError), (2, NotADirectoryError), (3, PermissionError)):
            if bool(SBool(ERR(p.t) == k)):
                raise e("scandir")

        class E:
            def __init__(self, i):
                self.i = i

            def is_dir(self, *, follow_symlinks=True):
                return SBool(ISDIR(p.t, lift(self.i), lift(follow_symlinks) if isinstance(follow_symlinks, S) else z3.BoolVal(follow_symlinks)))

        ctx().assume(SBool(ENTRIES(p.t) >= 0))
        it = Entries(wrap(ENTRIES(p.t)), E)
        it.dir = p.t
        return it


def is_leaf(p):
    return z3.And(z3.Not(z3.And(ERR(p) >= 1, ERR(p) <= 3)), z3.Not(HASDIR(p)))


def has_dir(p, flag):
    """HASDIR: some entry is a directory."""
    e = z3.Int("entry")
    ctx().assume(SBool(HASDIR(p) == z3.Exists([e], z3.And(e >= 0, e < ENTRIES(p), ISDIR(p, e, flag)))))


class Collect(LoopSpec):
    """After i directories the list holds the leaves among the first i, each once."""

    def __init__(self, st):
        self.st, self.list = st, None

    def elem(self, i):
        return lift(self.st["dirs"](wrap(lift(i))))

    def get(self, c):
        return SObj(self.elem(FROM(lift(c))))

    def step(self, k):
        """UPTO and FROM at k, by definition."""
        k = lift(k)
        lf = is_leaf(self.elem(k))
        ctx().assume(SBool(z3.And(UPTO(z3.IntVal(0)) == 0, z3.Implies(k >= 0, z3.And(
            UPTO(k + 1) == UPTO(k) + z3.If(lf, 1, 0), z3.Implies(lf, FROM(UPTO(k)) == k))))))

    def entry(self, loop, env):
        self.st["dirs"], self.st["seq"] = loop.it.get, loop.it

    def havoc(self, loop, name, v):
        if isinstance(v, list) and not v:
            if self.list not in (None, name):
                unsup("another list is built")
            self.list = name
            return SList(SymSeq(wrap(UPTO(lift(loop.i))), self.get))
        return havoc_value(name, v)

    def assume(self, loop, env):
        self.step(loop.i)
        p = self.elem(loop.i)
        ctx().assume(SBool(UPTO(lift(loop.i)) >= 0))
        has_dir(p, self.st["flag"])

    def preserved(self, loop, env):
        if self.list is None:
            unsup("where the leaves are collected")
        got = built(env, self.list)
        prove(eq(got.n, wrap(UPTO(lift(loop.i)))), "a directory is added exactly if it is a leaf")
        c = Int("place", 0)
        assume(c < got.n)
        prove(eq(got.get(c), self.get(c)), "the directory added is the one looked at")


@harness("the leaves among any directories can be numbered", FNS[-1:])
def _(L, s):
    def run():
        # by induction over the number of directories: place and rank are inverse to each other
        n = Int("n", 0)
        p = z3.Function("nth_dir", I, PATH)
        C = Collect({"dirs": lambda i: SObj(p(lift(i)))})
        C.step(n)
        lf = is_leaf(p(n.t))
        k, c = Int("k", 0), Int("c", 0)
        C.step(k)
        assume(SBool(UPTO(n.t) >= 0))
        rank = lambda m: z3.Implies(z3.And(k.t < m, is_leaf(p(k.t))), z3.And(UPTO(k.t) >= 0, UPTO(k.t) < UPTO(m), FROM(UPTO(k.t)) == k.t))
        place = lambda m: z3.Implies(c.t < UPTO(m), z3.And(FROM(c.t) >= 0, FROM(c.t) < m, is_leaf(p(FROM(c.t))), UPTO(FROM(c.t)) == c.t))
        prove(SBool(z3.And(rank(z3.IntVal(0)), place(z3.IntVal(0)))), "lemma: no directory")
        assume(SBool(z3.And(rank(n.t), place(n.t))))
        prove(SBool(UPTO(n.t + 1) >= 0), "lemma: the count of leaves is not negative")
        prove(SBool(rank(n.t + 1)), "lemma: every leaf has a place")
        prove(SBool(place(n.t + 1)), "lemma: every place holds a leaf, once")
    s.run(run)


@harness("the leaf directories of any list of files", FNS[-1:], seconds=60)
def _(L, s):
    U = L.load("synthpix.utils")

    def run():
        N = Int("listed_files", 0)
        listed = z3.Function("listed_file", I, PATH)
        ctx().ghost["fs"] = SomeDirs()
        flag = Bool("follow_symlinks")
        default = bool(ctx().choose(2, "default"))
        st = {"flag": z3.BoolVal(False) if default else flag.t}
        spec = []

        def specs(loop):
            if isinstance(loop.it, Entries):
                return Search(loop.it, st)
            if loop.kind == "while" or not hasattr(loop.it, "covers"):
                return None
            spec.append(Collect(st))
            return spec[-1]
        ctx().ghost["loop_specs"] = [specs]
        ctx().ghost["comp_specs"] = [lambda loop: specs(loop) if hasattr(loop.it, "covers") else None]
        files = SList(SymSeq(N, lambda i: SObj(listed(lift(i)))))
        e, r = raises(lambda: U.discover_leaf_dirs(files, **({} if default else {"follow_symlinks": flag})))
        if e is not None:
            prove(False, "raises nothing")
            return
        r = as_seq_(r)
        if "dirs" not in st:
            prove(eq(N, 0), "ensures directories are looked at") if eq(r.n, 0) is True else unsup("another way to look at the directories")
            return
        q = st["seq"]
        if not hasattr(q, "covers"):
            unsup("another way to look at the directories")
        C = Collect(st)
        M = q.n
        # what the lemma says, at the indices needed
        c, i = Int("place", 0), Int("any_listed", 0)
        assume(and_(c < r.n, i < N))
        pl = FROM(c.t)
        ctx().assume(SBool(z3.Implies(c.t < UPTO(lift(M)), z3.And(pl >= 0, pl < lift(M), is_leaf(C.elem(pl)), UPTO(pl) == c.t))))
        ctx().instantiate(C.elem(pl), r.get(c).t)
        j = Int("listed_at")
        src = r.get(c)
        k = q.pos(i)
        ctx().assume(q.covers(i))
        ctx().assume(SBool(z3.Implies(z3.And(lift(k) >= 0, lift(k) < lift(M), is_leaf(C.elem(k))), z3.And(
            UPTO(lift(k)) >= 0, UPTO(lift(k)) < UPTO(lift(M)), FROM(UPTO(lift(k))) == lift(k)))))
        prove(eq(r.n, wrap(UPTO(lift(M)))), "ensures every directory is considered")
        prove(SBool(is_leaf(src.t)), "ensures every directory returned is a leaf that can be read")
        w_ = z3.Int("witness")
        prove(SBool(z3.Exists([w_], z3.And(w_ >= 0, w_ < N.t, src.t == DIR_OF(listed(w_))))), "ensures every directory returned holds a listed file")
        here = DIR_OF(listed(i.t))
        prove(SBool(z3.Implies(is_leaf(here), z3.And(UPTO(lift(k)) >= 0, UPTO(lift(k)) < lift(r.n), lift(r.get(wrap(UPTO(lift(k))))) == here))),
              "ensures the directory of every listed file is returned if it is a leaf")
        c2 = Int("place2", 0)
        assume(c2 < r.n)
        pl2 = FROM(c2.t)
        ctx().assume(SBool(z3.Implies(c2.t < UPTO(lift(M)), z3.And(pl2 >= 0, pl2 < lift(M), UPTO(pl2) == c2.t))))
        prove(implies(eq(r.get(c), r.get(c2)), eq(c, c2)), "ensures no directory is returned twice")
    s.run(run)
