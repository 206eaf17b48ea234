"""C01: every slice is delivered exactly once, in order."""
from contracts.sched import *

BASE = "scheduler.base.BaseFlowFieldScheduler."
BUDGET, MINCASES = 12, 20
NOTE = "For every list of files and directories, every number of files, of slices per file, readable or not, repeated or not, and every reachable state."
ASSUMPTIONS = ["a format's load_file and get_next_slice follow their contract (C04, C05, C06)"]


@harness("_get_next serves the next slice due (no loop)", [BASE + "_get_next", BASE + "__init__"], seconds=60)
def _(L, s):
    def run():
        next_slice(L, ctx().choose(3, "images"), False, bool(ctx().choose(2, "randomize")))
    s.run(run)


@harness("files and directories are expanded in list order", [BASE + "__init__"], seconds=60,
         bounded="lists of at most three entries (any number of files per directory)")
def _(L, s):
    def run():
        w = world(L)
        shape = SHAPES[ctx().choose(len(SHAPES))]
        lst, fs, want, n = listing(shape, w.Format._file_pattern)
        ctx().ghost["fs"] = fs
        e, sch = raises(w.Format, lst)
        if e is not None:
            prove(type(e) is ValueError and eq(n, 0), "rejects only lists without any file")
            return
        prove(n >= 1, "rejects lists without any file")
        in_order(sch.file_list, want, n, "constructor")
    s.run(run)


@harness("the files of any list can be numbered entry by entry", [BASE + "__init__"])
def _(L, s):
    def run():
        n, k, j, o = Int("n", 0), Int("k", 0), Int("j", 0), Int("owner", 0)
        before(n)
        # by induction over n: BEFORE is monotone, and every number below BEFORE(n) belongs to one entry below n
        assume(implies(k <= n, SBool(BEFORE(k.t) <= BEFORE(n.t))))
        prove(implies(k <= n + 1, SBool(BEFORE(k.t) <= BEFORE(n.t + 1))), "lemma: the number of files before an entry grows")
        belongs = lambda o: SBool(z3.And(BEFORE(lift(o)) <= j.t, j.t < BEFORE(lift(o) + 1)))
        prove(not_(SBool(j.t < BEFORE(z3.IntVal(0)))), "lemma: no file before the first entry")
        assume(implies(SBool(j.t < BEFORE(n.t)), and_(o < n, belongs(o))))
        o2 = if_(SBool(j.t < BEFORE(n.t)), o, n)
        prove(implies(SBool(j.t < BEFORE(n.t + 1)), and_(o2 < n + 1, belongs(o2))), "lemma: every file belongs to an entry")
    s.run(run)


@harness("files and directories of any list are expanded in list order", [BASE + "__init__"], seconds=60)
def _(L, s):
    def run():
        w = world(L)
        N = Int("listed_entries", 1)
        whose(N)
        ctx().ghost["fs"] = AnyListing(w.Format._file_pattern)
        ctx().ghost["loop_specs"] = [lambda loop: Expand() if loop.kind == "for" and same(loop.it.n, N) else None]
        ctx().ghost["comp_specs"] = [lambda loop: Expand() if loop.nested and same(loop.it.n, N) else None]
        lst = SList(SymSeq(N, lambda i: SObj(ENTRY(lift(i)))))
        total = wrap(BEFORE(N.t))
        e, sch = raises(w.Format, lst)
        if e is not None:
            prove(type(e) is ValueError and eq(total, 0), "rejects only lists without any file")
            return
        got = as_seq_(sch.file_list)
        prove(total >= 1, "rejects lists without any file")
        prove(eq(got.n, total), "ensures every file of every directory, and every file listed")
        k, r = Int("entry", 0), Int("r", 0)
        assume(and_(k < N, r < wrap(amount(k.t))))
        before(k)
        j = wrap(BEFORE(k.t)) + r
        prove(j < got.n, "ensures every file of every directory, and every file listed (its place)")
        prove(eq(got.get(j), if_(SBool(IS_DIR(k.t)), SObj(SORTED(k.t, r.t)), SObj(ENTRY(k.t)))), "ensures the files of a directory by name, in the place of the directory")
    s.run(run)


@harness("a new scheduler has every slice due", [BASE + "__init__"], seconds=60)
def _(L, s):
    def run():
        w = world(L)
        sch = scheduler(w, randomize=bool(ctx().choose(2, "randomize")), loop=bool(ctx().choose(2, "loop")))
        if sch is None:
            return
        p = Pos(w, sch)
        for_all(all_due(p), "ensures every slice is due at first")
        p.rep(w, sch, "the state is consistent at first")
        prove(eq(as_seq_(sch.file_list).n, w.N), "ensures every entry of the list")
        if not sch.randomize:
            i = Int("i", 0, w.N)
            prove(eq(as_seq_(sch.file_list).get(i), SObj(FILE(i.t))), "ensures the files as listed, repeated ones included")
    s.run(run)
