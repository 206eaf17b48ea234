"""C03: looping and shuffling."""
from contracts.sched import *

BASE = "scheduler.base.BaseFlowFieldScheduler."
BUDGET, MINCASES = 12, 20
NOTE = "For every number of files, of slices per file and of resets, every key and every reachable state."
ASSUMPTIONS = ["a format's load_file and get_next_slice follow their contract (C04, C05, C06)",
               "some file of the list can be read and has a slice (a looping scheduler without any data never returns)",
               "jax.random.permutation(key, n) is a bijection that depends on key and n only",
               "an injection of a finite set into itself is a permutation"]


@harness("_get_next never ends when looping, and starts over with everything", [BASE + "_get_next", BASE + "reset"], seconds=90)
def _(L, s):
    def run():
        next_slice(L, ctx().choose(3, "images"), True, bool(ctx().choose(2, "randomize")))
    s.run(run)


@harness("get_batch is always full when looping", [BASE + "get_batch"], seconds=60)
def _(L, s):
    def run():
        batch(L, True, ctx().choose(3, "images"), bool(ctx().choose(2, "files")), bool(ctx().choose(2, "randomize")))
    s.run(run)


def key_and_class(L):
    w = world(L)
    KeyC = z3.Const("given_key", Key)
    return w, KeyC


@harness("the constructor keeps the order listed, or permutes it by the key", [BASE + "__init__"], seconds=60)
def _(L, s):
    def run():
        w, k = key_and_class(L)
        distinct_files(FILE)
        rnd, loop = bool(ctx().choose(2, "randomize")), bool(ctx().choose(2, "loop"))
        given = bool(ctx().choose(2, "key"))
        sch = scheduler(w, randomize=rnd, loop=loop, **({"key": KeyArr((), lambda: k)} if given else {}))
        if sch is None:
            return
        prove(sch.loop is loop and sch.randomize is rnd, "ensures the flags")
        order_contract(w, sch.file_list, rnd, lambda j: SObj(FILE(lift(j))), k, "construction")
        p = Pos(w, sch)
        for_all(all_due(p), "ensures every slice is due at first")
        p.rep(w, sch, "the state is consistent at first")
    s.run(run)


@harness("reset starts over with every slice, whatever the state", [BASE + "reset"], seconds=60)
def _(L, s):
    def run():
        w, k = key_and_class(L)
        rnd, loop = bool(ctx().choose(2, "randomize")), bool(ctx().choose(2, "loop"))
        sch = scheduler(w, randomize=rnd, loop=loop)
        if sch is None:
            return
        if "key" not in sch.__dict__:
            unsup("the key is kept differently")
        before = z3.Function("before", INT, PATH)
        distinct_files(before)
        havoc_state(w, sch)
        sch.file_list = SList(SymSeq(w.N, lambda i: SObj(before(lift(i)))))
        sch.key = KeyArr((), lambda: k)
        e, _ = raises(sch.reset)
        if e is not None:
            prove(False, "ensures no error")
            return
        order_contract(w, sch.file_list, rnd, lambda j: SObj(before(lift(j))), k, "reset")
        p = Pos(w, sch)
        for_all(all_due(p), "ensures every slice is due again")
        p.rep(w, sch, "the state is consistent after a reset")
        prove(sch.loop is loop and sch.randomize is rnd, "ensures the flags are kept")
        nk = sch.key
        t = lift(nk) if lift(nk) is not None else nk.fn() if hasattr(nk, "fn") else None
        if t is None:
            unsup("the key is kept differently")
        t = lift(t) if not z3.is_expr(t) else t
        prove(not (constants(t) - {"given_key"} - KEYFNS), "ensures the next key depends on the key only")
    s.run(run)


@harness("a reset gives the same order and the same next key in every state", [BASE + "reset"], seconds=60)
def _(L, s):
    def run():
        w, k = key_and_class(L)
        sch = scheduler(w, randomize=True, loop=bool(ctx().choose(2, "loop")))
        if sch is None:
            return
        if "key" not in sch.__dict__:
            unsup("the key is kept differently")
        before = z3.Function("before", INT, PATH)
        distinct_files(before)
        got = []
        for tag in ("_one", "_other"):
            havoc_state(w, sch, tag)
            sch.file_list = SList(SymSeq(w.N, lambda i: SObj(before(lift(i)))))
            sch.key = KeyArr((), lambda: k)
            e, _ = raises(sch.reset)
            if e is not None:
                prove(False, "ensures no error")
                return
            nk = sch.key
            got.append((as_seq_(sch.file_list), lift(nk) if lift(nk) is not None else nk.fn()))
        i = Int("i", 0, w.N)
        prove(eq(got[0][0].get(i), got[1][0].get(i)), "ensures the order depends on the key and the number of resets only, not on what was served")
        a, b = (lift(t) if not z3.is_expr(t) else t for _, t in got)
        prove(SBool(a == b), "ensures the next key does not depend on what was served")
    s.run(run)
