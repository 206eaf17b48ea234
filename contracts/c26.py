"""C26: image generation specifications."""
import dataclasses
import itertools

from contracts.common import *

POST = ["types.ImageGenerationSpecification.__post_init__"]
UPD = ["types.ImageGenerationSpecification.update"]
BUDGET, MINCASES = 4, 60
NOTE = ("Acceptance is proved equivalent to the documented constraints for all numbers and all lengths of the range lists; "
        "ill-typed values are enumerated by kind; update over all 2^16 subsets of fields.")
ASSUMPTIONS = ["infinities are not quantified over; NaN in a list of ranges is enumerated by position",
               "ill-typed values are represented by one value per kind (None, str, list, tuple of another length)"]

NUM = ["p_hide_img1", "p_hide_img2", "diameter_var", "intensity_var", "rho_var", "dt", "noise_uniform",
       "noise_gaussian_mean", "noise_gaussian_std"]
RNG = ["diameter_ranges", "intensity_ranges", "rho_ranges"]


def rlist(name):
    """An arbitrary list of pairs."""
    n = Int("n_" + name, 0)
    lo, hi = z3.Function(name + "_lo", z3.IntSort(), z3.RealSort()), z3.Function(name + "_hi", z3.IntSort(), z3.RealSort())
    v = SList(SymSeq(n, lambda i: (wrap(lo(lift(i))), wrap(hi(lift(i))))))
    k = z3.Int("k")

    def ok(rho):
        body = z3.And(lo(k) > (-1 if rho else 0), lo(k) <= hi(k), *([hi(k) < 1] if rho else []))
        return and_(n > 0, SBool(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n.t), body))))
    return v, ok(name == "rho_ranges")


def numbers():
    """Arbitrary well-typed fields and the documented constraints on each."""
    f, ok = {}, {}
    f["batch_size"] = Int("batch_size")
    ok["batch_size"] = f["batch_size"] > 0
    f["image_shape"] = (Int("h"), Int("w"))
    ok["image_shape"] = and_(*[s > 0 for s in f["image_shape"]])
    f["img_offset"] = (Real("oy"), Real("ox"))
    ok["img_offset"] = and_(*[s >= 0 for s in f["img_offset"]])
    a, b = f["seeding_density_range"] = (Real("d0"), Real("d1"))
    ok["seeding_density_range"] = and_(a >= 0, b >= 0, a <= b)
    for n in NUM:
        x = f[n] = Real(n)
        ok[n] = and_(x >= 0, x <= 1) if n.startswith("p_") else x > 0 if n == "dt" else x >= 0
    for n in RNG:
        f[n], ok[n] = rlist(n)
    return f, ok


@harness("accepted exactly when every constraint holds", POST, prove_ms=15000)
def h1(L, s):
    T = L.load("synthpix.types")

    def run():
        f, ok = numbers()
        e, r = raises(lambda: T.ImageGenerationSpecification(**f))
        good = and_(*ok.values())
        if e is None:
            prove(good, "ensures an accepted specification satisfies all documented constraints")
            for n in f:
                prove(same_value(getattr(r, n), f[n]), f"ensures the field {n} holds the given value")
        else:
            prove(isinstance(e, ValueError), "a rejection is a ValueError")
            prove(not_(good), "ensures a rejected specification violates a documented constraint")
    s.run(run)


@harness("integers are numbers too", POST, prove_ms=15000)
def h2(L, s):
    T = L.load("synthpix.types")

    def run():
        f, ok = numbers()
        for n in NUM:
            x = f[n] = Int("i_" + n)
            ok[n] = and_(x >= 0, x <= 1) if n.startswith("p_") else x > 0 if n == "dt" else x >= 0
        f["img_offset"] = (Int("ioy"), Int("iox"))
        ok["img_offset"] = and_(*[s >= 0 for s in f["img_offset"]])
        e, r = raises(lambda: T.ImageGenerationSpecification(**f))
        prove(eq(e is None, and_(*ok.values())), "accepted exactly when every constraint holds")
    s.run(run)


def bad_kinds():
    """(field, label, value) for values of a wrong kind; elements arbitrary."""
    r = lambda n: Real("bad_" + n)
    i = lambda n: Int("badi_" + n)
    out = []
    for n, vals in {
        "batch_size": [r("b"), None, "4", (4,)],
        "image_shape": [[i("h"), i("w")], (i("h"),), (i("h"), i("w"), i("c")), (r("h"), i("w")), (i("h"), r("w")), None, i("h"),
                        ("8", i("w"))],
        "img_offset": [[r("h"), r("w")], (r("h"),), (r("h"), r("w"), r("c")), None, r("h"), ("8", r("w")), (r("h"), None)],
        "seeding_density_range": [[r("h"), r("w")], (r("h"),), (r("h"), r("w"), r("c")), None, r("h"), ("8", r("w"))],
        "diameter_var": [None, "1"], "intensity_var": [None, "1"], "rho_var": [None, "1"], "dt": [None, "1"],
        "noise_uniform": [None, "1"], "noise_gaussian_mean": [None, "1"], "noise_gaussian_std": [None, "1"],
    }.items():
        out += [(n, str(k), v) for k, v in enumerate(vals)]
    good = (0.25, 0.5)
    for n in RNG:
        for bad in [(r("x"),), (r("x"), r("y"), r("z")), [r("x"), r("y")], r("x"), None, ()]:
            for lst in ([bad], [good, bad], [bad, good], [good, good, bad]):
                out.append((n, "list", lst))
        nan = float("nan")
        for bad in [(nan, 0.5), (0.25, nan), (nan, nan)]:
            for lst in ([bad], [good, bad], [bad, good]):
                out.append((n, "nan", lst))
        out += [(n, "c", v) for v in ((good, good), None, (), r("x"), "list")]
    return out


@harness("values of a wrong kind are rejected", POST, bounded="one value per kind; lists of at most 3 ranges")
def h3(L, s):
    T = L.load("synthpix.types")

    def run():
        f = {"batch_size": 4, "image_shape": (8, 9), "img_offset": (1, 2.5), "seeding_density_range": (0.125, 0.25)}
        f.update({n: 0.5 for n in NUM})
        f.update({n: [(0.25, 0.5), (0.5, 0.5)] for n in RNG})
        e, _ = raises(lambda: T.ImageGenerationSpecification(**f))
        prove(e is None, "the base specification is accepted")
        for n, lab, v in bad_kinds():
            g = dict(f)
            g[n] = v
            e, _ = raises(lambda: T.ImageGenerationSpecification(**g))
            prove(e is not None, f"ensures {n} of a wrong kind is rejected")
    s.run(run)


@harness("a number that is not one (NaN) is rejected", POST, parts=2)
def h3b(L, s, part):
    T = L.load("synthpix.types")
    nan = float("nan")

    def run():
        f, ok = numbers()
        f["batch_size"] = Int("batch_size", 1)
        if part == 0:
            n = NUM[ctx().choose(len(NUM), "field")]
            f[n] = nan
        else:
            n = ["img_offset", "seeding_density_range"][ctx().choose(2, "field")]
            k = ctx().choose(2, "position")
            f[n] = tuple(nan if j == k else v for j, v in enumerate(f[n]))
        e, _ = raises(lambda: T.ImageGenerationSpecification(**f))
        prove(e is not None, f"ensures NaN is rejected as {n}")
    s.run(run)


@harness("every bad entry of a list of ranges is found", POST, bounded="lists of exactly 1, 2 and 3 ranges")
def h4(L, s):
    T = L.load("synthpix.types")

    def run():
        f, ok = numbers()
        assume(and_(*ok.values()))
        n = RNG[ctx().choose(3)]
        m = 1 + ctx().choose(3)
        lst = [(Real(f"lo{k}"), Real(f"hi{k}")) for k in range(m)]
        rho = n == "rho_ranges"
        good = and_(*[and_(a > (-1 if rho else 0), a <= b, b < 1 if rho else True) for a, b in lst])
        f[n] = lst
        e, _ = raises(lambda: T.ImageGenerationSpecification(**f))
        prove(eq(e is None, good), f"accepted exactly when every range of {n} is in order")
    s.run(run)


@harness("update replaces the named fields, keeps the others, validates", UPD)
def h5(L, s):
    T = L.load("synthpix.types")
    C = T.ImageGenerationSpecification
    seen = []
    C.__post_init__ = lambda self: seen.append(self)

    def run():
        names = [f.name for f in dataclasses.fields(C)]
        old = {n: Atom("old_" + n) for n in names}
        new = {n: Atom("new_" + n) for n in names}
        o = C(**old)
        ok_, val, frame = True, True, True
        for mask in range(1 << len(names)):
            kw = {n: new[n] for j, n in enumerate(names) if mask >> j & 1}
            seen.clear()
            r = o.update(**kw)
            ok_ = ok_ and all(getattr(r, n) is (new if n in kw else old)[n] for n in names)
            val = val and type(r) is C and r is not o and any(q is r for q in seen)
        frame = all(getattr(o, n) is old[n] for n in names)
        prove(ok_, "ensures every named field is replaced and every other kept, for all subsets of fields")
        prove(val, "ensures the result is validated")
        prove(frame, "modifies nothing of the original")
    s.run(run)
