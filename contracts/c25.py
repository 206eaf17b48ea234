"""C25: histogram matching."""
from contracts.common import *

MH = ["utils.match_histogram"]
BUDGET, MINCASES = 6, 20
NOTE = "For every image shape, values in [0, 255] and non-negative target histogram; counting functions by assumed library contracts."
ASSUMPTIONS = ["requires: source values in [0, 255], target histogram non-negative with positive sum",
               "jnp.histogram, cumsum, digitize and searchsorted by contract; jnp.histogram depends on the values only, not their order"]


def setup(U, kind):
    H, W = Int("H", 1), Int("W", 1)
    src = arr("src", (H, W), kind, rng=(0, 255))
    th = arr("target", (256,), "f")
    ctx().axiom(z3.Function("target", z3.IntSort(), z3.RealSort()), lambda t: [t >= 0])
    tot = Real("target_total")
    assume(tot > 0)
    th.meta["total"] = tot
    out = U.match_histogram(src, th)
    prove(shape_is(out, H, W), "ensures the source's shape")
    prove(out.dtype.kind == src.dtype.kind, "ensures the source's dtype")
    hs, cs = ctx().ghost.get("hists", []), ctx().ghost.get("cumsums", [])
    S = [(f, a.meta["hist"]) for f, a in cs if "hist" in a.meta]
    T = [f for f, a in cs if "hist" not in a.meta]
    if len(S) != 1 or len(T) != 1:
        unsup("the cumulative histograms are not computed with histogram and cumsum")
    return H, W, src, th, out, S[0], T[0]


def body(L, s, kind):
    U = L.load("synthpix.utils")

    def run():
        H, W, src, th, out, (S, (x, bins)), T = setup(U, kind)
        # the source histogram counts every pixel once, in unit bins
        k = Int("k", 0, 257)
        prove(shape_is(bins, 257), "one bin per grey level")
        prove(eq(bins.fn(k), k), "bin edges are the grey levels")
        prove(eq(size_of(x), H * W), "the source histogram counts every pixel once")
        y, xx = Int("y", 0, H), Int("x", 0, W)
        xi = x.fn(*([(y, xx)] if len(x.shape) == 1 else [y, xx]))
        prove(eq(xi, at(src, y, xx)), "the source histogram counts the pixels' own values")
        t = z3.Int("tk")
        e = num(lift(next(a for f, a in ctx().ghost["cumsums"] if f is T).fn(SInt(t))))
        prove(SBool(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < 256), e == lift(th.fn(SInt(t)))))),
              "the target's cumulative histogram sums the given counts")
        # the pixel (y, x), of level l
        v, m = at(src, y, xx), at(out, y, xx)
        l = Int("l")
        assume(and_(l <= v, v < l + 1))
        ctx().instantiate(lift(m))
        s_tot, t_tot = S(255), T(255)
        q = lambda f, i, tot: SReal(f(lift(i)) / tot)
        lemma(and_(SReal(s_tot) > 0, SReal(t_tot) > 0))
        lemma(and_(SReal(S(l.t)) >= 0, SReal(S(l.t)) <= SReal(s_tot)))
        freq = q(S, l, s_tot)
        lemma(and_(freq >= 0, freq <= 1))
        mi = wrap(z3.ToInt(to_real(lift(m)))) if not isinstance(m, SInt) else m
        lemma(eq(mi, m))
        prove(and_(m >= 0, m <= 255), "ensures an integer level in 0..255")
        prove(q(T, mi, t_tot) >= freq, "ensures the target's cumulative frequency at the new level reaches the source's")
        j = Int("j", 0, mi)
        prove(q(T, j, t_tot) < freq, "ensures no smaller level does")
    s.run(run)


@harness("each pixel goes to the smallest level reaching its cumulative frequency", MH, jax_division=True, prove_ms=15000)
def h1(L, s):
    body(L, s, "f")


@harness("likewise for integer images", MH, jax_division=True, prove_ms=15000)
def h2(L, s):
    body(L, s, "i")
