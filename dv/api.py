"""What contract files import."""
import z3

from . import arrays as A
from . import core, rewrite, seqs, shims
from .arrays import Prod, SArr, fresh_idx, mkprod
from .core import *
from .core import ctx
from .seqs import LoopSpec, SList, SymSeq, from_list, scope
from .shims import Key, KeyArr, root, size_of

HARNESSES = []


class Harness:
    def __init__(self, fn, name, functions, bounded, seconds, opts):
        self.fn, self.name, self.functions = fn, name, functions
        self.bounded, self.seconds, self.opts = bounded, seconds, opts


def harness(name, functions, bounded=None, seconds=60, **opts):
    """Registers fn(L) as the verification of `functions` against the contract it states.

    functions: "module.func" entries of synthpix whose current source is executed.
    bounded: the bound, when the harness fixes a size (a stand-in, not a proof).
    """
    parts = opts.pop("parts", None)

    def deco(fn):
        if parts is None:
            HARNESSES.append(Harness(fn, name, functions, bounded, seconds, opts))
        else:
            for k in range(parts):
                HARNESSES.append(Harness(lambda L, s, _k=k: fn(L, s, _k), f"{name} [{k + 1}/{parts}]", functions,
                                         bounded, seconds, opts))
        return fn
    return deco


def prove(goal, name):
    return ctx().prove(goal, name)


def cands(*ints):
    """Integers that floors and clamps in the goals may turn out to equal (a hint only)."""
    ctx().ghost["cands"] = [lift(i) for i in ints] + [z3.IntVal(0)]


def lemma(goal):
    """An intermediate assertion: proved, then available."""
    return ctx().prove(goal, "lemma")


def assume(b):
    ctx().assume(b)


def arr(name, shape, kind="f", rng=None):
    """An arbitrary array input: an uninterpreted function of the indices."""
    sort = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[kind]
    n = sum(len(d.dims) if isinstance(d, Prod) else 1 for d in shape)
    f = z3.Function(name, *([z3.IntSort()] * n), sort) if n else None
    if rng is not None and f is not None:
        ctx().axiom(f, lambda t: [t >= rng[0], t <= rng[1]])

    def fn(*i):
        ii = [lift(x) for j in i for x in (j if isinstance(j, tuple) else (j,))]
        return wrap(f(*ii)) if n else wrap(z3.Const(name, sort))
    return SArr(tuple(shape), fn, kind)


def at(a, *idx):
    """Element of an array (or scalar when it has no dimension)."""
    if isinstance(a, SArr):
        return a.fn(*idx)
    if idx:
        unsup("indexing a scalar result")
    return a


def raises(f, *a, **k):
    """The exception f raises, or None; result in .value."""
    try:
        r = f(*a, **k)
    except Exception as e:  # the verified code's exceptions; engine control is BaseException
        core.caught(e)
        return e, None
    return None, r


def shape_is(a, *dims):
    sh = a.shape if isinstance(a, SArr) else ()
    if len(sh) != len(dims):
        return False
    return and_(*[eq(d.size() if isinstance(d, Prod) else d, e.size() if isinstance(e, Prod) else e)
                  for d, e in zip(sh, dims)])


def same_value(a, b):
    """Structural identity of arbitrary engine values (for frame conditions)."""
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and and_(*[same_value(x, y) for x, y in zip(a, b)])
    if isinstance(a, SArr) and isinstance(b, SArr):
        if a.ndim != b.ndim:
            return False
        if a.fn is b.fn:
            return True
        idx = fresh_idx(a.shape, "sv")
        return and_(*[eq(x, y) for x, y in zip(a.shape, b.shape)], eq(a.fn(*idx), b.fn(*idx)))
    if isinstance(a, str) or isinstance(b, str) or isinstance(a, dict):
        return a == b
    ta, tb = lift(a), lift(b)
    if ta is None or tb is None:
        return a == b
    return eq(a, b)


def int_tuple(name, n, lo=None, hi=None):
    return tuple(Int(f"{name}{k}", lo, hi) for k in range(n))


def scatter_of(*terms):
    """The accumulation whose elements occur in the terms (exactly one)."""
    reg, hit, st, seen = ctx().ghost.get("scatters", {}), {}, [lift(t) for t in terms], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().name() in reg:
            hit[t.decl().name()] = reg[t.decl().name()]
        st.extend(t.children())
    if len(hit) != 1:
        unsup("the result is not one accumulation")
    return next(iter(hit.values()))
