"""Assumed contracts on the libraries the code uses (jax, numpy, ...).

Every function here states what the library call returns; these are trusted.
Floating point is real arithmetic; random draws are uninterpreted functions of
(key, shape, index) with their range facts.
"""
import types as _types

import z3

from .core import *
from . import core
from .arrays import *
from .arrays import SArr, ew, as_array, stack, getitem, mkprod, DType, in_shape
from . import arrays as A
from .seqs import SymSeq, SList, scope, as_seq, dv_isinstance, from_list


def mod(name, **k):
    m = _types.ModuleType(name)
    m.__dict__.update(k)
    m.__getattr__ = lambda a: _missing(name, a)
    return m


def _missing(name, a):
    if a.startswith("__"):
        raise AttributeError(a)
    unsup(f"{name}.{a}")


# ---------------------------------------------------------------- elementwise
def uf1(name, axiom=None):
    f = z3.Function(name, z3.RealSort(), z3.RealSort())

    def one(x):
        c = ctx()
        if axiom is not None and name not in c.axioms:
            c.axiom(f, axiom)
        return wrap(f(to_real(lift(x))))
    return one, f


def _sqrt_ax(t):
    x = t.arg(0)
    return [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)), z3.Implies(x == 0, t == 0),
            z3.Implies(x == 1, t == 1)]


def _exp_ax(t):
    return [t > 0, z3.Implies(t.arg(0) == 0, t == 1), z3.Implies(t.arg(0) <= 0, t <= 1)]


exp1, EXP = uf1("exp", _exp_ax)
sqrt1, SQRT = uf1("sqrt", _sqrt_ax)
sin1, SIN = uf1("sin")
cos1, COS = uf1("cos")


def floor1(x):
    t = num(lift(x))
    if z3.is_int(t):
        return wrap(z3.ToReal(t))
    if z3.is_to_real(t):
        return wrap(t)
    return wrap(z3.ToReal(z3.ToInt(t)))


def ceil1(x):
    t = num(lift(x))
    if z3.is_int(t):
        return wrap(z3.ToReal(t))
    if z3.is_to_real(t):
        return wrap(t)
    return wrap(-z3.ToReal(z3.ToInt(-t)))


def maximum1(a, b):
    return if_(a >= b if isinstance(a, S) or isinstance(b, S) else a >= b, a, b)


def minimum1(a, b):
    return if_(a <= b, a, b)


def num_(x):
    t = lift(x)
    return wrap(num(t)) if t is not None and z3.is_bool(t) else x


def elementwise(f, kind=None):
    def g(*args, **kw):
        kw.pop("dtype", None)
        return ew(f, *[vec(a) for a in args], kind=kind)
    return g


def vec(a):
    if isinstance(a, (list, tuple, SymSeq, SList)):
        return as_array(a)
    return a


def jnp_clip(x, *a, **k):
    lo = k.get("min", k.get("a_min", a[0] if a else None))
    hi = k.get("max", k.get("a_max", a[1] if len(a) > 1 else None))

    def f(v, *b):
        b = list(b)
        if lo is not None:
            l = b.pop(0)
            v = if_(v < l, l, v)
        if hi is not None:
            h = b.pop(0)
            v = if_(v > h, h, v)
        return v
    args = [vec(x)] + [vec(b) for b in (lo, hi) if b is not None]
    kinds = {kind_of(b) for b in args}
    return ew(f, *args, kind="f" if "f" in kinds else "i")


def kind_of(x):
    return A.kind_of(x)


def where(c, a, b):
    kinds = {kind_of(vec(a)), kind_of(vec(b))}
    k = "f" if "f" in kinds else "i" if "i" in kinds else "b"
    return ew(lambda c, x, y: if_(c, x, y), vec(c), vec(a), vec(b), kind=k)


# ---------------------------------------------------------------- construction
def shape_of(s):
    if isinstance(s, SArr):
        s = list(s)
    if isinstance(s, (tuple, list)):
        return tuple(s)
    return (s,)


def dkind(dtype, default="f"):
    return default if dtype is None else dtype_kind(dtype)


def full(shape, v, dtype=None, **k):
    if isinstance(v, SArr):
        unsup("full with an array")
    kd = dkind(dtype, kind_of(v) or "f")
    val = cast(v, dtype) if dtype is not None else v
    sh = shape_of(shape)
    if sh == ():
        return val
    for d in sh:
        if isinstance(d, int) and d < 0:
            raise ValueError("negative dimensions are not allowed")
    return SArr(sh, lambda *i: val, kd)


def zeros(shape, dtype=None, **k):
    return full(shape, 0, dtype if dtype is not None else "float")


def ones(shape, dtype=None, **k):
    return full(shape, 1, dtype if dtype is not None else "float")


def zeros_like(a, dtype=None, **k):
    a = as_array(a)
    return SArr(a.shape, lambda *i: cast(0, dtype or a.dtype), dkind(dtype, a.dtype.kind))


def ones_like(a, dtype=None, **k):
    a = as_array(a)
    return SArr(a.shape, lambda *i: cast(1, dtype or a.dtype), dkind(dtype, a.dtype.kind))


def full_like(a, v, dtype=None, **k):
    a = as_array(a)
    return SArr(a.shape, lambda *i: v, dkind(dtype, a.dtype.kind))


def arange(*a, dtype=None, device=None, **k):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if not (isinstance(st, int) and st == 1):
        unsup("arange step")
    for b in (lo, hi):
        if kind_of(b) != "i":
            unsup("arange of reals")
    n = hi - lo
    if isinstance(n, S) and not ctx().check(n >= 0):
        n = if_(n >= 0, n, 0)
    elif isinstance(n, int):
        n = max(n, 0)
    n = A.simp(n)
    return SArr((n,), lambda i: cast(i if isinstance(lo, int) and lo == 0 else lo + i, dtype) if dtype is not None
                else (i if isinstance(lo, int) and lo == 0 else lo + i), dkind(dtype, "i"))


def iota(dtype, n):
    return arange(n, dtype=dtype)


def indices(dims, **k):
    sh = shape_of(dims)
    return stack([SArr(sh, lambda *i, _k=k_: i[_k], "i") for k_ in range(len(sh))], 0)


def meshgrid(*xs, indexing="xy", **k):
    xs = [as_array(x) for x in xs]
    if len(xs) != 2:
        unsup("meshgrid of more than two")
    x, y = xs
    if indexing == "xy":
        sh = (y.shape[0], x.shape[0])
        return [SArr(sh, lambda i, j: x.fn(j), x.dtype), SArr(sh, lambda i, j: y.fn(i), y.dtype)]
    sh = (x.shape[0], y.shape[0])
    return [SArr(sh, lambda i, j: x.fn(i), x.dtype), SArr(sh, lambda i, j: y.fn(j), y.dtype)]


def linspace(start, stop, num=50, endpoint=True, dtype=None, **k):
    n = num
    if not endpoint:
        unsup("linspace endpoint")

    def fn(i):
        one = n == 1
        if one is True:
            return cast(start, "float")
        # (n == 1 gives start: guarded division)
        d = if_(one, 1, n - 1) if isinstance(one, S) else n - 1
        return cast(start, "float") + div_(cast(stop, "float") - start, d) * i
    return SArr((n,), fn, "f")


def div_(a, b):
    return A.div(a, b)


def array(x, dtype=None, device=None, copy=None, **k):
    if isinstance(x, KeyArr):
        return x
    if isinstance(x, SArr):
        r = x.astype(dtype) if dtype is not None else x
        return SArr(r.shape, r.fn, r.dtype) if r is x else r
    if isinstance(x, (list, tuple, SymSeq, SList)):
        if isinstance(x, (SymSeq, SList)):
            r = stack(x.seq if isinstance(x, SList) else x)
        else:
            r = as_array(x)
        return r.astype(dtype) if dtype is not None else r
    if hasattr(x, "__dv_to_array__"):
        return x.__dv_to_array__()
    t = lift(x)
    if t is None:
        unsup(f"array({type(x).__name__})")
    return cast(x, dtype) if dtype is not None else x


def concatenate(xs, axis=0, **k):
    xs = [as_array(x) for x in xs]
    if axis < 0:
        axis += xs[0].ndim
    offs, tot = [], 0
    for x in xs:
        offs.append(tot)
        tot = tot + x.shape[axis]
    sh = xs[0].shape[:axis] + (tot,) + xs[0].shape[axis + 1:]

    def fn(*idx):
        i = idx[axis]
        r = None
        for x, o in reversed(list(zip(xs, offs))):
            v = x.fn(*idx[:axis], i - o if not (isinstance(o, int) and o == 0) else i, *idx[axis + 1:])
            r = v if r is None else if_(i < o + x.shape[axis], v, r)
        return r
    kinds = {x.dtype.kind for x in xs}
    return SArr(sh, fn, "f" if "f" in kinds else "i" if "i" in kinds else "b")


def pad(a, pad_width, mode="constant", constant_values=0, **k):
    a = as_array(a)
    pw = pad_width
    if isinstance(pw, int):
        pw = ((pw, pw),) * a.ndim
    pw = [tuple(p) if isinstance(p, (tuple, list)) else (p, p) for p in pw]
    if len(pw) == 1 and a.ndim > 1:
        pw = pw * a.ndim
    if len(pw) != a.ndim:
        raise ValueError("pad_width does not match the array")
    zero = [isinstance(p[0], int) and p[0] == 0 and isinstance(p[1], int) and p[1] == 0 for p in pw]
    sh = tuple(d if z else d + p[0] + p[1] for d, p, z in zip(a.shape, pw, zero))
    if mode == "edge":
        def fn(*idx):
            ii = []
            for i, d, p, z in zip(idx, a.shape, pw, zero):
                if z:
                    ii.append(i)
                    continue
                j = i - p[0]
                j = if_(j < 0, 0, j)
                if not (isinstance(p[1], int) and p[1] == 0):
                    j = if_(j >= d, d - 1, j)
                ii.append(j)
            return a.fn(*ii)
        return SArr(sh, fn, a.dtype)
    if mode == "constant":
        def fn(*idx):
            ii, cs = [], []
            for i, d, p, z in zip(idx, a.shape, pw, zero):
                if z:
                    ii.append(i)
                    continue
                j = i if isinstance(p[0], int) and p[0] == 0 else i - p[0]
                cs += [j >= 0, j < d]
                ii.append(j)
            ok = and_(*cs)
            if core.tbool(ok) is True or ctx().check(ok):
                return a.fn(*ii)
            if ctx().check(not_(ok)):
                return cast(constant_values, a.dtype)
            return if_(ok, a.fn(*ii), cast(constant_values, a.dtype))
        return SArr(sh, fn, a.dtype)
    unsup(f"pad mode {mode}")


def tile(a, reps):
    a = as_array(a)
    reps = shape_of(reps)
    reps = (1,) * (a.ndim - len(reps)) + tuple(reps)
    if len(reps) != a.ndim:
        unsup("tile")
    sh = tuple(d if A.is1(r) else d * r for d, r in zip(a.shape, reps))

    def fn(*idx):
        return a.fn(*[i if A.is1(r) else i % d for i, d, r in zip(idx, a.shape, reps)])
    return SArr(sh, fn, a.dtype)


def repeat(a, reps, axis=None, **k):
    a = as_array(a)
    if axis is None:
        unsup("repeat without axis")
    sh = tuple(d * reps if k_ == axis else d for k_, d in enumerate(a.shape))
    return SArr(sh, lambda *i: a.fn(*[x // reps if k_ == axis else x for k_, x in enumerate(i)]), a.dtype)


def expand_dims(a, axis):
    a = as_array(a)
    if axis < 0:
        axis += a.ndim + 1
    return SArr(a.shape[:axis] + (1,) + a.shape[axis:], lambda *i: a.fn(*i[:axis], *i[axis + 1:]), a.dtype)


def squeeze(a, axis=None):
    a = as_array(a)

    def unit(d):
        return A.is1(d) or not isinstance(d, (int, A.Prod)) and ctx().branch(lift(core.eq(d, 1)))
    if axis is None:
        ax = [k for k, d in enumerate(a.shape) if unit(d)]
    else:
        ax = [x + a.ndim if x < 0 else x for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        if not all(unit(a.shape[k]) for k in ax):
            raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    keep = [k for k in range(a.ndim) if k not in ax]
    r = SArr([a.shape[k] for k in keep],
             lambda *i: a.fn(*[0 if k in ax else i[keep.index(k)] for k in range(a.ndim)]), a.dtype)
    return r if r.ndim else r.fn()


def swapaxes(a, x, y):
    a = as_array(a)
    p = list(range(a.ndim))
    p[x], p[y] = p[y], p[x]
    return a.transpose(p)


def moveaxis(a, s, d):
    a = as_array(a)
    s, d = s % a.ndim, d % a.ndim
    p = [k for k in range(a.ndim) if k != s]
    p.insert(d, s)
    return a.transpose(p)


def flip(a, axis=None):
    a = as_array(a)
    ax = range(a.ndim) if axis is None else [x % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
    return SArr(a.shape, lambda *i: a.fn(*[a.shape[k] - 1 - x if k in ax else x for k, x in enumerate(i)]), a.dtype)


def dynamic_slice(operand, start_indices, slice_sizes, **k):
    """lax: the start is moved so that the slice lies inside."""
    a = as_array(operand)
    if isinstance(start_indices, SArr):
        start_indices = [start_indices[j] for j in range(a.ndim)]
    starts, sizes = [A.scalar_index(x) for x in start_indices], list(slice_sizes)
    if len(starts) != a.ndim or len(sizes) != a.ndim:
        raise TypeError("dynamic_slice: one start and one size per dimension are needed")
    st = []
    for s, n, d in zip(starts, sizes, a.shape):
        if isinstance(d, A.Prod):
            unsup("dynamic_slice of a flattened dimension")
        if kind_of(s) != "i":
            raise TypeError("dynamic_slice: the start must be an integer")
        inside = n <= d
        if inside is not True and not (isinstance(inside, S) and ctx().check(inside)):
            if not ctx().branch(core.tbool(inside)):
                raise TypeError("dynamic_slice: the slice is larger than the array")
        lt = s < 0
        if not (isinstance(s, int) or ctx().check(s >= 0)):
            s = if_(lt, s + d, s)  # as an index: counted from the end, then clamped
            s = if_(s < 0, 0, s)
        elif isinstance(s, int) and s < 0:
            s = s + d
            s = if_(s < 0, 0, s) if isinstance(s, S) else max(s, 0)
        top = d - n
        over = s > top
        st.append((s if not over else top) if isinstance(over, bool) else s if ctx().check(not_(over)) else if_(over, top, s))
    return SArr(tuple(sizes), lambda *i: a.fn(*[x if isinstance(s, int) and s == 0 else s + x for s, x in zip(st, i)]), a.dtype)


def dynamic_slice_in_dim(operand, start_index, slice_size, axis=0):
    a = as_array(operand)
    ax = axis % a.ndim
    return dynamic_slice(a, [start_index if k == ax else 0 for k in range(a.ndim)], [slice_size if k == ax else d for k, d in enumerate(a.shape)])


def dynamic_index_in_dim(operand, index, axis=0, keepdims=True):
    a = as_array(operand)
    r = dynamic_slice_in_dim(a, index, 1, axis)
    return r if keepdims else squeeze(r, axis % a.ndim)


def broadcast_to(a, shape):
    a = as_array(a)
    sh = shape_of(shape)
    off = len(sh) - a.ndim
    return SArr(sh, lambda *i: a.fn(*[0 if A.is1(d) else i[off + k] for k, d in enumerate(a.shape)]), a.dtype)


def transpose(a, axes=None):
    a = as_array(a)
    return a.T if axes is None else a.transpose(*axes)


def reshape_fn(a, shape=None, *r, **k):
    if shape is None:
        shape = k.get("newshape")
    if isinstance(a, KeyArr):
        return a.reshape(*shape_of(shape))
    return A.reshape(as_array(a), shape)


def jnp_sum(a, axis=None, **k):
    a = as_array(a)
    if "sum" in a.meta:
        return a.meta["sum"]
    if axis is None and all(isinstance(d, int) for d in a.shape):
        import itertools
        r = 0
        for i in itertools.product(*[range(d) for d in a.shape]):
            r = r + a.fn(*i)
        return r
    if isinstance(axis, int) and isinstance(a.shape[axis], int):
        ax = axis % a.ndim

        def fn(*i):
            r = 0
            for k_ in range(a.shape[ax]):
                r = r + a.fn(*i[:ax], k_, *i[ax:])
            return r
        res = SArr(a.shape[:ax] + a.shape[ax + 1:], fn, a.dtype)
        return res if res.ndim else res.fn()
    unsup("sum over a symbolic dimension")


def isclose(a, b, **k):
    unsup("isclose")


def take(a, i, axis=None, **k):
    if axis is None:
        return getitem(A.reshape(as_array(a), (-1,)), i)
    return getitem(as_array(a), (slice(None),) * (axis % as_array(a).ndim) + (i,))


class NDArray:
    """Marker for isinstance(x, jnp.ndarray)."""
    __dv_array_type__ = True

    def __init__(self, *a, **k):
        unsup("ndarray constructor")


class Marker:
    pass


class floating(Marker):
    pass


class integer(Marker):
    pass


def caster(kind):
    def f(x=0, *a):
        if isinstance(x, SArr):
            return x.astype(kind)
        return cast(x, kind)
    f.kind = {"float": "f", "int": "i", "bool": "b"}[kind]
    f.__name__ = kind
    return f


float32, float64, int32, int64, bool_, uint8 = (caster("float"), caster("float"), caster("int"), caster("int"),
                                               caster("bool"), caster("int"))


def all_(a, axis=None, **k):
    a = as_array(a)
    if "all" in a.meta:
        return a.meta["all"]
    idx = A.fresh_idx(a.shape, "q", bounded=False)
    flat = [x for i in idx for x in (i if isinstance(i, tuple) else (i,))]
    rng = in_shape(idx, a.shape)
    with scope(*flat):
        ctx().assume(rng)
        p = core.tbool(a.fn(*idx))
    if p is True:
        return True
    r = core.tbool(rng)
    body = z3.Implies(r if r is not True else z3.BoolVal(True), p if p is not False else z3.BoolVal(False))
    return SBool(z3.ForAll([x.t for x in flat], body)) if flat else wrap(p)


def any_(a, axis=None, **k):
    r = all_(ew(not_, as_array(a), kind="b"))
    return not_(r)


def extreme(a, what):
    """The maximum (minimum) of an array: reached by an element, and no element beyond it.  An empty array has none."""
    c = ctx()
    ne = and_(*[d > 0 for d in A.flat_atoms(a.shape)])
    if not bool(ne if isinstance(ne, (bool, S)) else wrap(core.tbool(ne))):
        raise ValueError(f"zero-size array to reduction operation {what} which has no identity")
    if c.generic:
        unsup(f"{what} of an array in a generic iteration")
    reached = A.fresh_idx(a.shape, what + "_at")
    e = a.fn(*reached)
    v = Int(c.fresh(what)) if isinstance(e, SInt) else Real(c.fresh(what))
    c.assume(eq(v, e))
    if "extreme_of" in c.ghost and c.ghost["extreme_of"](a, what, v, reached):
        return v  # the harness gave the instances of the bound it needs
    idx = A.fresh_idx(a.shape, "q", bounded=False)
    flat = [x for i in idx for x in (i if isinstance(i, tuple) else (i,))]
    rng = in_shape(idx, a.shape)
    with scope(*flat):
        c.assume(rng)
        p = core.tbool(a.fn(*idx) <= v if what == "max" else a.fn(*idx) >= v)
    r = core.tbool(rng)
    if flat:
        c.assume(SBool(z3.ForAll([x.t for x in flat], z3.Implies(r if r is not True else z3.BoolVal(True), p if not isinstance(p, bool) else z3.BoolVal(p)))))
    return v


def isin(a, elements, **k):
    if isinstance(elements, SArr):
        unsup("isin of an array")
    es = list(elements) if isinstance(elements, (list, tuple, set)) else [elements]
    return ew(lambda x: or_(*[eq(x, v) for v in es]), as_array(a), kind="b")


# ---------------------------------------------------------------- counting
def histogram(x, bins=10, range=None, **k):
    """counts[k] = number of elements in bin k (the last bin is closed): known by its range and total."""
    x = as_array(x)
    if not isinstance(bins, SArr):
        unsup("histogram with a number of bins")
    n = bins.shape[0] - 1
    c = ctx()
    f = z3.Function(c.fresh("hist"), z3.IntSort(), z3.IntSort())
    c.axiom(f, lambda t: [t >= 0])
    r = SArr((n,), lambda i: wrap(f(lift(i))), "i")
    r.meta["hist"] = (x, bins)
    c.ghost.setdefault("hists", []).append((f, x, bins))
    return r, bins


def size_of(x):
    r = 1
    for d in x.shape:
        r = r * (d.size() if isinstance(d, A.Prod) else d)
    return r


def cumsum(a, axis=None, dtype=None, **k):
    """r[0] = a[0], r[i] = r[i-1] + a[i]; monotone when a has no negative element."""
    a = as_array(a)
    if a.ndim != 1 or axis not in (None, 0, -1):
        unsup("cumsum of a multi-dimensional array")
    c = ctx()
    n = a.shape[0]
    sort = z3.RealSort() if a.dtype.kind == "f" or dtype_kind(dtype) == "f" else z3.IntSort()
    f = z3.Function(c.fresh("cumsum"), z3.IntSort(), sort)

    def el(i):
        t = num(lift(a.fn(i)))
        return z3.ToReal(t) if z3.is_int(t) and sort == z3.RealSort() else t
    c.add(f(0) == el(0))
    i, j = z3.Int("ci"), z3.Int("cj")
    q = fresh_int("q")
    with scope(q):
        c.assume(and_(q >= 0, q < n))
        e = lift(a.fn(q))
        c.instantiate(e)
        nonneg = c.check(wrap(e >= 0))
        pos = c.check(wrap(e > 0))
    if nonneg:
        c.add(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < lift(n)), f(i) <= f(j)),
                        patterns=[z3.MultiPattern(f(i), f(j))]))
        c.add(f(0) >= 0)
    h = a.meta.get("hist")
    if h is not None:
        x, bins = h
        idx = A.fresh_idx(x.shape, "h", bounded=False)
        flat = [v for w in idx for v in (w if isinstance(w, tuple) else (w,))]
        with scope(*flat):
            c.assume(in_shape(idx, x.shape))
            v = x.fn(*idx)
            ok = c.check(and_(v >= bins.fn(0), v <= bins.fn(bins.shape[0] - 1)))
        if ok:
            # every element falls into a bin
            tot = lift(size_of(x))
            c.add(f(lift(n) - 1) == (z3.ToReal(tot) if sort == z3.RealSort() else tot))
    elif "total" in a.meta:
        c.add(f(lift(n) - 1) == to_real(lift(a.meta["total"])))
    r = SArr((n,), lambda i: wrap(f(lift(i))), "f" if sort == z3.RealSort() else "i")
    c.ghost.setdefault("cumsums", []).append((f, a))
    return r


def digitize(x, bins, right=False, **k):
    """d with bins[d-1] <= x < bins[d] (increasing bins)."""
    if right:
        unsup("digitize right")
    c = ctx()
    n = bins.shape[0]
    f = z3.Function(c.fresh("digitize"), z3.RealSort(), z3.IntSort())

    def ax(t):
        d = wrap(t)
        v = wrap(t.arg(0))
        return [and_(d >= 0, d <= n), implies(d > 0, bins.fn(d - 1) <= v), implies(d < n, v < bins.fn(d))]
    c.axiom(f, lambda t: [lift(b) if not isinstance(b, bool) else z3.BoolVal(b) for b in ax(t)])
    return ew(lambda v: wrap(f(to_real(lift(v)))), vec(x), kind="i")


def searchsorted(a, v, side="left", **k):
    """Number of elements of the sorted array a that are < v (left), or <= v (right)."""
    a = as_array(a)
    if a.ndim != 1 or side not in ("left", "right"):
        unsup("searchsorted")
    c = ctx()
    n = a.shape[0]
    f = z3.Function(c.fresh("searchsorted"), z3.RealSort(), z3.IntSort())
    j = z3.Int("sj")

    def ax(t):
        x = t.arg(0)
        e = to_real(lift(a.fn(SInt(j))))
        below = e < x if side == "left" else e <= x
        return [t >= 0, t <= lift(n), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < t), below)),
                z3.ForAll([j], z3.Implies(z3.And(j >= t, j < lift(n)), z3.Not(below)))]
    c.axiom(f, ax)
    return ew(lambda x: wrap(f(to_real(lift(x)))), vec(v), kind="i")


def array_ops():
    d = dict(
        histogram=histogram, cumsum=cumsum, digitize=digitize, searchsorted=searchsorted,
        ndarray=NDArray, array=array, asarray=array, arange=arange, indices=indices, meshgrid=meshgrid,
        linspace=linspace, zeros=zeros, ones=ones, full=full, zeros_like=zeros_like, ones_like=ones_like,
        full_like=full_like, empty=zeros, stack=lambda xs, axis=0, **k: stack(xs if isinstance(xs, SymSeq) else
                                                               (xs.seq if isinstance(xs, SList) else list(xs)), axis),
        concatenate=concatenate, pad=pad, tile=tile, repeat=repeat, expand_dims=expand_dims, squeeze=squeeze,
        swapaxes=swapaxes, moveaxis=moveaxis, flip=flip, broadcast_to=broadcast_to, transpose=transpose,
        reshape=reshape_fn, ravel=lambda a: A.reshape(as_array(a), (-1,)), sum=jnp_sum, isclose=isclose, take=take,
        clip=jnp_clip, where=where, all=all_, any=any_, isin=isin, max=lambda a, axis=None, **k: as_array(a).max(axis), min=lambda a, axis=None, **k: as_array(a).min(axis),
        amax=lambda a, axis=None, **k: as_array(a).max(axis), amin=lambda a, axis=None, **k: as_array(a).min(axis),
        floor=elementwise(floor1, "f"), ceil=elementwise(ceil1, "f"), sqrt=elementwise(sqrt1, "f"),
        exp=elementwise(exp1, "f"), sin=elementwise(sin1, "f"), cos=elementwise(cos1, "f"),
        maximum=elementwise(maximum1), minimum=elementwise(minimum1),
        abs=elementwise(abs), absolute=elementwise(abs), negative=elementwise(lambda a: -a),
        add=elementwise(lambda a, b: num_(a) + b), subtract=elementwise(lambda a, b: num_(a) - b),
        multiply=elementwise(lambda a, b: num_(a) * b), divide=elementwise(A.div, "f"),
        true_divide=elementwise(A.div, "f"),
        floor_divide=elementwise(lambda a, b: a // b), mod=elementwise(lambda a, b: a % b),
        remainder=elementwise(lambda a, b: a % b), square=elementwise(lambda a: a * a),
        power=elementwise(lambda a, b: a ** b), sign=elementwise(lambda a: if_(a > 0, 1, if_(a < 0, -1, 0))),
        logical_and=elementwise(and_, "b"), logical_or=elementwise(or_, "b"), logical_not=elementwise(not_, "b"),
        less=elementwise(lambda a, b: a < b, "b"), less_equal=elementwise(lambda a, b: a <= b, "b"),
        greater=elementwise(lambda a, b: a > b, "b"), greater_equal=elementwise(lambda a, b: a >= b, "b"),
        equal=elementwise(eq, "b"), not_equal=elementwise(lambda a, b: not_(eq(a, b)), "b"),
        float32=float32, float64=float64, int32=int32, int64=int64, uint8=uint8, bool_=bool_, bool=bool_,
        floating=floating, integer=integer, newaxis=None, pi=3.141592653589793, inf=float("inf"),
        shape=lambda a: as_array(a).shape, ndim=lambda a: as_array(a).ndim,
        atleast_1d=lambda a: A.reshape(as_array(a), (1,)) if as_array(a).ndim == 0 else a,
        vstack=lambda xs: concatenate(xs, 0), hstack=lambda xs: concatenate(xs, 0 if as_array(xs[0]).ndim == 1 else 1),
    )
    return d


# ---------------------------------------------------------------- random keys
Key = z3.Datatype("Key")
Key.declare("Root", ("seed", z3.IntSort()))
Key.declare("Child", ("parent", Key), ("num", z3.IntSort()))
Key = Key.create()


class KeyArr:
    """Array of PRNG keys, of shape dims + (2,)."""
    __dv_array__ = True
    __hash__ = object.__hash__

    def __init__(self, dims, fn):
        self.dims, self.fn = tuple(dims), fn

    @property
    def shape(self):
        return self.dims + (2,)

    @property
    def ndim(self):
        return len(self.dims) + 1

    @property
    def key(self):
        if self.dims != ():
            if all(A.is1(d) for d in self.dims):
                unsup("an array of keys used as a key")  # jax raises
            unsup("an array of keys used as a key")
        return self.fn()

    def __dv_len__(self):
        return self.shape[0]

    def __iter__(self):
        if not self.dims or not isinstance(self.dims[0], int):
            unsup("iteration over keys")
        return iter([self[i] for i in range(self.dims[0])])

    def __dv_seq__(self):
        if self.dims and isinstance(self.dims[0], int):
            return list(self)
        return SymSeq(self.dims[0], lambda i: self[i])

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, tuple):
            r = self
            a = SArr(self.dims, lambda *i: 0)
            sub = A.getitem(SArr(self.dims, lambda *i: SObj(self.fn(*i)), "f"), k[:len(self.dims)])
            if isinstance(sub, SArr):
                return KeyArr(sub.shape, lambda *i: sub.fn(*i).t)
            return KeyArr((), lambda: sub.t)
        if not self.dims:
            unsup("indexing into a key")
        if isinstance(k, slice):
            st, ln, step = A.slice_range(k, self.dims[0])
            return KeyArr((ln,) + self.dims[1:], lambda i, *r: self.fn(i if isinstance(st, int) and st == 0 and step == 1 else st + i * step, *r))
        n = self.dims[0]
        if isinstance(k, int) and isinstance(n, int) and not -n <= k < n:
            raise IndexError("key index out of range")
        k = A.norm_index(k, n)
        return KeyArr(self.dims[1:], lambda *r: self.fn(k, *r))

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if not (len(shape) >= 1 and same(shape[-1], 2)):
            if len(shape) == 1 and isinstance(shape[0], int) and shape[0] == -1 and not self.dims:
                return self
            unsup("reshape of keys")
        a = A.reshape(SArr(self.dims, lambda *i: SObj(self.fn(*i))), shape[:-1]) if shape[:-1] != () else None
        if a is None:
            if any(not A.is1(d) for d in self.dims):
                unsup("reshape of keys")
            return KeyArr((), lambda: self.fn(*[0] * len(self.dims)))
        return KeyArr(a.shape, lambda *i: a.fn(*i).t)

    def __dv_subst__(self, pairs):
        return KeyArr(tuple(A.subst_obj(d, pairs) for d in self.dims),
                      lambda *i: z3.substitute(self.fn(*i), *pairs))

    def block_until_ready(self):
        return self

    def __eq__(self, o):
        unsup("comparison of keys")


def root(seed):
    return KeyArr((), lambda: Key.Root(lift(seed)))


def PRNGKey(seed, **k):
    return root(seed)


def split(key, num=2, **k):
    p = key_of(key)
    n = num if not isinstance(num, (tuple, list)) else num[0]
    return KeyArr((n,), lambda i: Key.Child(p, lift(i)))


def fold_in(key, data):
    return KeyArr((), lambda p=key_of(key), d=lift(data): Key.Child(p, d))


def key_of(key):
    if not isinstance(key, KeyArr):
        unsup(f"not a key: {type(key)}")
    return key.key


def draw(kind, key, shape, sort, axiom):
    """Elements of a random draw: an uninterpreted function of (key, shape, index)."""
    c = ctx()
    k = key_of(key)
    sh = shape_of(shape)
    c.ghost.setdefault("draws", []).append((kind, k, sh, set(c.generic)))
    flatn = [x for d in sh for x in (d.dims if isinstance(d, A.Prod) else (d,))]
    # (the shape is part of what a draw depends on: one function per shape)
    dims = []
    if any(mentions(d.t, c.generic) for d in flatn if isinstance(d, S)):
        dims, cls = [lift(d) for d in flatn], "g"
    else:
        reg = c.ghost.setdefault("draw_shapes", [])
        cls = next((k for k, e in enumerate(reg) if len(e) == len(flatn) and all(A.dim_eq(x, y) for x, y in zip(e, flatn))), None)
        if cls is None:
            cls = len(reg)
            reg.append(list(flatn))
    f = z3.Function(f"{kind}{len(flatn)}_{cls}", Key, *([z3.IntSort()] * (len(dims) + len(flatn))), sort)
    if axiom is not None and f.name() not in c.axioms:
        c.axiom(f, axiom)

    def fn(*i):
        ii = [lift(x) for j in i for x in (j if isinstance(j, tuple) else (j,))]
        return wrap(f(k, *dims, *ii))
    return sh, fn


def U01(t):
    return [t >= 0, t < 1]


def dtype_ok(d):
    return d is None or dtype_kind(d) == "f"


def result(sh, fn, kind):
    return SArr(sh, fn, kind) if sh != () else fn()


def uniform(key, shape=(), dtype=None, minval=0.0, maxval=1.0):
    sh, fn = draw("uniform", key, shape, z3.RealSort(), U01)
    lo, hi = minval, maxval
    if isinstance(lo, (int, float)) and lo == 0 and isinstance(hi, (int, float)) and hi == 1:
        return result(sh, fn, "f")
    if isinstance(lo, SArr) or isinstance(hi, SArr):
        return lo + result(sh, fn, "f") * (hi - lo)
    # jax: max(minval, u * (maxval - minval) + minval)
    return result(sh, lambda *i: maximum1(cast(lo, "float"), fn(*i) * (hi - lo) + lo), "f")


def normal(key, shape=(), dtype=None):
    sh, fn = draw("normal", key, shape, z3.RealSort(), None)
    return result(sh, fn, "f")


def bernoulli(key, p=0.5, shape=None, **k):
    if shape is None:
        shape = p.shape if isinstance(p, SArr) else ()
    sh, fn = draw("uniform", key, shape, z3.RealSort(), U01)
    return ew(lambda u, q: u < q, result(sh, fn, "f"), vec(p), kind="b")


def randint(key, shape, minval, maxval, dtype=None):
    c = ctx()
    sh, fn = draw("bits", key, shape, z3.RealSort(), U01)
    # uniform over [minval, maxval): index = minval + floor(u * span), u uniform in [0, 1)
    span = maxval - minval
    c.ghost.setdefault("ranges", []).append((minval, maxval))

    def g(*i):
        t = wrap(z3.ToInt(lift(fn(*i) * span)))
        v = minval + t
        if isinstance(v, S):
            ctx().assume(implies(span > 0, and_(v >= minval, v < maxval)))
        return v
    return result(sh, g, "i")


PERM = z3.Function("perm", Key, z3.IntSort(), z3.IntSort(), z3.IntSort())
PINV = z3.Function("perm_inv", Key, z3.IntSort(), z3.IntSort(), z3.IntSort())


def perm_ax(t):
    k, n, i = t.arg(0), t.arg(1), t.arg(2)
    if z3.is_app(i) and i.decl().eq(PINV):
        return []
    return [z3.Implies(z3.And(i >= 0, i < n), z3.And(t >= 0, t < n, PINV(k, n, t) == i))]


def pinv_ax(t):
    k, n, i = t.arg(0), t.arg(1), t.arg(2)
    if z3.is_app(i) and i.decl().eq(PERM):
        return []
    return [z3.Implies(z3.And(i >= 0, i < n), z3.And(t >= 0, t < n, PERM(k, n, t) == i))]


def permutation(key, x, axis=0, independent=False):
    c = ctx()
    k = key_of(key)
    if kind_of(x) is not None and not isinstance(x, SArr):
        x = arange(x)
    x = as_array(x)
    n = x.shape[0]
    c.ghost.setdefault("draws", []).append(("permutation", k, (n,), set(c.generic)))
    if "perm" not in c.axioms:
        c.axiom(PERM, perm_ax)
        c.axiom(PINV, pinv_ax)
    return SArr(x.shape, lambda i, *r: x.fn(wrap(PERM(k, lift(n), lift(i))), *r), x.dtype)


def choice(key, a, shape=(), replace=True, p=None, axis=0):
    if p is not None:
        unsup("choice with probabilities")
    if not isinstance(a, SArr):
        a = arange(a)
    n = a.shape[0]
    c = ctx()
    if not replace:
        k = key_of(key)
        c.ghost.setdefault("draws", []).append(("permutation", k, (n,), set(c.generic)))
        if "perm" not in c.axioms:
            c.axiom(PERM, perm_ax)
            c.axiom(PINV, pinv_ax)
        if wrap(core.tbool(shape_of(shape)[0] > n)) if isinstance(shape_of(shape)[0] > n, S) else shape_of(shape)[0] > n:
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        return SArr(shape_of(shape), lambda i: a.fn(wrap(PERM(k, lift(n), lift(i)))), a.dtype)
    r = randint(key, shape, 0, n)
    return ew(lambda i: a.fn(i), r, kind=a.dtype.kind)


# ---------------------------------------------------------------- transformations
def tree_map2(f, *ts):
    t = ts[0]
    if isinstance(t, tuple) and hasattr(t, "_fields"):
        return type(t)(*[tree_map2(f, *x) for x in zip(*ts)])
    if isinstance(t, (tuple, list)):
        return type(t)(tree_map2(f, *x) for x in zip(*ts))
    if isinstance(t, dict):
        return {k: tree_map2(f, *[x[k] for x in ts]) for k in t}
    if t is None:
        return None
    if hasattr(t, "tree_flatten") and not isinstance(t, (SArr, KeyArr)):
        ch = [x.tree_flatten()[0] for x in ts]
        return type(t).tree_unflatten(t.tree_flatten()[1], [tree_map2(f, *c) for c in zip(*ch)])
    return f(*ts)


def leaf_slice(x, i):
    if isinstance(x, KeyArr):
        return x[i]
    x = as_array(x)
    if x.ndim == 0:
        raise ValueError("vmap was requested to map its argument along axis 0, which implies rank >= 1")
    r = SArr(x.shape[1:], lambda *r: x.fn(i, *r), x.dtype)
    return r if r.ndim else r.fn()


def leaf_dim(t):
    out = []

    def see(x):
        if isinstance(x, KeyArr):
            out.append(x.dims[0])
        elif isinstance(x, SArr):
            if x.ndim:
                out.append(x.shape[0])
    tree_map2(see, t)
    return out


class Map:
    """Result of mapping a function over a leading index: `const` stands for the index."""

    def __init__(self, const, n, bounds):
        self.const, self.n, self.bounds = const, n, bounds

    def leaf(self, v):
        i, n = self.const, self.n
        flat = [x for x in (i if isinstance(i, tuple) else (i,))]

        def at(j):
            js = j if isinstance(j, tuple) else (j,)
            return [(a.t, lift(b)) for a, b in zip(flat, js)]
        if isinstance(v, A.Scatter):
            unsup("scatter inside a mapped function")
        if isinstance(v, KeyArr):
            return KeyArr((n,) + v.dims, lambda j, *r: z3.substitute(v.fn(*r), *at(j)))
        if isinstance(v, SArr):
            def fn(j, *r):
                with scope(*flat):
                    ctx().assume(self.bounds)
                    e = v.fn(*r)
                return A.subst_obj(e, at(j))
            return SArr((n,) + v.shape, fn, v.dtype)
        if lift(v) is not None:
            return SArr((n,), lambda j: A.subst_obj(v, at(j)) if isinstance(v, S) else v, kind_of(v))
        if hasattr(v, "__dv_map__"):
            return v.__dv_map__(self)
        unsup(f"mapped function returns {type(v)}")


def fresh_const(n):
    if isinstance(n, A.Prod):
        return tuple(SInt(z3.Int(ctx().fresh("v"))) for _ in n.dims)
    return SInt(z3.Int(ctx().fresh("v")))


def run_mapped(n, body):
    """body(i) for a generic i in [0, n); returns (result, Map)."""
    i = fresh_const(n)
    flat = list(i) if isinstance(i, tuple) else [i]
    dims = n.dims if isinstance(n, A.Prod) else (n,)
    bounds = and_(*[and_(a >= 0, a < d) for a, d in zip(flat, dims)])
    c = ctx()
    with scope(*flat):
        c.assume(bounds)
        c.traced += 1
        c.ghost.setdefault("generic_dims", {}).update({a.t.get_id(): (a, d) for a, d in zip(flat, dims)})
        r = body(i)
        c.traced -= 1
    return r, Map(i, n, bounds)


def vmap(f, in_axes=0, out_axes=0, **k):
    if out_axes != 0 and not isinstance(out_axes, int):
        unsup("vmap out_axes")

    def first(x, a):
        """The mapped axis brought to the front."""
        if not isinstance(a, int) or a == 0:
            return x
        if not isinstance(x, SArr):
            unsup("vmap axis")
        return moveaxis(x, a, 0)

    def last(x):
        if not isinstance(x, SArr):
            unsup("vmap out_axes")
        return moveaxis(x, 0, out_axes)

    def g(*args):
        ax = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
        if len(ax) != len(args):
            raise ValueError("vmap in_axes must match the arguments")
        for a in ax:
            if not (a is None or isinstance(a, int)):
                unsup("vmap axis")
        args = [first(x, a) for x, a in zip(args, ax)]
        ax = [0 if isinstance(a, int) else a for a in ax]
        ds = [d for x, a in zip(args, ax) if a == 0 for d in leaf_dim(x)]
        if not ds:
            raise ValueError("vmap must have at least one mapped argument")
        n = ds[0]
        for d in ds[1:]:
            if not A.dim_eq(n, d):
                ctx().prove(eq(n, d), "vmap: mapped sizes agree")
        r, m = run_mapped(n, lambda i: f(*[tree_map2(lambda y: leaf_slice(y, i), x) if a == 0 else x
                                           for x, a in zip(args, ax)]))
        r = tree_map2(m.leaf, r)
        return r if out_axes == 0 else tree_map2(last, r)
    return g


def identical(a, b):
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        return all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, KeyArr) and isinstance(b, KeyArr) and a.dims == b.dims == ():
        return a.key.eq(b.key)
    if isinstance(a, S) and isinstance(b, S):
        return a.t.eq(b.t)
    if a is None and b is None:
        return True
    return False


def scan(f, init, xs=None, length=None, **k):
    ds = leaf_dim(xs) if xs is not None else []
    n = ds[0] if ds else length
    for d in ds[1:]:
        if not A.dim_eq(n, d):
            ctx().prove(eq(n, d), "scan: sizes agree")
    out = {}

    def body(i):
        x = tree_map2(lambda y: leaf_slice(y, i), xs) if xs is not None else None
        carry, y = f(init, x)
        if not identical(carry, init):
            unsup("scan with a changing carry")
        return y
    r, m = run_mapped(n, body)
    return init, tree_map2(m.leaf, r)


def lax_map(f, xs, **k):
    return vmap(f)(xs)


def fori_loop(lo, hi, body, init, **k):
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 16:
        v = init
        for i in range(lo, hi):
            v = body(i, v)
        return v
    if not (isinstance(lo, int) and lo == 0):
        unsup("fori_loop lower bound")
    c = ctx()
    dims = (hi,)
    if isinstance(hi, S) and hi.meta and "factors" in hi.meta and len(hi.meta["factors"]) == 2:
        dims = tuple(hi.meta["factors"])
    if not isinstance(init, SArr):
        unsup("fori_loop carry")
    consts = [SInt(z3.Int(c.fresh("v"))) for _ in dims]
    base = A.Scatter(init, []) if not isinstance(init, A.Scatter) else init
    n0 = len(base.deposits)
    with scope(*consts):
        for a, d in zip(consts, dims):
            c.assume(and_(a >= 0, a < d))
        if len(dims) == 2:
            i = SInt((consts[0] * dims[1] + consts[1]).t, {"flat": (dims, tuple(consts))})
        else:
            i = consts[0]
        c.traced += 1
        reads = base.uf
        r = body(i, base)
        c.traced -= 1
    if not isinstance(r, A.Scatter) or r.base is not base.base or r.deposits[:n0] != base.deposits[:n0] or base.uf is not reads:
        unsup("fori_loop body is not an accumulation")
    new = [A.Deposit(consts + d.over, list(dims) + list(d.bounds), d.guard, d.idx, d.value) for d in r.deposits[n0:]]
    return A.Scatter(base.base, base.deposits + new)


def cond(pred, tf, ff, *ops, operand=None, **k):
    args = ops if ops else (operand,)
    p = core.tbool(pred if not isinstance(pred, SArr) else pred.fn())
    if p is True:
        return tf(*args)
    if p is False:
        return ff(*args)
    a, b = tf(*args), ff(*args)
    return tree_map2(lambda x, y: select(SBool(p), x, y), a, b)


def select(p, x, y):
    if isinstance(x, A.Scatter) or isinstance(y, A.Scatter):
        if not (isinstance(x, A.Scatter) and isinstance(y, A.Scatter) and x.base is y.base):
            unsup("conditional scatter")
        k = 0
        while k < min(len(x.deposits), len(y.deposits)) and x.deposits[k] is y.deposits[k]:
            k += 1
        ds = x.deposits[:k]
        ds = ds + [A.Deposit(d.over, d.bounds, and_(p, d.guard), d.idx, d.value) for d in x.deposits[k:]]
        ds = ds + [A.Deposit(d.over, d.bounds, and_(not_(p), d.guard), d.idx, d.value) for d in y.deposits[k:]]
        return A.Scatter(x.base, ds)
    if isinstance(x, SArr) or isinstance(y, SArr):
        return where(p, x, y)
    return if_(p, x, y)


def lax_select(p, x, y):
    return where(p, x, y)


def jit(f=None, **k):
    if f is None:
        return lambda g: g
    return f


# ---------------------------------------------------------------- devices
class Mesh:
    def __init__(self, devices, axis_names=()):
        self.devices, self.axis_names = devices, axis_names


class PartitionSpec(tuple):
    def __new__(cls, *a):
        return tuple.__new__(cls, a)


class NamedSharding:
    def __init__(self, mesh, spec):
        self.mesh, self.spec = mesh, spec


class Sharding:
    pass


def ndev_of(mesh):
    d = mesh.devices
    if hasattr(d, "__dv_len__"):
        return d.__dv_len__()
    return len(d)


def spec_sharded(spec, mesh):
    spec = tuple(spec)
    if any(s is not None for s in spec[1:]):
        unsup("sharding of other dimensions")
    if not spec or spec[0] is None:
        return False
    if spec[0] not in mesh.axis_names:
        raise ValueError(f"Resource axis: {spec[0]} is not found in mesh")
    return True


def shard_local(x, d, n):
    """Local part of a global array on device d of n."""
    dims = x.dims if isinstance(x, KeyArr) else x.shape
    D = dims[0]
    if isinstance(D, A.Prod) and same(D.dims[0], n):
        rest = mkprod(D.dims[1:])
        rt = not isinstance(rest, A.Prod)
        if A.is1(rest):
            g = lambda i, *r: x.fn((d,), *r)
        else:
            g = lambda i, *r: x.fn((d,) + (i if isinstance(i, tuple) else (i,)), *r)
        loc = rest
    else:
        if same(D, n):
            loc = 1
            g = lambda i, *r: x.fn(d, *r)
        elif isinstance(D, int) and isinstance(n, int):
            if D % n:
                raise ValueError("sharded dimension not divisible by the number of devices")
            loc = D // n
            g = lambda i, *r: x.fn(d * loc + i, *r)
        elif isinstance(n, int) and n == 1:
            loc = D
            g = lambda i, *r: x.fn(i, *r)
        elif isinstance(D, S) and D.meta and len(D.meta.get("factors", ())) == 2 and any(same(x, n) for x in D.meta["factors"]):
            fs = D.meta["factors"]
            loc = fs[0] if same(fs[1], n) else fs[1]
            g = lambda i, *r: x.fn(d * loc + i, *r)
        else:
            D_ = D.size() if isinstance(D, A.Prod) else D
            q, r_ = int_divmod(D_, n)
            if wrap(core.tbool(r_ != 0)) if isinstance(r_, S) else r_ != 0:
                raise ValueError("sharded dimension not divisible by the number of devices")
            loc = q
            g = lambda i, *r: x.fn(d * q + i, *r)
    if isinstance(x, KeyArr):
        return KeyArr((loc,) + dims[1:], g)
    r = SArr((loc,) + tuple(dims[1:]), g, x.dtype)
    r.meta = dict(x.meta)
    return r


def shard_map(f=None, *, mesh=None, in_specs=None, out_specs=None, **k):
    if f is None:
        return lambda g: shard_map(g, mesh=mesh, in_specs=in_specs, out_specs=out_specs)

    def g(*args):
        n = ndev_of(mesh)
        ctx().ghost.setdefault("meshes", []).append(mesh)
        specs = in_specs
        if isinstance(specs, PartitionSpec):
            specs = (specs,) * len(args)
        c = ctx()
        d = SInt(z3.Int(c.fresh("dev")))
        with scope(d):
            c.assume(and_(d >= 0, d < n))
            c.traced += 1
            c.ghost.setdefault("generic_dims", {})[d.t.get_id()] = (d, n)
            loc = [shard_local(x if isinstance(x, KeyArr) else as_array(x), d, n) if spec_sharded(s, mesh) else x
                   for x, s in zip(args, specs)]
            r = f(*loc)
            c.traced -= 1

        def out(v, s):
            if isinstance(v, KeyArr):
                unsup("keys out of shard_map")
            v = as_array(v)
            if not spec_sharded(s, mesh):
                unsup("replicated output")
            if v.ndim == 0:
                raise ValueError("rank-0 output cannot be sharded")

            def fn(j, *r_):
                js = j if isinstance(j, tuple) else None
                if js is None:
                    if isinstance(n, int) and n == 1:
                        js = (0, j)
                    elif A.is1(v.shape[0]):
                        js = (j, 0)
                    else:
                        js = int_divmod(j, v.shape[0])
                dd = js[0]
                rest = js[1:]
                if isinstance(v.shape[0], A.Prod):
                    i = tuple(rest)
                else:
                    i = rest[0] if rest else 0
                with scope(d):
                    c.assume(and_(d >= 0, d < n))
                    e = v.fn(i, *r_)
                return A.subst_obj(e, [(d.t, lift(dd))])
            res = SArr((mkprod((n, v.shape[0])),) + v.shape[1:], fn, v.dtype)
            res.meta = {k: A.subst_obj(m, []) for k, m in v.meta.items()}
            res.meta["sharded"] = (d, n, v)
            return res
        if isinstance(out_specs, PartitionSpec):
            return tree_map2(lambda v: out(v, out_specs), r)
        return type(r)(tree_map2(lambda v, _s=s: out(v, _s), x) for x, s in zip(r, out_specs))
    return g


def register(cls):
    return cls


class Device:
    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return f"dev{self.id}"


def devices(kind=None):
    c = ctx()
    if c is not None and "devices" in c.ghost and kind != "cpu":
        return c.ghost["devices"]
    return [Device(0)]


def device_put(x, *a, **k):
    return x


class NullLogger:
    def __getattr__(self, k):
        return lambda *a, **kw: None


def get_logger(*a, **k):
    return NullLogger()


def load_configuration(path):
    f = ctx().ghost.get("load_configuration")
    if f is None:
        unsup("load_configuration")
    return f(path)


class YAML:
    """ruamel.yaml: dump writes a text that reads back as the same data (its contract); the text is a token for the data."""

    def __init__(self, typ=None, pure=False, **k):
        self.typ = typ

    def dump(self, data, stream=None, **k):
        if self.typ != "safe" or stream is None or type(data) is not dict and not isinstance(data, seqs.DvDict):
            unsup("another way to write YAML")
        reg = ctx().ghost.setdefault("yaml_texts", {})
        text = f"<yaml document {len(reg)}>\n"
        reg[text] = dict(data)
        stream.write(text)

    def load(self, stream):
        unsup("YAML.load")


class Quiet:
    """Console output: no effect."""

    def __init__(self, *a, **k):
        pass

    def append(self, *a, **k):
        pass

    def print(self, *a, **k):
        pass


def base_shims():
    ops = array_ops()
    jnp = mod("jax.numpy", **ops)
    random = mod("jax.random", PRNGKey=PRNGKey, key=PRNGKey, split=split, fold_in=fold_in, uniform=uniform,
                 normal=normal, bernoulli=bernoulli, randint=randint, permutation=permutation, choice=choice)
    lax = mod("jax.lax", cond=cond, scan=scan, fori_loop=fori_loop, iota=iota, map=lax_map, select=lax_select,
              clamp=lambda lo, x, hi: jnp_clip(x, lo, hi), dynamic_slice=dynamic_slice,
              dynamic_slice_in_dim=dynamic_slice_in_dim, dynamic_index_in_dim=dynamic_index_in_dim)
    sharding = mod("jax.sharding", Mesh=Mesh, NamedSharding=NamedSharding, PartitionSpec=PartitionSpec,
                   Sharding=Sharding)
    tree_util = mod("jax.tree_util", register_pytree_node_class=register, tree_map=tree_map2)
    jax = mod("jax", numpy=jnp, random=random, lax=lax, sharding=sharding, tree_util=tree_util, vmap=vmap, jit=jit,
              shard_map=shard_map, devices=devices, device_put=device_put, Array=NDArray,
              tree=mod("jax.tree", map=tree_map2), local_devices=devices, device_count=lambda: A_len(devices()))
    from . import conc, files
    np_ops = dict(ops, load=files.wrap_fs("np_load"))
    np = mod("numpy", **np_ops)
    gg = mod("goggles", get_logger=get_logger, load_configuration=load_configuration)
    return {**files.shims(), "jax": jax, "jax.numpy": jnp, "jax.random": random, "jax.lax": lax, "jax.sharding": sharding,
            "jax.tree_util": tree_util, "numpy": np, "goggles": gg,
            **files.format_shims(),
            # sources of nondeterminism: any use is unsupported
            "random": mod("random"), "secrets": mod("secrets"), "uuid": mod("uuid"), **conc.shims(),
            "rich": mod("rich"), "rich.console": mod("rich.console", Console=Quiet),
            "rich.text": mod("rich.text", Text=Quiet), "ruamel": mod("ruamel", yaml=mod("ruamel.yaml", YAML=YAML)),
            "ruamel.yaml": mod("ruamel.yaml", YAML=YAML), "tqdm": mod("tqdm", tqdm=lambda x, **k: x)}


def A_len(x):
    return x.__dv_len__() if hasattr(x, "__dv_len__") else len(x)
