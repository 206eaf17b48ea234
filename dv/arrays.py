"""Symbolic arrays: a shape of (symbolic) dimensions and an index function.

A dimension is an int, an SInt, or a Prod of dimensions (a flattened group,
whose index is a tuple): reshapes that only group or ungroup dimensions are
exact without any nonlinear index arithmetic.
"""
import sys

import z3

from .core import *
from . import core


class Prod:
    """Flattened product of dimensions; its index is a tuple of indices."""

    def __init__(self, dims):
        out = []
        for d in dims:
            out.extend(d.dims if isinstance(d, Prod) else [d])
        self.dims = tuple(out)

    def size(self):
        r = 1
        for d in self.dims:
            r = r * d
        return r

    # arithmetic on a flattened size goes through the plain product
    def __mul__(self, o): return self.size() * o
    __rmul__ = __mul__
    def __add__(self, o): return self.size() + o
    __radd__ = __add__
    def __sub__(self, o): return self.size() - o
    def __rsub__(self, o): return o - self.size()
    def __truediv__(self, o): return self.size() / o
    def __rtruediv__(self, o): return o / self.size()
    def __eq__(self, o): return self.size() == (o.size() if isinstance(o, Prod) else o)
    def __lt__(self, o): return self.size() < o
    def __gt__(self, o): return self.size() > o
    def __dv_scalar__(self): return self.size()
    __hash__ = None


def mkprod(dims):
    dims = [d for d in Prod(dims).dims if not (isinstance(d, int) and d == 1)]
    if not dims:
        return 1
    if len(dims) == 1:
        return dims[0]
    return Prod(dims)


def dim_eq(a, b):
    if isinstance(a, Prod) or isinstance(b, Prod):
        if isinstance(a, Prod) and isinstance(b, Prod):
            return len(a.dims) == len(b.dims) and all(same(x, y) for x, y in zip(a.dims, b.dims))
        return False
    return same(a, b)


def is1(d):
    return isinstance(d, int) and d == 1


def fresh_idx(shape, base="i", bounded=True):
    """Fresh indices for a shape (with their bounds assumed)."""
    out = []
    for d in shape:
        if isinstance(d, Prod):
            out.append(tuple(fresh_int(base, 0, x) if bounded else fresh_int(base) for x in d.dims))
        else:
            out.append(fresh_int(base, 0, d) if bounded else fresh_int(base))
    return tuple(out)


def in_shape(idx, shape):
    bs = []
    for i, d in zip(idx, shape):
        if isinstance(d, Prod):
            for x, y in zip(i, d.dims):
                bs += [x >= 0, x < y] if not isinstance(x, int) or True else []
        else:
            bs += [i >= 0, i < d]
    return and_(*bs)


def subst_obj(o, pairs):
    """Substitute z3 constants inside any engine value."""
    if isinstance(o, S):
        t = z3.substitute(o.t, *pairs)
        r = wrap(t)
        if isinstance(r, S) and o.meta:
            r.meta = {k: subst_obj(v, pairs) for k, v in o.meta.items()}
        return r
    if isinstance(o, SArr):
        r = SArr(tuple(subst_obj(d, pairs) for d in o.shape),
                 lambda *idx, _f=o.fn: subst_obj(_f(*idx), pairs), o.dtype)
        r.meta = {k: subst_obj(v, pairs) for k, v in o.meta.items()}
        return r
    if isinstance(o, Prod):
        return Prod([subst_obj(d, pairs) for d in o.dims])
    if isinstance(o, tuple):
        if hasattr(o, "_fields"):
            return type(o)(*[subst_obj(x, pairs) for x in o])
        return tuple(subst_obj(x, pairs) for x in o)
    if isinstance(o, list):
        return [subst_obj(x, pairs) for x in o]
    if isinstance(o, dict):
        return {k: subst_obj(v, pairs) for k, v in o.items()}
    if hasattr(o, "__dv_subst__"):
        return o.__dv_subst__(pairs)
    return o


class SArr:
    __dv_array__ = True
    __array_priority__ = 1000
    __hash__ = object.__hash__

    def __init__(self, shape, fn, dtype="f"):
        self.shape = tuple(shape)
        self.fn = fn
        self.dtype = DType(dtype if isinstance(dtype, str) else dtype.kind)
        self.meta = {}

    # -- basic protocol
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * (d.size() if isinstance(d, Prod) else d)
        return r

    def __dv_scalar__(self):
        if self.shape != ():
            if all(is1(d) for d in self.shape):
                return self.fn(*([0] * len(self.shape)))
            unsup("array used as scalar")
        return self.fn()

    def __dv_len__(self):
        return self.shape[0]

    def __len__(self):
        d = self.shape[0]
        if isinstance(d, int):
            return d
        unsup("len of symbolic array outside rewritten code")

    def __iter__(self):
        d = self.shape[0]
        if not isinstance(d, int):
            unsup("iteration over a symbolic dimension")
        return iter([self[i] for i in range(d)])

    def __bool__(self):
        return bool(wrap(core.tbool(self.__dv_scalar__())) if not isinstance(core.tbool(self.__dv_scalar__()), bool) else core.tbool(self.__dv_scalar__()))

    def __repr__(self):
        return f"<array {self.shape}>"

    def item(self):
        return self.__dv_scalar__()

    def block_until_ready(self):
        return self

    def tolist(self):
        from .seqs import SymSeq
        if self.ndim == 1:
            if isinstance(self.shape[0], int):
                return [self.fn(i) for i in range(self.shape[0])]
            return SymSeq(self.shape[0], lambda i: self.fn(i))
        unsup("tolist")

    # -- shape manipulation
    @property
    def T(self):
        n = self.ndim
        return SArr(self.shape[::-1], lambda *i: self.fn(*i[::-1]), self.dtype)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            return self.T
        inv = [axes.index(k) for k in range(self.ndim)]
        return SArr([self.shape[a] for a in axes],
                    lambda *i: self.fn(*[i[inv[k]] for k in range(self.ndim)]), self.dtype)

    def ravel(self, *a, **k):
        return self.reshape(-1)

    flatten = ravel

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def astype(self, d, **kw):
        k = dtype_kind(d)
        if k == self.dtype.kind:
            return self
        return SArr(self.shape, lambda *i: cast(self.fn(*i), d), k)

    def copy(self):
        return self

    def squeeze(self, axis=None):
        from dv.shims import squeeze
        return squeeze(self, axis)

    def sum(self, axis=None, **k):
        from .shims import jnp_sum
        return jnp_sum(self, axis)

    def max(self, axis=None, **k):
        return self._red("max") if axis is None else unsup("max along an axis")

    def min(self, axis=None, **k):
        return self._red("min") if axis is None else unsup("min along an axis")

    def all(self, axis=None, **k):
        return self._red("all") if axis is None else unsup("all along an axis")

    def any(self, axis=None, **k):
        return self._red("any") if axis is None else unsup("any along an axis")

    def _red(self, what):
        if what in self.meta:
            return self.meta[what]
        from . import shims
        if what in ("all", "any"):
            return (shims.all_ if what == "all" else shims.any_)(self)
        if what in ("max", "min"):
            r = self.meta[what] = shims.extreme(self, what)
            return r
        unsup(f"reduction {what}")

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        # in place: arrays computed from this one read its elements later, so there must be none
        if sys.getrefcount(self) > 4:
            unsup("in-place update of an array that is referenced elsewhere")
        new = setitem(SArr(self.shape, self.fn, self.dtype), key, value)
        self.fn = new.fn
        for k in ("max", "min"):
            self.meta.pop(k, None)

    @property
    def at(self):
        return At(self)

    # -- arithmetic
    def __add__(self, o): return ew(lambda a, b: a + b, self, o)
    def __radd__(self, o): return ew(lambda a, b: a + b, o, self)
    def __sub__(self, o): return ew(lambda a, b: a - b, self, o)
    def __rsub__(self, o): return ew(lambda a, b: a - b, o, self)
    def __mul__(self, o): return ew(lambda a, b: a * b, self, o)
    def __rmul__(self, o): return ew(lambda a, b: a * b, o, self)
    def __truediv__(self, o): return ew(div, self, o, kind="f")
    def __rtruediv__(self, o): return ew(div, o, self, kind="f")
    def __floordiv__(self, o): return ew(lambda a, b: a // b, self, o)
    def __mod__(self, o): return ew(lambda a, b: a % b, self, o)
    def __rmod__(self, o): return ew(lambda a, b: a % b, o, self)
    def __pow__(self, o): return ew(lambda a, b: a ** b, self, o)
    def __neg__(self): return ew(lambda a: -a, self)
    def __abs__(self): return ew(abs, self)
    def __lt__(self, o): return ew(lambda a, b: a < b, self, o, kind="b")
    def __le__(self, o): return ew(lambda a, b: a <= b, self, o, kind="b")
    def __gt__(self, o): return ew(lambda a, b: a > b, self, o, kind="b")
    def __ge__(self, o): return ew(lambda a, b: a >= b, self, o, kind="b")
    def __eq__(self, o): return ew(eq, self, o, kind="b") if o is not None else False
    def __ne__(self, o): return ew(lambda a, b: not_(eq(a, b)), self, o, kind="b") if o is not None else True
    def __and__(self, o): return ew(and_, self, o, kind="b")
    def __rand__(self, o): return ew(and_, o, self, kind="b")
    def __or__(self, o): return ew(or_, self, o, kind="b")
    def __ror__(self, o): return ew(or_, o, self, kind="b")
    def __invert__(self): return ew(not_, self, kind="b")

    def __dv_subst__(self, pairs):
        return subst_obj(self, pairs)


class DType:
    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        try:
            return dtype_kind(o) == self.kind
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return {"f": "float32", "i": "int32", "b": "bool"}[self.kind]


def div(a, b):
    x, y = to_real(lift(a)), to_real(lift(b))
    if z3.is_rational_value(x) and z3.is_rational_value(y) and y.as_fraction() != 0:
        return wrap(z3.simplify(x / y))
    return wrap(x / y)


def kind_of(x):
    if isinstance(x, SArr):
        return x.dtype.kind
    t = lift(x)
    if t is None:
        return None
    return "b" if z3.is_bool(t) else "i" if z3.is_int(t) else "f"


def as_array(x, dtype=None):
    """jnp.asarray."""
    if isinstance(x, SArr):
        return x.astype(dtype) if dtype is not None else x
    if isinstance(x, (list, tuple)):
        if not x:
            return SArr((0,), lambda *i: unsup("element of empty array"))
        parts = [as_array(y) if isinstance(y, (list, tuple)) or isinstance(y, SArr) else y for y in x]
        r = stack(parts, 0)
        return r.astype(dtype) if dtype is not None else r
    if hasattr(x, "__dv_to_array__"):
        return x.__dv_to_array__()
    t = lift(x)
    if t is None:
        unsup(f"array from {type(x)}")
    v = x
    if dtype is not None:
        v = cast(x, dtype)
    return SArr((), lambda: v, kind_of(v))


def pick(i, items):
    """items[i] for a possibly symbolic i over a concrete list of scalars."""
    if isinstance(i, int):
        return items[i]
    r = items[-1]
    for k in range(len(items) - 2, -1, -1):
        r = if_(i == k, items[k], r)
    return r


def stack(parts, axis=0):
    from .seqs import SymSeq
    if isinstance(parts, SymSeq):
        if not isinstance(parts.n, int) and not ctx().check(parts.n > 0) and bool(parts.n <= 0):
            raise ValueError("need at least one array to stack")
        e0 = parts.probe()
        el = as_array(e0)
        nd = el.ndim
        if axis != 0:
            unsup("stack of symbolic sequence along axis != 0")
        return SArr((parts.n,) + el.shape,
                    lambda i, *r: (lambda a: a.fn(*r))(as_array(parts.get(i))), el.dtype)
    parts = [as_array(p) for p in parts]
    nd = parts[0].ndim
    ax = axis if axis >= 0 else axis + nd + 1
    for p in parts[1:]:
        if p.ndim != nd:
            raise ValueError("all input arrays must have the same shape")
        for d, e in zip(parts[0].shape, p.shape):
            if not dim_eq(d, e):
                ctx().prove(eq(d.size() if isinstance(d, Prod) else d, e.size() if isinstance(e, Prod) else e), "shapes agree in stack")
    shape = parts[0].shape[:ax] + (len(parts),) + parts[0].shape[ax:]
    kinds = {p.dtype.kind for p in parts}
    kind = "f" if "f" in kinds else "i" if "i" in kinds else "b"

    def fn(*idx):
        k = idx[ax]
        rest = idx[:ax] + idx[ax + 1:]
        if isinstance(k, int):
            return parts[k].fn(*rest)
        return pick(k, [p.fn(*rest) for p in parts])
    return SArr(shape, fn, kind)


def broadcast_shapes(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        ds = [s[k - nd + len(s)] for s in shapes if k - nd + len(s) >= 0]
        best = None
        for d in ds:
            if is1(d):
                continue
            if best is None:
                best = d
            elif not dim_eq(best, d):
                if isinstance(best, Prod) or isinstance(d, Prod):
                    unsup("broadcast of differently flattened arrays")
                if isinstance(best, int) and isinstance(d, int):
                    raise ValueError(f"shapes {shapes} cannot be broadcast")
                ctx().prove(eq(best, d), "operand shapes agree")
        out.append(1 if best is None else best)
    return tuple(out)


def ew(f, *args, kind=None):
    """Elementwise operation with broadcasting; scalars stay scalars."""
    if any(isinstance(a, (str, bytes)) or a is None for a in args):
        raise TypeError("unsupported operand")
    args = [a if isinstance(a, SArr) else (as_array(a) if isinstance(a, (list, tuple)) else a) for a in args]
    if not any(isinstance(a, SArr) for a in args):
        return f(*args)
    shape = broadcast_shapes(*[a.shape if isinstance(a, SArr) else () for a in args])
    nd = len(shape)

    def fn(*idx):
        vals = []
        for a in args:
            if isinstance(a, SArr):
                off = nd - a.ndim
                ii = [zero_idx(idx[off + k]) if is1(a.shape[k]) else idx[off + k] for k in range(a.ndim)]
                vals.append(a.fn(*ii))
            else:
                vals.append(a)
        return f(*vals)
    if kind is None:
        kinds = {kind_of(a) for a in args}
        kind = "f" if "f" in kinds else "i" if "i" in kinds else "b"
        if kind == "b":
            kind = "i"
    return SArr(shape, fn, kind)


def zero_idx(i):
    return 0


# ---------------------------------------------------------------- indexing
def norm_index(i, n):
    """jnp gather semantics: negative wraps, then clamped into range."""
    if isinstance(n, Prod):
        return i if isinstance(i, tuple) else split_index(i, n)
    if isinstance(i, int) and isinstance(n, int):
        j = i + n if i < 0 else i
        return min(max(j, 0), n - 1)
    if isinstance(i, int) and i < 0:
        i = n + i
        c = ctx()
        return i if c.check(i >= 0) else if_(i < 0, 0, i)
    c = ctx()
    lo = i >= 0
    hi = i < n
    if c.check(and_(lo, hi)):
        return i
    j = if_(lo, i, i + n)
    j = if_(j < 0, 0, if_(j >= n, n - 1, j))
    return j


def split_index(v, n):
    """The components of a flat index into a flattened dimension, when it is known to be inside."""
    real = [d for d in n.dims if not is1(d)]
    if isinstance(v, S) and v.meta and "flat" in v.meta:
        dims, idx = v.meta["flat"]
        if len(dims) == len(real) and all(core.same(a, b) for a, b in zip(dims, real)):
            it = iter(idx)
            return tuple(0 if is1(d) else next(it) for d in n.dims)
    if len(real) != 2 or lift(v) is None:
        unsup("scalar index into flattened dimension")
    H, W = real
    c = ctx()
    parts = None
    t = lift(v)
    for k, u in enumerate(t.children() if z3.is_add(t) else []):
        w = lift(W)
        if z3.is_mul(u) and u.num_args() == 2 and any(x.eq(w) for x in u.children()):
            rest = [x for m, x in enumerate(t.children()) if m != k]
            parts = wrap(u.arg(1) if u.arg(0).eq(w) else u.arg(0)), wrap(rest[0] if len(rest) == 1 else z3.Sum(rest))
            if c.check(and_(parts[0] >= 0, parts[0] < H, parts[1] >= 0, parts[1] < W)):
                break
            parts = None
    if parts is None:
        if not c.check(and_(v >= 0, v < H * W)):
            unsup("scalar index into flattened dimension")
        parts = core.int_divmod(v, W)
    it = iter(parts)
    return tuple(0 if is1(d) else next(it) for d in n.dims)


def scalar_index(a):
    if isinstance(a, SArr):
        return a.fn() if a.ndim == 0 else None
    return a


def clampi(i, n):
    """Slice bound semantics."""
    if isinstance(i, int) and isinstance(n, int):
        return min(max(i + n if i < 0 else i, 0), n)
    if isinstance(i, int) and i == 0:
        return 0
    c = ctx()
    if c.check(and_(i >= 0, i <= n)):
        return i
    j = if_(i < 0, i + n, i)
    return if_(j < 0, 0, if_(j > n, n, j))


def slice_bounds(s, n):
    """(start, length) of a step-1 slice."""
    if s.step not in (None, 1):
        unsup("slice step")
    if isinstance(n, Prod):
        if s.start in (None, 0) and s.stop is None:
            return 0, n
        n = n.size()
    st = 0 if s.start is None else clampi(s.start, n)
    en = n if s.stop is None else clampi(s.stop, n)
    ln = en - st
    if isinstance(ln, int):
        return st, max(0, ln)
    if isinstance(st, int) and st == 0:
        return st, ln
    if ctx().check(ln >= 0):
        return st, simp(ln)
    return st, if_(ln >= 0, ln, 0)


def slice_range(s, n):
    """(start, length, step) of a slice with a concrete step."""
    c = s.step
    if c in (None, 1):
        st, ln = slice_bounds(s, n)
        return st, ln, 1
    if not isinstance(c, int) or isinstance(c, bool) or c == 0:
        unsup("slice step")
    if isinstance(n, Prod):
        n = n.size()
    if c > 0:
        st, span = slice_bounds(slice(s.start, s.stop), n)
    else:
        if not isinstance(s.start, (int, type(None))) or not isinstance(s.stop, (int, type(None))):
            unsup("symbolic bound of a backward slice")

        def bound(v):
            # clamped to [-1, n - 1]
            if v >= 0:
                return clampi(v + 1, n) - 1
            e = n + v
            return max(e, -1) if isinstance(e, int) else if_(e < -1, -1, e)
        st = n - 1 if s.start is None else bound(s.start)
        en = -1 if s.stop is None else bound(s.stop)
        span = st - en
        span = max(0, span) if isinstance(span, int) else if_(span >= 0, span, 0) if not ctx().check(span >= 0) else simp(span)
    k = abs(c)
    return st, (span + k - 1) // k if k > 1 else span, c


def simp(x):
    return wrap(z3.simplify(x.t)) if isinstance(x, S) else x


def expand_key(key, nd):
    if not isinstance(key, tuple):
        key = (key,)
    if any(k is Ellipsis for k in key):
        e = [k is Ellipsis for k in key].index(True)
        used = sum(1 for k in key if k is not None) - 1
        key = key[:e] + (slice(None),) * (nd - used) + key[e + 1:]
    used = sum(1 for k in key if k is not None)
    if used > nd:
        raise IndexError("too many indices for array")
    return key + (slice(None),) * (nd - used)


def getitem(a, key):
    if isinstance(key, SArr) and key.dtype.kind == "b":
        unsup("boolean mask indexing")
    key = expand_key(key, a.ndim)
    out_shape = []
    plan = []  # per input dim: ('i', value) ('s', start, outpos) ('g', array, outpos)
    adv = []
    for k in key:
        if isinstance(k, list):
            unsup("list index")
    arrs = [k for k in key if isinstance(k, SArr) and k.ndim > 0]
    ashape = broadcast_shapes(*[k.shape for k in arrs]) if arrs else ()
    first_adv = None
    pos = 0
    dim = 0
    specs = []
    for k in key:
        if k is None:
            specs.append(("n",))
            continue
        n = a.shape[dim]
        dim += 1
        if isinstance(k, slice):
            st, ln, step = slice_range(k, n)
            specs.append(("s", st, ln, n, step))
        elif isinstance(k, SArr) and k.ndim > 0:
            specs.append(("g", k, n))
        else:
            v = scalar_index(k)
            if isinstance(v, tuple):
                specs.append(("i", v, n))
            else:
                if lift(v) is None:
                    unsup(f"index {type(v)}")
                if isinstance(v, int) and isinstance(n, int) and not -n <= v < n:
                    raise IndexError(f"index {v} is out of bounds for axis with size {n}")
                specs.append(("i", norm_index(v, n), n))
    gpos = [j for j, s in enumerate(specs) if s[0] == "g"]
    # numpy: scalars count as advanced when mixed with arrays; adjacent groups stay in place
    place_front = False
    if gpos:
        advp = [j for j, s in enumerate(specs) if s[0] in ("g",) or (s[0] == "i")]
        place_front = any(specs[j][0] in ("s", "n") for j in range(advp[0], advp[-1] + 1))
    out = []
    build = []
    if gpos and place_front:
        out.extend(ashape)
    done_adv = place_front
    for s in specs:
        if s[0] == "n":
            out.append(1)
        elif s[0] == "s":
            build.append(("s", s[1], len(out), s[4]))
            out.append(s[2])
        elif s[0] == "i":
            build.append(("i", s[1]))
        else:
            if not done_adv:
                base = len(out)
                out.extend(ashape)
                done_adv = True
                advbase = base
            build.append(("g", s[1], s[2]))
    advbase = 0 if place_front else (advbase if gpos else 0)
    na = len(ashape)

    def fn(*idx):
        ii = []
        for b in build:
            if b[0] == "i":
                ii.append(b[1])
            elif b[0] == "s":
                i = idx[b[2]]
                if b[3] != 1:
                    i = i * b[3]
                ii.append(i if (isinstance(b[1], int) and b[1] == 0) else b[1] + i)
            else:
                arr, n = b[1], b[2]
                gi = idx[advbase:advbase + na]
                off = na - arr.ndim
                gg = [0 if is1(arr.shape[k]) else gi[off + k] for k in range(arr.ndim)]
                ii.append(norm_index(arr.fn(*gg), n))
        return a.fn(*ii)
    r = SArr(tuple(out), fn, a.dtype)
    return r if r.shape != () else r.fn()


def setitem(a, key, value, combine=None):
    """Functional update a[key] = value for scalar and slice keys."""
    key = expand_key(key, a.ndim)
    specs = []
    out = []
    for k, n in zip(key, a.shape):
        if isinstance(k, slice):
            st, ln = slice_bounds(k, n)
            specs.append(("s", st, ln, len(out)))
            out.append(ln)
        elif isinstance(k, SArr) and k.ndim > 0:
            unsup("scatter update")
        else:
            v = scalar_index(k)
            specs.append(("i", norm_index(v, n)))
    val = value if isinstance(value, SArr) else as_array(value)

    def fn(*idx):
        conds = []
        vi = [0] * len(out)
        for s, i in zip(specs, idx):
            if s[0] == "i":
                conds.append(eq(i, s[1]) if not isinstance(i, tuple) else unsup("flat"))
            else:
                if isinstance(i, tuple):
                    vi[s[3]] = i
                    continue
                if not (isinstance(s[1], int) and s[1] == 0):
                    conds.append(i >= s[1])
                conds.append(i < s[1] + s[2])
                vi[s[3]] = i if isinstance(s[1], int) and s[1] == 0 else i - s[1]
        cond = and_(*conds)
        off = len(out) - val.ndim
        vv = [0 if is1(val.shape[k]) else vi[off + k] for k in range(val.ndim)]
        old = a.fn(*idx)
        if core.tbool(cond) is False:
            return old
        new = val.fn(*vv)
        if combine:
            new = combine(old, new)
        if a.dtype.kind == "f" and kind_of(new) == "i":
            new = cast(new, "float")
        return if_(cond, new, old)
    return SArr(a.shape, fn, a.dtype)


class Deposit:
    """guard => image[idx] += value, for every value of the bound indices `over` (with bounds)."""

    def __init__(self, over, bounds, guard, idx, value):
        self.over, self.bounds, self.guard, self.idx, self.value = over, bounds, guard, idx, value

    def __dv_subst__(self, pairs):
        return Deposit(self.over, [subst_obj(b, pairs) for b in self.bounds], subst_obj(self.guard, pairs),
                       subst_obj(self.idx, pairs), subst_obj(self.value, pairs))


class Scatter(SArr):
    """An array that is `base` plus recorded deposits (sums are kept symbolic)."""
    count = 0

    def __init__(self, base, deposits):
        Scatter.count += 1
        c = ctx()
        self.uf = None
        super().__init__(base.shape, self._elem, base.dtype)
        self.base, self.deposits = base, list(deposits)
        self.meta["scatter"] = self

    def _elem(self, *idx):
        if self.uf is None:
            self.uf = z3.Function(ctx().fresh("splat"), *([z3.IntSort()] * self.ndim), z3.RealSort())
            ctx().ghost.setdefault("scatters", {})[self.uf.name()] = self
        return SReal(self.uf(*[lift(i) for i in idx]))

    def add(self, dep):
        return Scatter(self.base, self.deposits + [dep])

    def __dv_subst__(self, pairs):
        r = Scatter(self.base, [subst_obj(d, pairs) for d in self.deposits])
        return r


def scope_(*a):
    from .seqs import scope
    return scope(*a)


class At:
    def __init__(self, arr, key=None):
        self.arr, self.key = arr, key

    def __getitem__(self, key):
        return At(self.arr, key)

    def set(self, v, **k):
        return setitem(self.arr, self.key, v)

    def multiply(self, v, **k):
        return setitem(self.arr, self.key, v, lambda a, b: a * b)

    mul = multiply

    def add(self, v, **k):
        key = expand_key(self.key, self.arr.ndim)
        arrs = [x for x in key if isinstance(x, SArr) and x.ndim > 0]
        symbolic = any(not isinstance(x, (int, slice)) for x in key)
        if not symbolic:
            return setitem(self.arr, self.key, v, lambda a, b: a + b)
        if any(isinstance(x, slice) for x in key):
            unsup("mixed scatter")
        base = self.arr if isinstance(self.arr, Scatter) else Scatter(self.arr, [])
        val = as_array(v)
        shape = broadcast_shapes(*[x.shape for x in arrs], val.shape) if (arrs or val.ndim) else ()
        over, bounds = [], []
        idx = []
        for d in shape:
            if isinstance(d, Prod):
                tup = tuple(SInt(z3.Int(ctx().fresh("p"))) for _ in d.dims)
                idx.append(tup)
                over.extend(tup)
                bounds.extend(d.dims)
            else:
                i = SInt(z3.Int(ctx().fresh("p")))
                idx.append(i)
                over.append(i)
                bounds.append(d)

        def at(x):
            if not isinstance(x, SArr) or x.ndim == 0:
                return scalar_index(x)
            off = len(shape) - x.ndim
            return x.fn(*[0 if is1(x.shape[k]) else idx[off + k] for k in range(x.ndim)])
        # jnp scatter: negative indices wrap, then out-of-bounds updates are dropped
        pos, guard = [], []
        with scope_(*over):
            for i, d in zip(over, bounds):
                ctx().assume(and_(i >= 0, i < d))
            for x, n in zip(key, self.arr.shape):
                i = at(x)
                if isinstance(n, Prod) or isinstance(i, tuple):
                    unsup("scatter into a flattened dimension")
                if not ctx().check(i >= 0):
                    i = if_(i < 0, i + n, i)
                g = and_(i >= 0, i < n)
                if not ctx().check(g):
                    guard.append(g)
                pos.append(i)
            v = at(val)
        return base.add(Deposit(over, bounds, and_(*guard), tuple(pos), v))


# ---------------------------------------------------------------- reshape
def flat_atoms(shape):
    out = []
    for d in shape:
        out.extend(d.dims if isinstance(d, Prod) else [d])
    return out


def reshape(a, shape):
    shape = [s for s in (shape if isinstance(shape, (tuple, list)) else (shape,))]
    atoms = [d for d in flat_atoms(a.shape) if not is1(d)]
    groups = []
    # match target dims against the atoms, from both ends around a -1
    if any(isinstance(s, int) and s == -1 for s in shape):
        k = [isinstance(s, int) and s == -1 for s in shape].index(True)
        lead = take(atoms, shape[:k], True)
        rest = atoms[lead[1]:]
        tail = take(rest[::-1], shape[k + 1:][::-1], False)
        mid = rest[:len(rest) - tail[1]]
        groups = lead[0] + [mid] + [g[::-1] for g in tail[0][::-1]]
    else:
        g = take(atoms, shape, True)
        if g[1] != len(atoms):
            return reshape_concrete(a, shape)
        groups = g[0]
    new_shape = [mkprod(g) for g in groups]

    def fn(*idx):
        flat = []
        for g, i in zip(groups, idx):
            if len(g) == 0:
                continue
            if len(g) == 1:
                flat.append(i)
            else:
                flat.extend(i)
        # distribute over the source dims
        out = []
        p = 0
        for d in a.shape:
            if isinstance(d, Prod):
                sub = []
                for x in d.dims:
                    if is1(x):
                        sub.append(0)
                    else:
                        sub.append(flat[p])
                        p += 1
                out.append(tuple(sub))
            elif is1(d):
                out.append(0)
            else:
                out.append(flat[p])
                p += 1
        return a.fn(*out)
    r = SArr(new_shape, fn, a.dtype)
    return r


def take(atoms, dims, fwd):
    """Greedy grouping of atoms into the given dims."""
    groups, p = [], 0
    for d in dims:
        if isinstance(d, Prod):
            n = len(d.dims)
            g = atoms[p:p + n]
            if len(g) != n:
                unsup("reshape")
            groups.append(g)
            p += n
            continue
        if is1(d):
            groups.append([])
            continue
        g, prod = [], None
        while p < len(atoms):
            x = atoms[p]
            p += 1
            g.append(x)
            prod = x if prod is None else prod * x
            if isinstance(prod, int) and isinstance(d, int):
                if prod == d:
                    break
                if prod > d:
                    unsup("reshape splits a dimension")
            elif same(prod, d):
                break
        else:
            unsup("reshape does not follow the dimensions")
        groups.append(g)
    return groups, p


def reshape_concrete(a, shape):
    unsup(f"reshape {a.shape} -> {shape}")
