"""Symbolic sequences, loop handling and the rewritten control structures."""
import collections
import contextlib
import sys

import z3

from .core import *
from . import core


class Opt:
    """A value that may be None, decided by forking when asked."""


class SymSeq:
    """Immutable sequence of symbolic length."""
    __hash__ = object.__hash__

    def __init__(self, n, get, dims=None, get_dims=None):
        self.n = n
        self._get = get
        self.dims = dims
        self.get_dims = get_dims

    def get(self, i):
        if self.get_dims is not None and self._get is None:
            if isinstance(i, S) and i.meta and "flat" in i.meta and len(i.meta["flat"][0]) == len(self.dims):
                return self.get_dims(*i.meta["flat"][1])
            q, r = int_divmod(i, self.dims[-1])
            if len(self.dims) != 2:
                unsup("flat index into a deep sequence")
            return self.get_dims(q, r)
        return self._get(i)

    def probe(self):
        i = fresh_int("probe", 0, self.n)
        return self.get(i)

    def __dv_len__(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        unsup("len() of a symbolic sequence outside rewritten code")

    def __bool__(self):
        return bool(self.n > 0)

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.get(i) for i in range(self.n)])
        unsup("iteration over a symbolic sequence outside rewritten code")

    def __getitem__(self, i):
        if isinstance(i, slice):
            from .arrays import slice_range
            st, ln, step = slice_range(i, self.n)
            if step != 1:
                return SymSeq(ln, lambda k: self.get(st + k * step))
            return SymSeq(ln, lambda k: self.get(st + k if not (isinstance(st, int) and st == 0) else k))
        if isinstance(i, int) and i < 0:
            i = self.n + i
        ok = and_(i >= 0, i < self.n)
        if not ctx().check(ok):
            if bool(i < 0):
                i = i + self.n
            if bool(or_(i < 0, i >= self.n)):
                raise IndexError("list index out of range")
        return self.get(i)

    def __add__(self, o):
        if isinstance(o, (list, tuple)):
            o = from_list(o)
        if not isinstance(o, SymSeq):
            return NotImplemented
        return concat(self, o)

    def __radd__(self, o):
        return concat(from_list(o), self)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, int)):
            return False
        unsup("comparison of symbolic sequences")

    def copy(self):
        return self

    def __dv_subst__(self, pairs):
        from .arrays import subst_obj
        if self._get is None:
            return SymSeq(subst_obj(self.n, pairs), None, tuple(subst_obj(d, pairs) for d in self.dims),
                          lambda *i: subst_obj(self.get_dims(*i), pairs))
        return SymSeq(subst_obj(self.n, pairs), lambda i: subst_obj(self._get(i), pairs))

    def __dv_to_array__(self):
        from .arrays import stack
        return stack(self)

    def index(self, *a):
        unsup("index")


def from_list(xs):
    xs = list(xs)
    if len(xs) == 0:
        return SymSeq(0, lambda i: unsup("element of an empty list"))

    def get(i):
        if isinstance(i, int):
            return xs[i]
        if len(xs) == 1:
            return xs[0]
        if all(isinstance(x, (S, int, float, bool)) for x in xs):
            from .arrays import pick
            return pick(i, xs)
        for k in range(len(xs) - 1):
            if bool(i == k):
                return xs[k]
        return xs[-1]
    return SymSeq(len(xs), get)


def merged(cond, f, g):
    """f() where the condition holds, g() elsewhere."""
    x, y = _under(cond, f), _under(not_(cond), g)
    if x is y:
        return x
    if isinstance(x, (SymSeq, SList, list)) and isinstance(y, (SymSeq, SList, list)):
        a, b = [as_any_seq(v) for v in (x, y)]
        return SymSeq(if_(cond, a.n, b.n), lambda i: merged(cond, lambda: a.get(i), lambda: b.get(i)))
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return tuple(merged(cond, lambda u=u: u, lambda v=v: v) for u, v in zip(x, y))
    if isinstance(x, str) and isinstance(y, str) and x == y:
        return x
    tx, ty = lift(x), lift(y)
    if tx is not None and ty is not None:
        if tx.sort().eq(ty.sort()):
            return wrap(z3.If(lift(cond), tx, ty))
        return if_(cond, x, y)
    unsup("control flow that depends on a generic element")


class DvDict(dict):
    """A dict that may be read at a key known only as one of its keys."""

    def __getitem__(self, k):
        c = ctx()
        if c is None or not isinstance(k, S):
            return dict.__getitem__(self, k)
        cand = []
        for q in dict.keys(self):
            if isinstance(q, S) and q.t.sort().eq(k.t.sort()):
                e = k == q
                if e is True or (isinstance(e, S) and c.check(e)):
                    return self.value(q)
                if isinstance(e, S) and not c.check(not_(e)):
                    cand.append((e, q))
        if not cand or not c.generic or not mentions(k.t, c.generic):
            return dict.__getitem__(self, k)
        if not c.check(or_(*[e for e, _ in cand])):
            unsup("a key that may be missing")
        r = lambda: self.value(cand[-1][1])
        for e, q in reversed(cand[:-1]):
            r = (lambda e=e, q=q, r=r: merged(e, lambda: self.value(q), r))
        return r()

    def value(self, q):
        for k, v in dict.items(self):
            if k is q:
                return v


def concat(a, b):
    def get(i):
        left = i < a.n
        if generic_bool(left):
            return merged(left, lambda: a.get(i), lambda: b.get(i - a.n))
        if bool(left):
            return a.get(i)
        return b.get(i - a.n)
    return SymSeq(a.n + b.n, get)


class SList:
    """Mutable list of symbolic length."""
    __hash__ = None

    def __init__(self, seq):
        self.seq = seq

    @property
    def n(self):
        return self.seq.n

    def get(self, i):
        return self.seq.get(i)

    def probe(self):
        return self.seq.probe()

    def append(self, x):
        self.seq = concat(self.seq, from_list([x])) if not same(self.seq.n, 0) else from_list([x])

    def extend(self, xs):
        xs = as_seq(xs)
        if isinstance(xs, list):
            xs = from_list(xs)
        self.seq = concat(self.seq, xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, o):
        return SList(self.seq + (o.seq if isinstance(o, SList) else o))

    def __radd__(self, o):
        return SList(o + self.seq)

    def __dv_len__(self):
        return self.seq.n

    def __len__(self):
        return len(self.seq)

    def __bool__(self):
        return bool(self.seq.n > 0)

    def __iter__(self):
        return iter(self.seq)

    def __getitem__(self, i):
        return self.seq[i]

    def __setitem__(self, i, v):
        unsup("assignment into a symbolic list")

    def copy(self):
        return SList(self.seq)

    def sort(self, *, key=None, reverse=False):
        self.seq = dv_sorted(self, key, reverse).seq

    def reverse(self):
        s = self.seq
        self.seq = SymSeq(s.n, lambda i: s.get(s.n - 1 - i))

    def __dv_subst__(self, pairs):
        return SList(self.seq.__dv_subst__(pairs))

    def __dv_to_array__(self):
        return self.seq.__dv_to_array__()


class SRange(SymSeq):
    def __init__(self, lo, hi):
        n = hi - lo
        if isinstance(n, S):
            n = n if ctx().check(n >= 0) else if_(n >= 0, n, 0)
        elif n < 0:
            n = 0
        self.lo = lo
        super().__init__(n, lambda i: i if isinstance(lo, int) and lo == 0 else lo + i)
        if isinstance(hi, S) and isinstance(lo, int) and lo == 0 and hi.meta:
            self.factors = hi.meta.get("factors")


def seqlike(x):
    return isinstance(x, (SymSeq, SList)) and not isinstance(x.n, int)


def as_seq(x):
    """A python list (concrete length) or a SymSeq."""
    from .arrays import SArr
    if isinstance(x, SList):
        x = x.seq
    if isinstance(x, SymSeq):
        return list(x) if isinstance(x.n, int) else x
    if isinstance(x, SArr):
        if isinstance(x.shape[0], int):
            return list(x)
        return SymSeq(x.shape[0], lambda i: x[i])
    if hasattr(x, "__dv_seq__"):
        return x.__dv_seq__()
    return x


@contextlib.contextmanager
def scope(*consts):
    """Facts about the given constants assumed inside are dropped at the end."""
    c = ctx()
    k = len(c.pc)
    solver = c.solver
    solver.push()
    seen0 = set(c.inst_seen)
    gen0 = c.generic
    ids = {x.t.get_id() for x in consts}
    c.keep.extend(x.t for x in consts)
    c.generic = gen0 | ids
    yield
    c.inst_seen = seen0
    c.vers += 1
    c.ver = c.vers
    c.generic = gen0
    new = [p for p in c.pc[k:] if not mentions(p, ids)]
    c.pc = c.pc[:k] + new
    solver.pop()
    for p in new:
        solver.add(p)


# ---------------------------------------------------------------- comprehension
SKIP = object()


class Sub:
    def __init__(self, seq):
        self.seq = seq


class Filtered:
    """An element kept on a condition that the path does not decide."""

    def __init__(self, cond, value):
        self.cond, self.value = cond, value


def dv_filter(cond, body):
    r = cond()
    if generic_bool(r):
        v = _under(r, body)
        if v is SKIP or isinstance(v, (Sub, Filtered)):
            unsup("nested conditions on a generic element")
        return Filtered(r, v)
    return body() if r else SKIP


def filter_seq(it, body):
    """The elements of a symbolic sequence that satisfy a condition, in order.

    sel(k) is the position of the k-th of them: increasing, onto the positions that satisfy it.
    """
    c = ctx()
    n = fresh_int("kept", 0)
    c.assume(n <= it.n)
    sel, inv = [z3.Function(c.fresh(x), z3.IntSort(), z3.IntSort()) for x in ("sel", "inv")]
    i = fresh_int("q")
    with scope(i):
        c.assume(and_(i >= 0, i < it.n))
        r = body(it.get(i))
        p = True if not isinstance(r, Filtered) else core.tbool(r.cond)
    if p is True:
        unsup("condition that differs between elements")
    P = lambda t: z3.substitute(p, (i.t, t))
    N, M = lift(it.n), n.t
    j, k = z3.Int(c.fresh("fj")), z3.Int(c.fresh("fk"))
    c.assume_lazily((z3.ForAll([i.t], z3.Implies(z3.And(i.t >= 0, i.t < N, p), z3.And(inv(i.t) >= 0, inv(i.t) < M, sel(inv(i.t)) == i.t)))))
    c.assume_lazily((z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < M), z3.And(sel(j) >= 0, sel(j) < N, P(sel(j)), inv(sel(j)) == j)),
                             patterns=[sel(j)])))
    c.assume_lazily((z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < M), sel(j) < sel(k)),
                             patterns=[z3.MultiPattern(sel(j), sel(k))])))
    c.assume(SBool(z3.Implies(M > 0, z3.And(sel(0) >= 0, sel(0) < N, P(sel(0))))))
    c.assume(SBool(z3.Implies(M == 0, z3.ForAll([i.t], z3.Implies(z3.And(i.t >= 0, i.t < N), z3.Not(p))))))

    def get(m):
        q = wrap(sel(lift(m)))
        if c.check(and_(m >= 0, m < n)):
            c.assume(and_(q >= 0, q < it.n, SBool(P(q.t))))
        r = _under(and_(q >= 0, q < it.n, SBool(P(q.t))), lambda: body(it.get(q)))
        return r.value if isinstance(r, Filtered) else r if r is not SKIP else unsup("element of a filter")
    return SymSeq(n, get)


def comp_seq(it, body):
    """Sequence of body(x) for x in it; body may return SKIP or Sub(seq)."""
    it = as_seq(it)
    if isinstance(it, SymSeq) and ctx().check(it.n <= 0 if not isinstance(it.n, int) else it.n <= 0):
        return []
    if not isinstance(it, SymSeq):
        out = []
        for x in it:
            r = body(x)
            if isinstance(r, Filtered):
                r = r.value if bool(r.cond) else SKIP
            if r is SKIP:
                continue
            if isinstance(r, Sub):
                if isinstance(r.seq, SymSeq):
                    if out and not isinstance(out, SymSeq):
                        out = concat(from_list(out), r.seq)
                    elif isinstance(out, SymSeq):
                        out = concat(out, r.seq)
                    else:
                        out = r.seq
                elif isinstance(out, SymSeq):
                    out = concat(out, from_list(r.seq))
                else:
                    out.extend(r.seq)
            elif isinstance(out, SymSeq):
                out = concat(out, from_list([r]))
            else:
                out.append(r)
        return out
    # symbolic length: probe the structure once
    i = fresh_int("ci")
    with scope(i):
        ctx().assume(and_(i >= 0, i < it.n))
        r = body(it.get(i))
    if r is SKIP:
        return []
    if isinstance(r, Filtered):
        return filter_seq(it, body)
    if isinstance(r, Sub):
        inner = r.seq
        if isinstance(inner, SymSeq):
            m = inner.n
            if inner.dims is not None:
                unsup("three nested symbolic generators")
            if core_mentions(m, i):
                unsup("inner generator length depends on the outer variable")
            return SymSeq(it.n * m, None, (it.n, m), lambda a, b: body(it.get(a)).seq.get(b))
        m = len(inner)

        def gd(a, b):
            s = body(it.get(a)).seq
            return from_list(s).get(b)
        return SymSeq(it.n * m, None, (it.n, m), gd)
    if substitutable(r):
        # evaluated once, now: later changes of the variables it reads do not matter
        from .arrays import subst_obj
        return SymSeq(it.n, lambda j: subst_obj(r, [(i.t, lift(j))]))
    return SymSeq(it.n, lambda j: body(it.get(j)))


def substitutable(o):
    from .arrays import Prod, SArr
    if o is None or isinstance(o, (S, SArr, Prod, str, int, float, bool)):
        return True
    if isinstance(o, (tuple, list)):
        return all(substitutable(x) for x in o)
    if isinstance(o, dict):
        return all(substitutable(x) for x in o.values())
    return hasattr(o, "__dv_subst__")


def core_mentions(x, i):
    if not isinstance(x, S):
        return False
    stack, seen = [x.t], set()
    while stack:
        t = stack.pop()
        if t.get_id() == i.t.get_id():
            return True
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        stack.extend(t.children())
    return False


def uses(code, name):
    return name in code.co_names or any(uses(k, name) for k in code.co_consts if hasattr(k, "co_names"))


class CompLoop:
    """A list comprehension, seen as the loop that appends its elements (nested: or lists of them)."""

    def __init__(self, it, body):
        self.kind, self.it, self.i, self.func, self.line = "comp", it, None, "", 0
        self.nested = hasattr(body, "__code__") and uses(body.__code__, "dv__sub")

    def run(self, body):
        c, spec = ctx(), self.spec
        spec.entry(self, {})
        self.i = fresh_int("it", 0)
        c.assume(self.i <= self.it.n)
        lst = spec.havoc(self, "comp", [])
        env = {"comp": lst}
        spec.assume(self, env)
        if not bool(self.i < self.it.n):
            return lst
        r = body(self.it.get(self.i))
        if isinstance(r, Filtered):
            r = r.value if bool(r.cond) else SKIP
        if isinstance(r, Sub):
            lst.extend(SList(r.seq) if isinstance(r.seq, SymSeq) else r.seq)
        elif r is not SKIP:
            lst.append(r)
        self.i = self.i + 1
        spec.preserved(self, env)
        raise PathEnd()


def dv_comp(kind, it, body):
    c = ctx()
    if kind in ("list", "gen") and c is not None and c.ghost.get("comp_specs"):
        seq = as_seq(it)
        if isinstance(seq, SymSeq):
            loop = CompLoop(seq, body)
            for f in reversed(c.ghost["comp_specs"]):
                loop.spec = f(loop)
                if loop.spec is not None:
                    r = loop.run(body)
                    return r if kind == "list" else as_seq(r)
    r = comp_seq(it, body)
    if kind == "list":
        return SList(r) if isinstance(r, SymSeq) else r
    if kind == "gen":
        return r if isinstance(r, SymSeq) else iter(r)
    if isinstance(r, SymSeq):
        if kind == "set":
            return SymSet(r)
        if kind == "dict":
            return SymDict(r)
        unsup(f"{kind} comprehension over a symbolic sequence")
    if kind == "set":
        return dv_set(r)
    if kind == "dict":
        return DvDict(r)


class SymSet:
    """The set of the elements of a symbolic sequence; sorted() enumerates it by a function of the sequence."""

    def __init__(self, seq):
        self.seq = seq

    def __dv_sorted__(self):
        c = ctx()
        e = self.seq.probe()
        if not isinstance(e, SObj):
            unsup("sorted set of values that are not opaque")
        n = fresh_int("distinct", 0)
        c.assume(and_(n <= self.seq.n, eq(n > 0, self.seq.n > 0) if isinstance(self.seq.n, S) else n > 0))
        elem = z3.Function(c.fresh("nth_of_set"), z3.IntSort(), e.t.sort())
        src, pos = [z3.Function(c.fresh(x), z3.IntSort(), z3.IntSort()) for x in ("taken_from", "place_in_set")]
        N, M = lift(self.seq.n), n.t

        def ax(t):
            # each is an element, and listed once
            a = t.arg(0)
            return [z3.Implies(z3.And(a >= 0, a < M), z3.And(src(a) >= 0, src(a) < N, t == self.seq.get(wrap(src(a))).t, z3.Function(c_num, e.t.sort(), z3.IntSort())(t) == a))]
        c_num = c.fresh("number_in_set")
        c.axiom(elem, ax)
        num = z3.Function(c_num, e.t.sort(), z3.IntSort())
        out = SymSeq(n, lambda i: SObj(elem(lift(i))))
        # every element is enumerated: at pos(i)
        out.covers = lambda i: SBool(z3.Implies(z3.And(lift(i) >= 0, lift(i) < N), z3.And(
            pos(lift(i)) >= 0, pos(lift(i)) < M, elem(pos(lift(i))) == self.seq.get(i).t)))
        out.pos, out.number = (lambda i: wrap(pos(lift(i)))), (lambda x: wrap(num(lift(x))))
        return out


class SymDict:
    """A dict with one entry per element of a symbolic sequence of (key, value), the keys being opaque and pairwise distinct."""
    __hash__ = None

    def __init__(self, seq):
        c = ctx()
        self.seq = seq
        a, b = fresh_int("entry"), fresh_int("entry")
        with scope(a, b):
            c.assume(and_(a >= 0, a < seq.n, b >= 0, b < seq.n))
            ka, kb = seq.get(a)[0], seq.get(b)[0]
            if not isinstance(ka, SObj) or not c.prove(implies(eq(ka, kb), eq(a, b)), "", quiet=True):
                unsup("a dict whose keys may coincide")

    @property
    def n(self):
        return self.seq.n

    def key(self, i):
        return self.seq.get(i)[0]

    def find(self, k):
        """The entry of a key that is known to be present."""
        if not isinstance(k, SObj):
            unsup("a key of another kind")
        c = ctx()
        m = re_arg(k, self.seq)
        if m is None:
            unsup("a key that may be missing")
        return m

    def __getitem__(self, k):
        return self.seq.get(self.find(k))[1]

    def __contains__(self, k):
        self.find(k)
        return True

    def items(self):
        return self.seq

    def keys(self):
        return SymSeq(self.seq.n, self.key)

    def values(self):
        return SymSeq(self.seq.n, lambda i: self.seq.get(i)[1])

    def __dv_seq__(self):
        return self.keys()

    def __dv_len__(self):
        return self.seq.n

    def __bool__(self):
        return bool(self.seq.n > 0)

    def __iter__(self):
        unsup("iteration over a symbolic dict outside rewritten code")

    def copy(self):
        return self


def re_arg(k, seq):
    """The index at which a sequence of (key, value) holds key k: read off the term, and verified."""
    c = ctx()
    i = z3.Int(c.fresh("at"))
    p = seq.get(SInt(i))[0].t
    m = match_term(p, k.t, i)
    if m is None:
        return None
    m = wrap(m)
    ok = and_(m >= 0, m < seq.n, eq(SObj(seq.get(m)[0].t), k))
    return m if c.check(ok) else None


def match_term(pat, t, x):
    """The value of x that makes the terms equal, if it can be read off."""
    if pat.eq(x):
        return t
    if not (z3.is_app(pat) and z3.is_app(t)) or not pat.decl().eq(t.decl()):
        return None
    for a, b in zip(pat.children(), t.children()):
        m = match_term(a, b, x)
        if m is not None:
            return m
    return None


def dv_sub(it, body):
    r = comp_seq(it, body)
    return Sub(r)


def growing(x, y):
    """A concrete list about to be extended by a symbolic sequence."""
    return type(x) is list and isinstance(as_seq(y), SymSeq)


def grown(x, y):
    if sys.getrefcount(x) > 4:
        unsup("a list that is referenced elsewhere grows by a symbolic sequence")
    return SList(concat(from_list(x), as_seq(y)) if x else as_seq(y))


# ---------------------------------------------------------------- loops
class RecList:
    """Stand-in for a list inside the single symbolic iteration of the accumulate rule."""

    def __init__(self, orig):
        self.orig, self.items = orig, []

    def append(self, x):
        self.items.append(("a", x))

    def extend(self, xs):
        xs = as_seq(xs)
        if isinstance(xs, SymSeq):
            unsup("extend by a symbolic sequence in a symbolic loop")
        for x in xs:
            self.append(x)

    def __getattr__(self, k):
        if k.startswith("__dv"):
            raise AttributeError(k)
        unsup("list read inside a symbolic loop")

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __dv_len__(self):
        unsup("len of list inside a symbolic loop")

    def _no(self, *a):
        unsup("list read inside a symbolic loop")

    __add__ = __radd__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __contains__ = __eq__ = __ne__ = _no
    __hash__ = None


def contents(v):
    """What a container holds, by identity."""
    return [(id(k), id(x)) for k, x in dict.items(v)] if isinstance(v, dict) else [id(x) for x in v]


class Loop:
    """Drives a rewritten loop; see rewrite.py for the protocol."""
    MAX_UNROLL = 200

    def __init__(self, kind, line, func, it):
        self.kind, self.line, self.func = kind, line, func
        c = ctx()
        self.phase = 0
        self.mode = "run"
        self.i = 0
        self.it = None
        self.spec = None
        self.count = 0
        if kind == "for":
            seq = as_seq(it)
            if isinstance(seq, SymSeq):
                self.it = seq
                self.spec = find_spec(self)
                self.mode = "cut" if self.spec else "acc"
            else:
                self.iter = iter(seq)
                sp = c.ghost.get("concrete_for_spec") if c else None
        else:
            self.spec = find_spec(self) if c else None
            if self.spec is not None:
                self.mode = "cut"

    # called at the loop head, before locals are havocked
    def arrive(self, env):
        c = ctx()
        if self.mode == "run":
            self.count += 1
            if self.count > self.MAX_UNROLL and c is not None:
                unsup(f"loop at line {self.line} unrolled too far")
            return
        if self.mode == "cut":
            if self.phase == 0:
                self.env0 = dict(env)
                self.spec.entry(self, env)
                self.phase = 1
                if self.kind == "for":
                    self.i = fresh_int("it", 0)
                    c.assume(self.i <= self.it.n)
            else:
                if self.kind == "for":
                    self.i = self.i + 1
                self.spec.preserved(self, env)
                raise PathEnd()
        if self.mode == "acc":
            if self.phase == 0:
                self.pc_len = len(c.pc)
                self.i = fresh_int("it")
                self.scope = scope(self.i)
                self.scope.__enter__()
                c.assume(and_(self.i >= 0, self.i < self.it.n))
                self.env0 = dict(env)
                self.recs = {}
                self.frozen = []
                self.phase = 1
                self.taken = len(c.taken)
            elif self.phase == 1:
                if len(c.taken) != self.taken:
                    unsup("branching inside a symbolic accumulation loop")
                for k, v in self.env0.items():
                    if k not in self.targets and not k.startswith("dv__x") and k in env and k not in self.recs and env[k] is not v:
                        unsup(f"loop-carried variable {k}")
                if any(contents(v) != was for _, v, was in self.frozen):
                    unsup("a container changed in a symbolic loop")
                self.scope.__exit__(None, None, None)
                self.phase = 2
                self.final = {}
                for k, r in self.recs.items():
                    self.final[k] = self.finish(r)

    def finish(self, r):
        from .arrays import subst_obj
        base = r.orig
        if not r.items:
            return base
        i = self.i
        subst = lambda x, j: subst_obj(x, [(i.t, lift(j))])
        if any(kind == "s" for kind, _ in r.items):
            # nested loops: each iteration adds a sequence
            if len(r.items) != 1:
                unsup("a list that grows by a sequence and more in each iteration")
            inner = r.items[0][1]
            if inner.dims is not None:
                unsup("three nested symbolic loops")
            if core_mentions(inner.n, i):
                unsup("inner loop length depends on the outer variable")
            new = SymSeq(self.it.n * inner.n, None, (self.it.n, inner.n), lambda j, k: subst(inner.get(k), j))
        elif len(r.items) == 1:
            x = r.items[0][1]
            new = SymSeq(self.it.n, lambda j: subst(x, j))
        else:
            items = [x for _, x in r.items]
            new = SymSeq(self.it.n * len(items), None, (self.it.n, len(items)),
                         lambda j, k: from_list([subst(x, j) for x in items]).get(k))
        if isinstance(base, RecList):
            base.items.append(("s", new))
            return base
        return SList(new if not base else concat(as_any_seq(base), new))

    def hv(self, name, v, stored=False):
        global STORED
        if self.mode == "run":
            return v
        if self.mode == "cut":
            STORED = stored
            try:
                return self.spec.havoc(self, name, v)
            finally:
                STORED = False
        if self.phase == 1:
            if isinstance(v, (list, SList, RecList)):
                r = RecList(v)
                self.recs[name] = r
                return r
            if isinstance(v, (dict, set, collections.deque)):
                self.frozen.append((name, v, contents(v)))
            return v
        if self.phase == 2:
            return self.final.get(name, v)
        return v

    def ready(self, env, targets=()):
        """After havoc: assume the invariant."""
        self.targets = targets
        if self.mode == "cut" and self.phase == 1:
            self.spec.assume(self, env)
            self.phase = 2

    def more(self):
        if self.mode == "run":
            try:
                self.cur = next(self.iter)
                return True
            except StopIteration:
                return False
        if self.mode == "acc":
            if self.phase == 2:
                return False
            self.cur = self.it.get(self.i)
            return True
        if bool(self.i < self.it.n):
            self.cur = self.it.get(self.i)
            return True
        return False

    def next(self):
        return self.cur


def as_any_seq(x):
    if isinstance(x, SList):
        return x.seq
    if isinstance(x, SymSeq):
        return x
    return from_list(x)


def find_spec(loop):
    c = ctx()
    if c is None:
        return None
    for f in reversed(c.ghost.get("loop_specs", [])):
        s = f(loop)
        if s is not None:
            return s
    return None


class LoopSpec:
    """Invariant of a loop, stated over the ghost and heap state."""

    def entry(self, loop, env):
        self.check(loop, env, "holds on entry")

    def preserved(self, loop, env):
        self.check(loop, env, "preserved by the body")

    def check(self, loop, env, when):
        pass

    def havoc(self, loop, name, v):
        return havoc_value(name, v)

    def assume(self, loop, env):
        pass


def havoc_value(name, v):
    """Arbitrary value of the same type, for a local written in a cut loop."""
    c = ctx()
    if isinstance(v, bool) or isinstance(v, SBool):
        return SBool(z3.Bool(c.fresh(name)))
    if isinstance(v, (int, SInt)):
        return SInt(z3.Int(c.fresh(name)))
    if isinstance(v, (float, SReal)):
        return SReal(z3.Real(c.fresh(name)))
    if isinstance(v, (list, dict, set, SList, RecList)):
        unsup(f"a container written in a loop without invariant: {name}")
    return Unknown(name) if STORED else v


STORED = False  # the variable being havocked is assigned in the loop (and not only used)


class Unknown:
    """A variable after an unknown number of iterations."""

    def __init__(self, name):
        self.__dict__["dv_name"] = name

    def _no(self, *a, **k):
        unsup(f"a variable assigned in an earlier iteration: {self.__dict__['dv_name']}")

    __bool__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __eq__ = __ne__ = __setattr__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = __neg__ = _no
    __enter__ = __exit__ = __contains__ = _no
    __hash__ = None

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__") or k.startswith("__dv"):
            raise AttributeError(k)
        self._no()


# ---------------------------------------------------------------- builtins
def dv_is(a, b):
    if isinstance(a, Unknown) or isinstance(b, Unknown):
        (a if isinstance(a, Unknown) else b)._no()
    if isinstance(a, MaybeNone) or isinstance(b, MaybeNone):
        m, o = (a, b) if isinstance(a, MaybeNone) else (b, a)
        if o is None:
            return m.isnone
        unsup("is")
    return a is b


class MaybeNone:
    def __init__(self, isnone, value):
        self.isnone, self.value = isnone, value


def generic_bool(x):
    """A condition on a generic element that the path does not decide."""
    c = ctx()
    return (isinstance(x, SBool) and c is not None and c.generic and mentions(x.t, c.generic)
            and not c.check(x) and not c.check(not_(x)))


def _under(cond, f):
    """f() with cond assumed meanwhile."""
    c = ctx()
    n = len(c.pc)
    seen0 = set(c.inst_seen)
    c.solver.push()
    c.add(lift(cond))
    try:
        return f()
    finally:
        c.solver.pop()
        del c.pc[n:]
        c.inst_seen = seen0
        c.vers += 1
        c.ver = c.vers


def dv_and(*fs):
    r = fs[0]()
    for f in fs[1:]:
        if generic_bool(r):
            b = _under(r, f)
            if not isinstance(b, (bool, SBool)):
                unsup("'and' of a generic condition and another value")
            r = and_(r, b)
        elif r:
            r = f()
        else:
            return r
    return r


def dv_or(*fs):
    r = fs[0]()
    for f in fs[1:]:
        if generic_bool(r):
            b = _under(not_(r), f)
            if not isinstance(b, (bool, SBool)):
                unsup("'or' of a generic condition and another value")
            r = or_(r, b)
        elif r:
            return r
        else:
            r = f()
    return r


def dv_neg(x):
    return not_(x) if generic_bool(x) else not x


def dv_len(x):
    if hasattr(x, "__dv_len__"):
        return x.__dv_len__()
    return len(x)


def dv_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        return SRange(0, a[0])
    if len(a) == 2:
        return SRange(a[0], a[1])
    lo, hi, st = a
    if isinstance(st, int) and st == 1:
        return SRange(lo, hi)
    if isinstance(st, S):
        if not ctx().check(st > 0):
            unsup("range with a step of unknown sign")
    elif not isinstance(st, int) or isinstance(st, bool):
        unsup("range with step")
    elif st == 0:
        raise ValueError("range() arg 3 must not be zero")
    span = hi - lo if isinstance(st, S) or st > 0 else lo - hi
    k = st if isinstance(st, S) else abs(st)

    def count(k):
        if isinstance(k, S) and z3.is_app_of(k.t, z3.Z3_OP_ITE):
            c, x, y = k.t.children()
            return if_(wrap(c), count(wrap(z3.simplify(x))), count(wrap(z3.simplify(y))))
        if isinstance(k, S) and z3.is_int_value(k.t):
            k = k.t.as_long()
        return (span + k - 1) // k
    n = count(k)
    if isinstance(n, S):
        n = n if ctx().check(n >= 0) else if_(n >= 0, n, 0)
    else:
        n = max(n, 0)
    return SymSeq(n, lambda i: lo + i * st)


def dv_isinstance(x, cls):
    cl = cls if isinstance(cls, tuple) else (cls,)
    if isinstance(x, S):
        for k in cl:
            if k is int and isinstance(x, (SInt, SBool)):
                return True
            if k is float and isinstance(x, SReal):
                return True
            if k is bool and isinstance(x, SBool):
                return True
            if k is str and isinstance(x, SObj) and str(x.t.sort()) in ("Path", "Dir", "Str"):
                return True
            if k is object:
                return True
        return False
    from .arrays import SArr, Prod
    if isinstance(x, SArr):
        return any(getattr(k, "__dv_array_type__", False) for k in cl)
    if isinstance(x, (SList,)):
        return list in cl
    if isinstance(x, SymSeq):
        return tuple in cl or list in cl
    if hasattr(x, "__dv_isinstance__"):
        r = [x.__dv_isinstance__(k) for k in cl]
        if any(v is True for v in r):
            return True
    flat = []
    for k in cl:
        try:
            if isinstance(x, k):
                return True
        except TypeError:
            pass
    return False


def dv_int(x=0, *a):
    if hasattr(x, "__dv_int__"):
        return x.__dv_int__()
    if isinstance(x, S):
        return trunc(x)
    if hasattr(x, "__dv_scalar__"):
        return trunc(x.__dv_scalar__())
    return int(x, *a)


def dv_float(x=0.0):
    if isinstance(x, S):
        return wrap(to_real(x.t)) if not isinstance(x, SReal) else x
    if hasattr(x, "__dv_scalar__"):
        return dv_float(x.__dv_scalar__())
    return float(x)


def dv_str(x="", *a):
    from .files import SymStr, make
    if isinstance(x, SymStr) or isinstance(x, SObj) and str(x.t.sort()) == "Path":
        return x
    if isinstance(x, SInt):
        return make([x])
    return str(x, *a)


def dv_bool(x=False):
    if isinstance(x, SBool):
        return x
    return bool(x)


def dv_list(x=()):
    s = as_seq(x)
    if isinstance(s, SymSeq):
        return SList(s)
    return list(s)


def dv_tuple(x=()):
    s = as_seq(x)
    return s if isinstance(s, SymSeq) else tuple(s)


def dv_set(x=()):
    out = []
    for v in x:
        if not any(bool(v == u) if type(u) is type(v) or isinstance(u, str) else False for u in out):
            out.append(v)
    return SetList(out) if any(isinstance(v, S) for v in out) else set(out)


class SetList(list):
    """A set of symbolic values, in unspecified order."""

    def __iter__(self):
        if ctx() is not None and ctx().ghost.get("set_order") == "reversed":
            return list.__reversed__(self)
        return list.__iter__(self)


def dv_all(it):
    s = as_seq(it)
    if isinstance(s, SymSeq):
        i = fresh_int("q")
        with scope(i):
            ctx().assume(and_(i >= 0, i < s.n))
            p = core.tbool(s.get(i))
        if p is True:
            return True
        if p is False:
            return wrap(lift(s.n) <= 0)
        return SBool(z3.ForAll([i.t], z3.Implies(z3.And(i.t >= 0, i.t < lift(s.n)), p)))
    for x in s:
        if not x:
            return False
    return True


def dv_any(it):
    s = as_seq(it)
    if isinstance(s, SymSeq):
        i = fresh_int("q")
        with scope(i):
            ctx().assume(and_(i >= 0, i < s.n))
            p = core.tbool(s.get(i))
        if p is False:
            return False
        if p is True:
            return wrap(lift(s.n) > 0)
        return SBool(z3.Exists([i.t], z3.And(i.t >= 0, i.t < lift(s.n), p)))
    for x in s:
        if x:
            return True
    return False


def _ext(args, key, better):
    if len(args) == 1:
        s = as_seq(args[0])
        if isinstance(s, SymSeq):
            return ext_symbolic(s, better) if key is None else unsup("max/min of a symbolic sequence by key")
        args = list(s)
        if not args:
            raise ValueError("empty sequence")
    r = args[0]
    for x in args[1:]:
        if key is None and any(isinstance(v, S) or hasattr(v, "__dv_scalar__") for v in (x, r)):
            c = better(x, r)
            inf = any(isinstance(v, float) and v in (INF, -INF) for v in (x, r))
            if inf or lift(x) is None or lift(r) is None:
                r = x if bool(c) else r
            else:
                r = if_(c, x, r)
        else:
            kx, kr = (key(x), key(r)) if key else (x, r)
            r = x if bool(better(kx, kr)) else r
    return r


def ext_symbolic(s, better):
    """Maximum (minimum) of a symbolic sequence of numbers: an element, and none is better."""
    if not (s.n > 0):
        raise ValueError("max() iterable argument is empty")
    c = ctx()
    w = SInt(z3.Int(c.fresh("extremum_at")))
    c.assume(and_(w >= 0, w < s.n))
    m = s.get(w)
    if lift(m) is None:
        unsup("max/min of a symbolic sequence of objects")
    k = SInt(z3.Int(c.fresh("any")))
    with scope(k):
        c.assume(and_(k >= 0, k < s.n))
        e = s.get(k)
        fact = not_(better(e, m))
    c.assume(SBool(z3.ForAll([k.t], z3.Implies(z3.And(k.t >= 0, k.t < lift(s.n)), lift(fact)))))
    return m


def dv_max(*a, key=None, default=None):
    return _ext(a, key, lambda x, y: x > y)


def dv_min(*a, key=None, default=None):
    return _ext(a, key, lambda x, y: x < y)


def dv_sum(it, start=0):
    s = as_seq(it)
    if isinstance(s, SymSeq):
        unsup("sum of a symbolic sequence")
    r = start
    for x in s:
        r = r + x
    return r


def dv_zip(*its, strict=False):
    ss = [as_seq(x) for x in its]
    if any(isinstance(s, SymSeq) for s in ss):
        ns = [s.n if isinstance(s, SymSeq) else len(s) for s in ss]
        n = ns[0]
        for m in ns[1:]:
            if not same(n, m):
                n = if_(m < n, m, n)
        qs = [s if isinstance(s, SymSeq) else from_list(s) for s in ss]
        return SymSeq(n, lambda i: tuple(q.get(i) for q in qs))
    return zip(*ss)


def dv_enumerate(it, start=0):
    s = as_seq(it)
    if isinstance(s, SymSeq):
        return SymSeq(s.n, lambda i: (i + start if start else i, s.get(i)))
    return enumerate(s, start)


class SymIter:
    """iter(seq) of a symbolic sequence: the elements from the current position on."""

    def __init__(self, seq):
        self.seq, self.at = seq, 0

    def __iter__(self):
        return self

    def __next__(self):
        if bool(self.seq.n <= self.at):
            raise StopIteration
        self.at += 1
        return self.seq.get(self.at - 1)

    def __dv_seq__(self):
        unsup("an iterator over a symbolic sequence")


def dv_iter(it, *sentinel):
    s = it if sentinel or isinstance(it, SymIter) else as_seq(it)
    if isinstance(s, SymSeq) and not isinstance(s.n, int):
        return SymIter(s)
    return iter(it, *sentinel)


def dv_reversed(it):
    s = as_seq(it)
    if isinstance(s, SymSeq):
        return SymSeq(s.n, lambda i: s.get(s.n - 1 - i))
    return reversed(list(s))


def dv_sorted(it, key=None, reverse=False):
    s = as_seq(it)
    if hasattr(s, "__dv_sorted__") and key is None and not reverse:
        return SList(s.__dv_sorted__())
    if isinstance(s, SymSeq) or hasattr(s, "__dv_sorted__"):
        unsup("sorted of a symbolic sequence")
    s = list(s)
    if any(isinstance(x, SObj) for x in s):
        return SortedList(sorted(s, key=lambda x: str(x.t)))
    return sorted(s, key=key, reverse=reverse)


class SortedList(list):
    """Sorted list of opaque strings: order unspecified but deterministic."""


def dv_divmod(a, b):
    if isinstance(a, S) or isinstance(b, S):
        return int_divmod(a, b)
    return divmod(a, b)


def dv_map(f, *its):
    if len(its) == 1:
        s = as_seq(its[0])
        if isinstance(s, SymSeq):
            return SymSeq(s.n, lambda i: f(s.get(i)))
        return map(f, s)
    return map(f, *its)


def dv_abs(x):
    return abs(x)


def dv_round(x, n=None):
    if isinstance(x, S):
        unsup("round")
    return round(x) if n is None else round(x, n)


def dv_print(*a, **k):
    pass


def dv_input(prompt=""):
    f = ctx().ghost.get("input") if ctx() else None
    return f(prompt) if f else unsup("input")


def dv_open(path, *a, **k):
    f = ctx().ghost.get("open") if ctx() else None
    return f(path, *a, **k) if f else unsup("open")


BUILTINS = dict(len=dv_len, range=dv_range, isinstance=dv_isinstance, all=dv_all, any=dv_any,
                max=dv_max, min=dv_min, sum=dv_sum, zip=dv_zip, enumerate=dv_enumerate, iter=dv_iter,
                reversed=dv_reversed, sorted=dv_sorted, divmod=dv_divmod, map=dv_map,
                abs=dv_abs, round=dv_round, print=dv_print, input=dv_input, open=dv_open)
TYPE_CALLS = dict(int=dv_int, float=dv_float, bool=dv_bool, list=dv_list, tuple=dv_tuple, set=dv_set, str=dv_str)
