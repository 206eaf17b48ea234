"""Contract stubs and specification functions shared by the properties."""
from dv.api import *


def contains(t, ids, memo):
    k = t.get_id()
    if k not in memo:
        memo[k] = k in ids or any(contains(c, ids, memo) for c in t.children())
    return memo[k]


def resolved(e):
    """e with the conditions and the constants that the path condition determines put in."""
    c = ctx()
    sub, seen, todo = [], set(), [e]
    conds, consts = [], []
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            conds.append(t.arg(0))
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(t):
            consts.append(t)
        todo += t.children()
    for b in conds:
        if c.check(SBool(b)):
            sub.append((b, z3.BoolVal(True)))
        elif c.check(SBool(z3.Not(b))):
            sub.append((b, z3.BoolVal(False)))
    e = z3.substitute(e, *sub) if sub else e
    sub = [(t, z3.IntVal(v)) for t in consts for v in (0, 1) if c.check(SBool(t == v))]
    return z3.simplify(z3.substitute(e, *sub) if sub else e)


class SpecFn:
    """A pure function of (array, coordinates), known only through its contract.

    Two applications on arrays with the same elements and equal coordinates are
    equal.  The array is identified by its element term at placeholder indices:
    its structure, with the index-free parts as parameters.
    """

    def __init__(self, name, ndim):
        self.name, self.ndim = name, ndim
        self.calls = 0
        self.skels = {}
        self.fns = {}

    def value(self, image, *coords):
        if not isinstance(image, SArr) or image.ndim != self.ndim:
            unsup(f"{self.name}: image of another rank")
        ph = [z3.Int(f"{self.name}_ph{k}") for k in range(self.ndim)]
        with scope(*[SInt(p) for p in ph]):
            for p, d in zip(ph, image.shape):
                assume(and_(SInt(p) >= 0, SInt(p) < d))
            e = lift(image.fn(*[SInt(p) for p in ph]))
        e = z3.simplify(to_real(e))
        ids = {p.get_id() for p in ph}
        sk, params = self.skeleton(e, ids)
        c = ctx()
        reg = c.ghost.setdefault("specfn_skels", {}).setdefault(self.name, {})
        if sk not in reg and reg:
            # built differently: what the path condition decides is resolved before it counts as another image
            with scope(*[SInt(p) for p in ph]):
                for p, d in zip(ph, image.shape):
                    assume(and_(SInt(p) >= 0, SInt(p) < d))
                sk2, params2 = self.skeleton(resolved(e), ids)
            if sk2 in reg:
                sk, params = sk2, params2
        params = params + [lift(d) for d in image.shape]
        c = ctx()
        if sk not in reg:
            f = z3.Function(f"{self.name}@{len(reg)}", *[p.sort() for p in params],
                            *([z3.RealSort()] * len(coords)), z3.RealSort())
            if reg:
                # structurally different images: equality between them is not visible
                c.approx = c.approx or f"{self.name} applied to differently built arrays"
            reg[sk] = f
        return wrap(reg[sk](*params, *[to_real(lift(x)) for x in coords]))

    @staticmethod
    def skeleton(e, ids):
        """The structure of an element term, and its parts that do not depend on the index."""
        memo, params = {}, []

        def skel(t, arg=False):
            if t.get_id() in ids:
                return ("ph", t.decl().name())
            if not contains(t, ids, memo):
                if not arg and (z3.is_int_value(t) or z3.is_rational_value(t)):
                    return ("num", str(t))
                params.append(t)
                return ("par", str(t.sort()))
            uf = t.decl().kind() == z3.Z3_OP_UNINTERPRETED  # an index of an array is a parameter, a number too
            return (t.decl().name(), str(t.decl().kind()), tuple(skel(c, uf) for c in t.children()))
        return skel(e), params

    def __call__(self, image, *coords):
        self.calls += 1
        return A.ew(lambda *xs: self.value(image, *xs), *coords, kind="f")


def stub_bilinear(L):
    U = L.load("synthpix.utils")
    B = SpecFn("bilinear", 2)
    f = lambda image, x_f, y_f: B(image, x_f, y_f)
    L.load("synthpix")
    L.replace(U.bilinear_interpolate, f)
    return B


def stub_trilinear(L):
    U = L.load("synthpix.utils")
    T = SpecFn("trilinear", 3)
    f = lambda volume, x, y, z: T(volume, x, y, z)
    L.load("synthpix")
    L.replace(U.trilinear_interpolate, f)
    return T


def clip_(v, lo, hi):
    return if_(v < lo, lo, if_(v > hi, hi, v))


class Atom:
    """An arbitrary value: nothing is known about it, not even whether it is true."""

    def __init__(self, name):
        self.name, self.b = name, None

    def __bool__(self):
        if self.b is None:
            self.b = z3.Bool("truth_" + self.name)
        return ctx().branch(self.b)

    def __eq__(self, o):
        if self is o:
            return True
        if o is None:
            return False
        unsup("comparison of an opaque value")

    __hash__ = object.__hash__

    def __repr__(self):
        return self.name
