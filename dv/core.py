"""dv core: path-exploring symbolic evaluation and obligation discharge.

The code under verification runs under CPython on proxy values holding z3
terms.  Control flow that depends on a proxy forks the path (by re-execution
with a decision prefix); obligations are checked by z3 under the path condition.
Floating point is treated as real arithmetic.
"""
import linecache
import sys
import time
from fractions import Fraction

import z3

Z = z3
CUR = None  # current Ctx


class Stop(BaseException):
    """Engine control: not catchable by the verified code's `except Exception`."""


class PathEnd(Stop):
    """The path is infeasible, or ends at a loop cut."""


class Unsupported(Stop):
    """The code does something the engine does not model."""


class Limit(Stop):
    """Budget exhausted."""


def ctx():
    return CUR


def unsup(msg):
    raise Unsupported(msg)


# ---------------------------------------------------------------- contexts
class Result:
    def __init__(self, name, status, path=0, secs=0.0, backend="z3", info=""):
        self.name, self.status, self.path = name, status, path
        self.secs, self.backend, self.info = secs, backend, info
        self.model = None
        self.approx = False
        self.values = None
        self.smt2 = None


class Ctx:
    def __init__(self, prefix, session):
        self.prefix = list(prefix)
        self.taken = []
        self.pending = []  # alternative prefixes
        self.session = session
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", session.branch_ms)
        self.n = 0
        self.approx = None  # reason, when the state over-approximates
        self.ghost = {}
        self.inputs = {}  # name -> term, for counterexamples
        self.calls = []
        self.axioms = {}  # decl name -> fn(app term) -> facts, instantiated lazily
        self.inst_seen = set()
        self.keep = []  # terms whose ids are in inst_seen (ids must not be reused)
        self.traced = 0
        self.memo = {}
        self.lazy = []  # quantified facts, used when proving but not when branching
        self.generic = set()  # ids of constants standing for every index at once
        self.ver = self.vers = 0

    # -- terms
    def fresh(self, base):
        self.n += 1
        return f"{base}!{self.n}"

    def assume(self, b):
        b = tbool(b)
        if b is True:
            return
        if b is False:
            raise PathEnd()
        self.add(b)
        self.instantiate(b)

    def add(self, b):
        self.pc.append(b)
        self.solver.add(b)
        self.vers += 1
        self.ver = self.vers

    def assume_lazily(self, b):
        """A fact that only obligations may use: branching without it explores at least the feasible paths."""
        self.lazy.append(b)
        self.vers += 1
        self.ver = self.vers

    def axiom(self, decl, fn):
        """Facts about every application of decl that occurs in a query (instantiated on demand)."""
        self.axioms[decl.name()] = fn

    def instantiate(self, *terms):
        if not self.axioms:
            return
        work = list(terms)
        while work:
            t = work.pop()
            if not z3.is_expr(t) or t.get_id() in self.inst_seen:
                continue
            self.inst_seen.add(t.get_id())
            self.keep.append(t)
            if z3.is_quantifier(t):
                work.append(t.body())
                continue
            if not z3.is_app(t):
                continue
            work.extend(t.children())
            f = self.axioms.get(t.decl().name())
            if f is not None and not has_var(t):
                for b in f(t):
                    b = tbool(b)
                    if b is True:
                        continue
                    if b is False:
                        raise PathEnd()
                    self.add(b)
                    work.append(b)

    def feasible(self, *bs):
        r = self.solver.check(*bs)
        return r != z3.unsat

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        self.instantiate(t)
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            if time.time() > self.session.deadline:
                raise Limit("time")
            can_t = self.feasible(t)
            can_f = self.feasible(z3.Not(t))
            if can_t and can_f:
                if self.generic and mentions(t, self.generic):
                    raise Unsupported("control flow that depends on a generic element")
                v = True
                self.pending.append(self.taken + [False])
            elif can_t:
                v = True
            elif can_f:
                v = False
            else:
                raise PathEnd()
        self.taken.append(v)
        self.add(t if v else z3.Not(t))
        return v

    def choose(self, n, label="choice"):
        """Non-deterministic choice among n alternatives (all explored)."""
        for k in range(n - 1):
            if self.branch(z3.Bool(self.fresh(label))):
                return k
        return n - 1

    # -- obligations
    def prove(self, goal, name, hints=(), quiet=False):
        t0 = time.time()
        goal = tbool(goal)
        if goal is True:
            r = Result(name, "ok", backend="trivial")
        elif goal is False:
            # holds only if the path itself is infeasible
            chk = self.solver.check(*self.lazy)
            r = Result(name, "refuted" if chk == z3.sat else "ok" if chk == z3.unsat else "unknown")
            if chk == z3.sat:
                r.model = self.solver.model()
        else:
            self.instantiate(goal)
            r = discharge(self, goal, name, hints)
        r.secs = time.time() - t0
        r.path = self.session.path_id
        r.approx = self.approx
        if r.status == "refuted" and r.model is not None:
            vals = {}
            for k, v in self.inputs.items():
                try:
                    vals[k] = str(r.model.eval(v, model_completion=True))
                except Exception:
                    pass
            r.values = vals
            r.info = (r.info + " " + "; ".join(f"{k}={v}" for k, v in vals.items()))[:1500]
            if z3.is_expr(goal):
                r.info += " | goal: " + str(z3.simplify(goal))[:600]
        if not quiet:
            self.session.results.append(r)
            if self.session.keep_smt and goal is not True and goal is not False:
                s = z3.Solver()
                s.add(*self.pc)
                s.add(*self.lazy)
                s.add(z3.Not(goal))
                r.smt2 = s.to_smt2()
        if r.status == "ok" and goal is not True and not quiet:
            self.assume(goal)
        return r.status == "ok"

    def prove_from(self, facts, goal, name, quiet=False):
        """The goal follows from facts that hold here, nothing else being given to the solver."""
        t0 = time.time()
        goal, facts = tbool(goal), [tbool(f) for f in facts]
        if all(self.check(SBool(f)) if z3.is_expr(f) else f is True for f in facts):
            s = z3.Solver()
            s.set("timeout", self.session.branch_ms * 4)
            s.add(*[f for f in facts if z3.is_expr(f)])
            if goal is True or z3.is_expr(goal) and s.check(z3.Not(goal)) == z3.unsat:
                if not quiet:
                    r = Result(name, "ok")
                    r.secs, r.path, r.approx = time.time() - t0, self.session.path_id, self.approx
                    if self.session.keep_smt and z3.is_expr(goal):
                        q = z3.Solver()
                        q.add(*[f for f in facts if z3.is_expr(f)])
                        q.add(z3.Not(goal))
                        r.smt2 = q.to_smt2()
                    self.session.results.append(r)
                return True
        return False if quiet else self.prove(goal, name)

    def check(self, goal):
        """Is the goal valid here? (no obligation recorded)"""
        goal = tbool(goal)
        if goal is True or goal is False:
            return goal
        self.instantiate(goal)
        key = (goal.get_id(), self.ver)
        hit = self.memo.get(key)
        if hit is None:
            hit = self.solver.check(z3.Not(goal)) == z3.unsat
            self.memo[key] = hit
            self.keep.append(goal)
        return hit

    def input(self, name, term):
        self.inputs[name] = term
        return term


def mentions(t, ids):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in ids:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def has_var(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_app(x):
            st.extend(x.children())
    return False


class Session:
    """One harness: explores every path of fn and collects obligations."""

    def __init__(self, name, seconds=40.0, branch_ms=1500, prove_ms=6000,
                 max_paths=3000, keep_smt=False):
        self.name = name
        self.deadline = time.time() + seconds
        self.branch_ms, self.prove_ms = branch_ms, prove_ms
        self.max_paths = max_paths
        self.results = []
        self.errors = []  # (kind, text)
        self.paths = 0
        self.completed = 0  # paths that reached their end with sat pc
        self.path_id = 0
        self.keep_smt = keep_smt
        self.notes = set()
        self.bounded = set()

    def run(self, fn):
        global CUR
        work = [[]]
        while work:
            if self.paths >= self.max_paths:
                self.errors.append(("limit", "too many paths"))
                break
            if time.time() > self.deadline:
                self.errors.append(("limit", "time"))
                break
            prefix = work.pop()
            self.paths += 1
            self.path_id = self.paths
            c = Ctx(prefix, self)
            CUR = c
            try:
                fn()
                if c.solver.check() != z3.unsat:
                    self.completed += 1
            except PathEnd:
                pass
            except Unsupported as e:
                self.errors.append(("unsupported", where(e)))
            except Limit as e:
                self.errors.append(("limit", str(e)))
                break
            except RecursionError as e:
                self.errors.append(("unsupported", "recursion"))
            except Exception as e:
                if c.solver.check(*c.lazy) != z3.unsat:
                    self.errors.append(("exception", where(e)))
            finally:
                CUR = None
            work.extend(c.pending)
        return self


def accident(e):
    """A TypeError or AttributeError that no raise statement asked for: the engine may not model what the code does."""
    if isinstance(e, z3.Z3Exception) or type(e).__name__ == "ArgumentError":
        return True
    if not isinstance(e, (TypeError, AttributeError)):
        return False
    tb = e.__traceback__
    if tb is None:
        return False
    if isinstance(e, AttributeError) and (e.obj is None or type(e.obj).__module__.split(".")[0] == "synthpix"):
        return False
    while tb.tb_next is not None:
        tb = tb.tb_next
    return not linecache.getline(tb.tb_frame.f_code.co_filename, tb.tb_lineno).strip().startswith("raise")


def caught(e):
    """Called when the code under verification (or a harness) handles an exception."""
    if CUR is not None and accident(e):
        raise Unsupported(where(e)) from e


def where(e):
    tb = e.__traceback__
    last = ""
    while tb is not None:
        f = tb.tb_frame.f_code
        if "synthpix" in f.co_filename or "contracts" in f.co_filename:
            last = f"{f.co_filename.split('/')[-1]}:{tb.tb_lineno}({f.co_name})"
        tb = tb.tb_next
    return f"{type(e).__name__}: {e} at {last}"


# ---------------------------------------------------------------- discharge
def discharge(c, goal, name, hints=()):
    s = c.solver
    s.set("timeout", c.session.prove_ms)
    try:
        if z3.is_and(goal) and goal.num_args() > 1:
            # conjunctions are split: smaller queries
            last = None
            for ch in goal.children():
                last = discharge(c, ch, name, hints)
                if last.status != "ok":
                    return last
            return last
        if z3.is_eq(goal) and not z3.is_bool(goal.arg(0)):
            from . import canon
            if z3.is_int(goal.arg(0)):
                s.set("timeout", 300)
                if s.check(*c.lazy, z3.Not(goal)) == z3.unsat:
                    return Result(name, "ok", backend="z3")
            ok, case = canon.equal(c, goal.arg(0), goal.arg(1), deadline=time.time() + c.session.prove_ms / 500)
            if ok:
                return Result(name, "ok", backend="z3+canonical forms")
            # the case left open, first
            s.set("timeout", c.session.prove_ms)
            if case:
                s.push()
                s.add(*case)
                r = s.check(*c.lazy, z3.Not(goal))
                m = s.model() if r == z3.sat else None
                s.pop()
                if r == z3.sat:
                    x = Result(name, "refuted")
                    x.model = m
                    return x
        s.set("timeout", c.session.prove_ms)
        r = s.check(*c.lazy, z3.Not(goal))
        if r == z3.unsat:
            return Result(name, "ok", backend="z3")
        if r == z3.sat:
            x = Result(name, "refuted")
            x.model = s.model()
            return x
        # a fresh solver often behaves better than the incremental one
        s2 = z3.Solver()
        s2.set("timeout", c.session.prove_ms)
        s2.add(*[z3.simplify(p) for p in c.pc])
        s2.add(*c.lazy)
        s2.add(z3.simplify(z3.Not(goal)))
        r = s2.check()
        if r == z3.unsat:
            return Result(name, "ok", backend="z3")
        if r == z3.sat:
            x = Result(name, "refuted")
            x.model = s2.model()
            return x
        return Result(name, "unknown", info=str(z3.simplify(goal))[:400])
    finally:
        s.set("timeout", c.session.branch_ms)


# ---------------------------------------------------------------- values
def real_of_float(f):
    if f != f or f in (float("inf"), float("-inf")):
        unsup(f"non-finite constant {f}")
    return z3.RealVal(str(Fraction(repr(f)) if "e" not in repr(f) else Fraction(repr(f))))


def lift(x):
    """Python or proxy value -> z3 arithmetic/bool term."""
    if isinstance(x, S):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return real_of_float(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if z3.is_expr(x):
        return x
    if hasattr(x, "__dv_scalar__"):
        return lift(x.__dv_scalar__())
    if type(x).__module__ == "numpy":
        return lift(x.item())
    return None


def num(t):
    """As arithmetic term (booleans become 0/1)."""
    if z3.is_bool(t):
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def tbool(b):
    if isinstance(b, bool):
        return b
    t = lift(b)
    if t is None:
        return bool(b)
    if not z3.is_bool(t):
        t = t != 0
    t2 = z3.simplify(t)
    if z3.is_true(t2):
        return True
    if z3.is_false(t2):
        return False
    return t


def wrap(t):
    """z3 term -> python constant or proxy."""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_bool(t):
        return SBool(t)
    if z3.is_int(t):
        return SInt(t)
    if z3.is_real(t):
        return SReal(t)
    return SObj(t)


def both(a, b):
    a, b = num(a), num(b)
    if z3.is_int(a) and z3.is_real(b):
        a = z3.ToReal(a)
    elif z3.is_real(a) and z3.is_int(b):
        b = z3.ToReal(b)
    return a, b


def to_real(t):
    t = num(t)
    return z3.ToReal(t) if z3.is_int(t) else t


def if_(c, a, b):
    """Conditional on proxies/constants."""
    c = tbool(c)
    if c is True:
        return a
    if c is False:
        return b
    ta, tb = lift(a), lift(b)
    if ta is None or tb is None:
        unsup("conditional on non-scalars")
    if ta.sort() != tb.sort():
        ta, tb = both(ta, tb)
    return wrap(z3.If(c, ta, tb))


def floor_t(t):
    t = num(t)
    return t if z3.is_int(t) else z3.ToInt(t)


class S:
    __slots__ = ("t", "meta")
    __hash__ = None

    def __init__(self, t, meta=None):
        self.t = t
        self.meta = meta

    def __repr__(self):
        return f"<{z3.simplify(self.t)}>"

    def __str__(self):
        return f"<{str(self.t)[:80]}>"

    def __format__(self, spec):
        return str(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SObj(S):
    """Value of an uninterpreted sort: only equality."""
    __slots__ = ()

    def __eq__(self, o):
        t = lift(o) if not isinstance(o, str) else None
        if t is None or t.sort() != self.t.sort():
            return False
        return wrap(z3.simplify(self.t == t))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else wrap(z3.Not(r.t))

    def __hash__(self):
        return 7  # equality decides (forking)

    def endswith(self, suf):
        if isinstance(suf, tuple):
            return or_(*[self.endswith(x) for x in suf])
        return wrap(z3.Function(f"endswith {suf}", self.t.sort(), z3.BoolSort())(self.t))


class SBool(S):
    __slots__ = ()

    def __bool__(self):
        return ctx().branch(self.t)

    def __and__(self, o):
        return SBool_op(z3.And, self, o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return SBool_op(z3.Or, self, o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return SBool_op(z3.Xor, self, o, lambda a, b: a ^ b)

    def __invert__(self):
        return wrap(z3.Not(self.t))

    def __eq__(self, o):
        t = lift(o)
        if t is None:
            return NotImplemented
        if z3.is_bool(t):
            return wrap(z3.simplify(self.t == t))
        return wrap(num(self.t) == t)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else wrap(z3.Not(r.t))

    def __hash__(self):
        unsup("hash of symbolic bool")

    def _n(self):
        return wrap(num(self.t))

    def __add__(self, o): return self._n() + o
    def __radd__(self, o): return o + self._n()
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __mul__(self, o): return self._n() * o
    def __rmul__(self, o): return o * self._n()
    def astype(self, d): return cast(self, d)
    def item(self): return self


def SBool_op(f, a, b, arr):
    t = lift(b)
    if t is None:
        return NotImplemented
    if not z3.is_bool(t):
        unsup("bitwise op on non-booleans")
    return wrap(z3.simplify(f(a.t, t)))


def _arr(o):
    return hasattr(o, "__dv_array__")


def binop(name, f):
    def op(self, o):
        if _arr(o):
            return NotImplemented
        t = lift(o)
        if t is None:
            return NotImplemented
        return f(self, t)

    def rop(self, o):
        if _arr(o):
            return NotImplemented
        t = lift(o)
        if t is None:
            return NotImplemented
        return f(wrap_s(t), self.t)
    return op, rop


def wrap_s(t):
    """Like wrap, but always a proxy."""
    if z3.is_bool(t):
        return SBool(t)
    return SInt(t) if z3.is_int(t) else SReal(t)


def _add(a, t):
    x, y = both(a.t, t)
    return wrap(fold(x + y))


def _sub(a, t):
    x, y = both(a.t, t)
    return wrap(fold(x - y))


def _mul(a, t):
    x, y = both(a.t, t)
    for p, q in ((x, y), (y, x)):
        if z3.is_int_value(p) or z3.is_rational_value(p):
            v = p.as_fraction() if z3.is_rational_value(p) and not z3.is_int_value(p) else p.as_long()
            if v == 1:
                return wrap(q)
            if v == 0:
                return wrap(p)
    # boolean factors: b*x == If(b, x, 0) keeps things linear
    for p, q in ((a.t, t), (t, a.t)):
        b = as_bool_num(p)
        if b is not None:
            q = num(q)
            zero = z3.IntVal(0) if z3.is_int(q) else z3.RealVal(0)
            return wrap(z3.If(b, q, zero))
    r = wrap(fold(x * y))
    if isinstance(r, SInt):
        fa = a.meta.get("factors", (a,)) if a.meta else (a,)
        r.meta = {"factors": tuple(fa) + (wrap(t),)}
    return r


def as_bool_num(t):
    if z3.is_bool(t):
        return t
    if z3.is_to_real(t):
        t = t.arg(0)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        u, v = t.arg(1), t.arg(2)
        if (z3.is_int_value(u) or z3.is_rational_value(u)) and (z3.is_int_value(v) or z3.is_rational_value(v)):
            if str(u) == "1" and str(v) == "0":
                return t.arg(0)
    return None


def fold(t):
    """Constant folding only (keeps terms readable)."""
    if all(z3.is_int_value(c) or z3.is_rational_value(c) for c in t.children()):
        return z3.simplify(t)
    return t


def check_nonzero(d):
    c = ctx()
    if c is None:
        return
    if z3.is_int_value(d) or z3.is_rational_value(d):
        if (d.as_long() if z3.is_int_value(d) else d.as_fraction()) == 0:
            raise ZeroDivisionError("division by zero")
        return
    if not c.session.jax_division and not c.traced:
        if wrap(d == 0):
            raise ZeroDivisionError("division by zero")


Session.jax_division = False


def _truediv(a, t):
    x, y = to_real(a.t), to_real(t)
    check_nonzero(y)
    if z3.is_rational_value(x) and z3.is_rational_value(y):
        return wrap(z3.simplify(x / y))
    return wrap(x / y)


def _floordiv(a, t):
    x, y = both(a.t, t)
    check_nonzero(y)
    if z3.is_int(x):
        return int_divmod(a, wrap(y))[0]
    return wrap(z3.ToReal(z3.ToInt(x / y)))


def _mod(a, t):
    x, y = both(a.t, t)
    check_nonzero(y)
    if z3.is_int(x):
        return int_divmod(a, wrap(y))[1]
    return wrap(x - y * z3.ToReal(z3.ToInt(x / y)))


def int_divmod(a, b):
    """Python floor divmod on ints; structured when a is a flat index over a shape."""
    if isinstance(a, int) and isinstance(b, int):
        return divmod(a, b)
    a = a if isinstance(a, S) else SInt(z3.IntVal(a))
    if a.meta and "flat" in a.meta:
        dims, idx = a.meta["flat"]
        if len(dims) == 2:
            if same(dims[1], b):
                return idx[0], idx[1]
    tb = lift(b)
    c = ctx()
    if z3.is_int_value(tb):
        if tb.as_long() > 0:
            return wrap(fold(a.t / tb)), wrap(fold(a.t % tb))
    elif not c.check(tb > 0):
        unsup("floor division by a possibly non-positive symbolic divisor")
    q, r = a.t / tb, a.t % tb
    # Euclid, for the solver
    f = z3.And(a.t == tb * q + r, r >= 0, r < tb)
    if f.get_id() not in c.inst_seen:
        c.inst_seen.add(f.get_id())
        c.keep.append(f)
        c.add(f)
    return wrap(q), wrap(r)


def same(a, b):
    ta, tb = lift(a), lift(b)
    if ta is None or tb is None:
        return a is b
    if ta.eq(tb):
        return True
    t = z3.simplify(ta == tb)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return ctx().check(t)


def _pow(a, t):
    if z3.is_int_value(t) or (z3.is_rational_value(t) and t.as_fraction().denominator == 1):
        n = int(str(t)) if z3.is_int_value(t) else t.as_fraction().numerator
        if 0 <= n <= 6:
            r = 1
            for _ in range(n):
                r = a * r
            return r
    unsup("power")


def cmpop(f):
    def op(self, o):
        if _arr(o):
            return NotImplemented
        t = lift(o)
        if t is None:
            if isinstance(o, float):
                pass
            return NotImplemented
        x, y = both(self.t, t)
        return wrap(z3.simplify(f(x, y)))
    return op


INF = float("inf")


def _cmp_inf(self, o, kind):
    """Comparisons against infinities (all symbolic numbers are finite)."""
    if isinstance(o, float) and o in (INF, -INF):
        pos = o == INF
        return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos, "eq": False, "ne": True}[kind]
    return None


class SNum(S):
    __slots__ = ()
    __add__, __radd__ = binop("add", _add)
    __sub__, __rsub__ = binop("sub", _sub)
    __mul__, _rmul = binop("mul", _mul)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)) and len(o) == 1:
            from .seqs import SList, SymSeq
            r = SymSeq(self if ctx().check(self.t >= 0) else if_(self >= 0, self, 0), lambda i: o[0])
            return SList(r) if isinstance(o, list) else r
        return self._rmul(o)

    __truediv__, __rtruediv__ = binop("truediv", _truediv)
    __floordiv__, __rfloordiv__ = binop("floordiv", _floordiv)
    __mod__, __rmod__ = binop("mod", _mod)
    __pow__, __rpow__ = binop("pow", _pow)

    def __and__(self, o):
        # with the low bits (integers of any sign)
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0 and o & (o + 1) == 0 and z3.is_int(self.t):
            return self % (o + 1)
        return NotImplemented

    __rand__ = __and__

    def __lshift__(self, o):
        return self * 2 ** o if isinstance(o, int) and not isinstance(o, bool) and z3.is_int(self.t) else NotImplemented

    def __rshift__(self, o):
        return self // 2 ** o if isinstance(o, int) and not isinstance(o, bool) and z3.is_int(self.t) else NotImplemented

    def _c(self, o, kind, f):
        r = _cmp_inf(self, o, kind)
        if r is not None:
            return r
        return cmpop(f)(self, o)

    def __lt__(self, o): return self._c(o, "lt", lambda x, y: x < y)
    def __le__(self, o): return self._c(o, "le", lambda x, y: x <= y)
    def __gt__(self, o): return self._c(o, "gt", lambda x, y: x > y)
    def __ge__(self, o): return self._c(o, "ge", lambda x, y: x >= y)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._c(o, "eq", lambda x, y: x == y)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._c(o, "ne", lambda x, y: x != y)

    def __hash__(self):
        unsup("hash of a symbolic number")

    def __neg__(self):
        return wrap(fold(-self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return if_(wrap(self.t >= 0), self, wrap(-self.t))

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __divmod__(self, o):
        return int_divmod(self, o)

    def __rdivmod__(self, o):
        return int_divmod(o, self)

    def __round__(self, n=None):
        unsup("round")

    shape = ()
    ndim = 0

    def astype(self, d):
        return cast(self, d)

    def item(self):
        return self

    def reshape(self, *a):
        unsup("reshape of scalar")

    def block_until_ready(self):
        return self


class SInt(SNum):
    __slots__ = ()

    def __index__(self):
        unsup("a symbolic integer used where a concrete one is needed")

    def __int__(self):
        unsup("int() of a symbolic integer outside the rewritten code")


class SReal(SNum):
    __slots__ = ()

    def __float__(self):
        unsup("float() of a symbolic real outside the rewritten code")


def trunc(x):
    """Python int() of a number."""
    if isinstance(x, S):
        t = num(x.t)
        if z3.is_int(t):
            return wrap(t) if not isinstance(x, SInt) else x
        c = ctx()
        if c.check(t >= 0):
            return wrap(z3.ToInt(t))
        return wrap(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    return int(x)


def cast(x, dtype):
    """numpy/jax astype for scalars."""
    k = dtype_kind(dtype)
    t = lift(x)
    if k == "i":
        t = num(t)
        if z3.is_real(t):
            # truncation toward zero
            if z3.is_to_real(t):
                return wrap(t.arg(0))
            return wrap(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
        return wrap(t)
    if k == "f":
        return wrap(to_real(t))
    if k == "b":
        return wrap(t if z3.is_bool(t) else t != 0)
    return x


def dtype_kind(d):
    if d is None:
        return None
    if d in (int,):
        return "i"
    if d in (float,):
        return "f"
    if d in (bool,):
        return "b"
    s = getattr(d, "kind", None)
    if s:
        return s
    s = str(d)
    if "uint" in s or "int" in s:
        return "i"
    if "float" in s:
        return "f"
    if "bool" in s:
        return "b"
    unsup(f"dtype {d}")


# ---------------------------------------------------------------- inputs
def Int(name, lo=None, hi=None):
    c = ctx()
    t = z3.Int(name)
    c.inputs[name] = t
    if lo is not None:
        c.assume(t >= lift(lo))
    if hi is not None:
        c.assume(t < lift(hi))
    return SInt(t)


def Real(name, lo=None, hi=None):
    c = ctx()
    t = z3.Real(name)
    c.inputs[name] = t
    if lo is not None:
        c.assume(t >= to_real(lift(lo)))
    if hi is not None:
        c.assume(t <= to_real(lift(hi)))
    return SReal(t)


def Bool(name):
    t = z3.Bool(name)
    ctx().inputs[name] = t
    return SBool(t)


def fresh_int(base="k", lo=None, hi=None):
    c = ctx()
    t = z3.Int(c.fresh(base))
    if lo is not None:
        c.assume(t >= lift(lo))
    if hi is not None:
        c.assume(t < lift(hi))
    return SInt(t)


def and_(*bs):
    ts = [tbool(b) for b in bs]
    if any(t is False for t in ts):
        return False
    ts = [t for t in ts if t is not True]
    if not ts:
        return True
    return SBool(z3.And(*ts)) if len(ts) > 1 else SBool(ts[0])


def or_(*bs):
    ts = [tbool(b) for b in bs]
    if any(t is True for t in ts):
        return True
    ts = [t for t in ts if t is not False]
    if not ts:
        return False
    return SBool(z3.Or(*ts)) if len(ts) > 1 else SBool(ts[0])


def not_(b):
    t = tbool(b)
    if isinstance(t, bool):
        return not t
    return SBool(z3.Not(t))


def implies(a, b):
    return or_(not_(a), b)


def eq(a, b):
    """Mathematical equality of two scalar values (as a goal)."""
    ta, tb = lift(a), lift(b)
    if ta is None or tb is None:
        return a is b
    if ta.sort() != tb.sort():
        if z3.is_bool(ta) or z3.is_bool(tb) or z3.is_arith(ta):
            ta, tb = both(ta, tb)
        else:
            return False
    return wrap(ta == tb) if not ta.eq(tb) else True
