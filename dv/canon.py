"""Canonical forms of arithmetic terms: rational functions over atoms.

Two terms with the same canonical form are equal in every model of the path
condition.  Steps used: ring laws, x/y = x * (1/y), 1/(xy) = (1/x)(1/y) and
x * (1/x) = 1 only for factors the solver shows to be non-zero, floor(p + n) =
floor(p) + n for integer-valued n, congruence, and conditionals decided by the
solver.
"""
from fractions import Fraction

import time

import z3


class Canon:
    def __init__(self, ctx, limit=3000):
        self.c = ctx
        self.ids = {}  # structure -> atom id
        self.struct = {}  # atom id -> structure
        self.isint = {}  # atom id -> bool
        self.term = {}  # atom id -> a z3 term
        self.memo = {}
        self.limit = limit
        self.nz = {}
        self.dec = {}
        self.keep = []
        self.inside = False
        self.subst = {}  # constant name -> polynomial, from the path condition's equations

    def atom(self, st, t, isint):
        a = self.ids.get(st)
        if a is None:
            a = len(self.ids)
            self.ids[st] = a
            self.struct[a] = st
            self.isint[a] = isint
            self.term[a] = t
        return a

    # polynomials: dict monomial -> Fraction; monomial: sorted tuple of (atom, exponent != 0)
    @staticmethod
    def freeze(p):
        return tuple(sorted(p.items()))

    def mulmono(self, a, b):
        d = dict(a)
        for x, e in b:
            d[x] = d.get(x, 0) + e
        return tuple(sorted((x, e) for x, e in d.items() if e))

    def mul(self, p, q):
        out = {}
        for m1, v1 in p.items():
            for m2, v2 in q.items():
                m = self.mulmono(m1, m2)
                v = out.get(m, 0) + v1 * v2
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
            if len(out) > self.limit:
                raise OverflowError
        return out

    @staticmethod
    def add(p, q, s=1):
        out = dict(p)
        for m, v in q.items():
            w = out.get(m, 0) + s * v
            if w:
                out[m] = w
            else:
                out.pop(m, None)
        return out

    def nonzero(self, t):
        k = t.get_id()
        if k not in self.nz:
            self.keep.append(t)
            self.c.solver.set("timeout", 300)
            self.nz[k] = self.c.solver.check(t == 0) == z3.unsat
            self.c.solver.set("timeout", self.c.session.branch_ms)
        return self.nz[k]

    def inv(self, p, t):
        """Canonical 1/p, t being the z3 term of p."""
        if len(p) == 1:
            (m, v), = p.items()
            if m == ():
                if v != 0:
                    return {(): 1 / v}
            elif all(self.nonzero(self.term[a]) for a, e in m):
                return {tuple(sorted((a, -e) for a, e in m)): 1 / v}
        if not self.nonzero(t):
            a = self.atom(("inv0", self.freeze(p)), z3.RealVal(1) / (z3.ToReal(t) if z3.is_int(t) else t), False)
            return {((a, 1),): Fraction(1)}
        # scale so that the leading coefficient is 1
        lead = sorted(p.items())[0][1]
        q = {m: v / lead for m, v in p.items()}
        a = self.atom(("sum", self.freeze(q)), t, False)
        self.nz[t.get_id()] = True
        return {((a, -1),): 1 / lead}

    def decide(self, b):
        k = b.get_id()
        if k not in self.dec:
            self.keep.append(b)
            s = self.c.solver
            s.set("timeout", 250)
            r = None
            if s.check(z3.Not(b)) == z3.unsat:
                r = True
            elif s.check(b) == z3.unsat:
                r = False
            s.set("timeout", self.c.session.branch_ms)
            self.dec[k] = r
        return self.dec[k]

    def arith(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self._arith(t)
            self.memo[k] = r
            self.keep.append(t)
        return r

    def _arith(self, t):
        if z3.is_int_value(t):
            return {(): Fraction(t.as_long())} if t.as_long() else {}
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return {(): f} if f else {}
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            p = {}
            for x in ch:
                p = self.add(p, self.arith(x))
            return p
        if k == z3.Z3_OP_SUB:
            p = self.arith(ch[0])
            for x in ch[1:]:
                p = self.add(p, self.arith(x), -1)
            return p
        if k == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in self.arith(ch[0]).items()}
        if k == z3.Z3_OP_MUL:
            p = {(): Fraction(1)}
            for x in ch:
                p = self.mul(p, self.arith(x))
            return p
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and 0 <= ch[1].as_long() <= 6:
            p = {(): Fraction(1)}
            for _ in range(ch[1].as_long()):
                p = self.mul(p, self.arith(ch[0]))
            return p
        if k == z3.Z3_OP_DIV:
            return self.mul(self.arith(ch[0]), self.inv(self.arith(ch[1]), ch[1]))
        if k == z3.Z3_OP_TO_REAL:
            return self.arith(ch[0])
        if k == z3.Z3_OP_TO_INT:
            p = self.arith(ch[0])
            ip = {m: v for m, v in p.items() if v.denominator == 1 and all(self.isint[a] and e > 0 for a, e in m)}
            rest = {m: v for m, v in p.items() if m not in ip}
            if not rest:
                return ip
            r = self.known_int(t)
            if r is not None:
                return r
            a = self.atom(("floor", self.freeze(rest)), t, True)
            return self.add({((a, 1),): Fraction(1)}, ip)
        if k == z3.Z3_OP_ITE:
            d = self.decide(ch[0])
            if d is True:
                return self.arith(ch[1])
            if d is False:
                return self.arith(ch[2])
            p, q = self.arith(ch[1]), self.arith(ch[2])
            if p == q:
                return p
            if z3.is_int(t):
                r = self.known_int(t)
                if r is not None:
                    return r
            b = self.bool(ch[0])
            if b[0] == "not":
                b, p, q = b[1], q, p
            a = self.atom(("ite", b, self.freeze(p), self.freeze(q)), t, z3.is_int(t))
            return {((a, 1),): Fraction(1)}
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int(t):
            a = self.atom((str(k), self.freeze(self.arith(ch[0])), self.freeze(self.arith(ch[1]))), t, True)
            return {((a, 1),): Fraction(1)}
        if not ch:
            if t.decl().name() in self.subst:
                return self.subst[t.decl().name()]
            a = self.atom(("c", t.decl().name(), str(t.sort())), t, z3.is_int(t))
            return {((a, 1),): Fraction(1)}
        args = tuple(self.any(x) for x in ch)
        a = self.atom(("f", t.decl().name(), args), t, z3.is_int(t))
        return {((a, 1),): Fraction(1)}

    def learn(self, facts):
        """Orients equations of the path condition into substitutions for constants."""
        work = list(facts)
        eqs = []
        while work:
            f = work.pop(0)
            if z3.is_quantifier(f) or not z3.is_app(f):
                continue
            if z3.is_and(f):
                work = f.children() + work
            elif z3.is_eq(f) and z3.is_arith(f.arg(0)):
                eqs.append((f.arg(0), f.arg(1)))
        for a, b in eqs:
            d = self.add(self.arith(a), self.arith(b), -1)
            self.orient(d)

    def orient(self, d):
        for m, v in sorted(d.items(), key=lambda x: self.isint[x[0][0][0]] if x[0] else True):
            if len(m) != 1 or m[0][1] != 1 or self.struct[m[0][0]][0] != "c":
                continue
            a = m[0][0]
            if any(x == a for n in d if n != m for x, _ in n):
                continue
            rest = {n: -w / v for n, w in d.items() if n != m}
            if any(self.mentions(x, a) for n in rest for x, _ in n):
                continue
            name = self.struct[a][1]
            for k in self.subst:
                self.subst[k] = self.plug(self.subst[k], a, rest)
            self.subst[name] = rest
            self.memo.clear()
            return True
        return False

    def mentions(self, atom, a):
        """Does the structure of an atom contain the atom a?"""
        st = [self.struct[atom]]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], int) and not isinstance(x[1], bool):
                    if x[0] == a or (x[0] in self.struct and x[0] != atom and self.mentions(x[0], a)):
                        return True
                st.extend(x)
        return False

    def plug(self, p, a, q):
        out = {}
        for m, v in p.items():
            t = {tuple(x for x in m if x[0] != a): v}
            for x, e in m:
                if x == a:
                    if e < 0:
                        t = {m: v}
                        break
                    for _ in range(e):
                        t = self.mul(t, q)
            out = self.add(out, t)
        return out

    def fix(self, terms):
        """Constants that the path condition pins to one value."""
        s = self.c.solver
        s.set("timeout", 300)
        hit = False
        try:
            if s.check() != z3.sat:
                return False
            m = s.model()
            for t in terms:
                v = m.eval(t, model_completion=True)
                if (z3.is_int_value(v) or z3.is_rational_value(v)) and s.check(t != v) == z3.unsat:
                    f = Fraction(v.as_long()) if z3.is_int_value(v) else v.as_fraction()
                    self.subst[t.decl().name()] = {(): f} if f else {}
                    hit = True
        finally:
            s.set("timeout", self.c.session.branch_ms)
        if hit:
            self.memo.clear()
        return hit

    def known_int(self, t):
        """t as one of the harness's candidate integers, when the solver shows they are equal."""
        cands = self.c.ghost.get("cands")
        if not cands or self.inside:
            return None
        s = self.c.solver
        s.set("timeout", 250)
        try:
            if s.check() != z3.sat:
                return None
            m = s.model()
            tv = m.eval(t, model_completion=True)
            for u in cands:
                for w in (u, -u, -u - 1):
                    # the model rules most candidates out
                    wv = m.eval(w, model_completion=True)
                    if z3.is_int_value(tv) and z3.is_int_value(wv) and tv.as_long() != wv.as_long():
                        continue
                    if s.check(t != w) == z3.unsat:
                        self.inside = True
                        try:
                            return self.arith(w)
                        finally:
                            self.inside = False
        finally:
            s.set("timeout", self.c.session.branch_ms)
        return None

    def any(self, t):
        if z3.is_quantifier(t) or not z3.is_app(t):
            self.keep.append(t)
            return ("q", t.get_id())
        if z3.is_arith(t):
            return self.freeze(self.arith(t))
        if z3.is_bool(t):
            return self.bool(t)
        return ("o", t.decl().name(), str(t.sort()), tuple(self.any(x) for x in t.children()))

    def bool(self, t):
        if z3.is_quantifier(t) or not z3.is_app(t):
            self.keep.append(t)
            return ("q", t.get_id())
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_NOT:
            b = self.bool(ch[0])
            return b[1] if b[0] == "not" else ("not", b)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            x, y = ch if k in (z3.Z3_OP_LE, z3.Z3_OP_LT) else ch[::-1]
            strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            # x <= y  or x < y ; x < y is not (y <= x)
            if strict:
                x, y = y, x
            d = self.add(self.arith(x), self.arith(y), -1)
            s = abs(sorted(d.items())[0][1]) if d else 1
            b = ("le0", self.freeze({m: v / s for m, v in d.items()}))
            return ("not", b) if strict else b
        if k in (z3.Z3_OP_EQ,) and z3.is_arith(ch[0]):
            d = self.add(self.arith(ch[0]), self.arith(ch[1]), -1)
            if not d:
                return ("true",)
            s = sorted(d.items())[0][1]
            return ("eq0", self.freeze({m: v / s for m, v in d.items()}))
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            return (str(k), tuple(sorted({self.bool(x) for x in ch}, key=repr)))
        return ("b", t.decl().name(), str(k), tuple(self.any(x) for x in ch))


def same_form(c, a, b):
    if z3.is_arith(a):
        return c.arith(a) == c.arith(b)
    return c.any(a) == c.any(b)


def consts_of(*ts):
    out, seen, st = {}, set(), list(ts)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t) or not z3.is_app(t):
            continue
        if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_arith(t):
            out[t.decl().name()] = t
        st.extend(t.children())
    return list(out.values())


DEBUG = False


def show(c, p):
    def at(a):
        return str(z3.simplify(c.term[a])).replace("\n", " ")[:160]
    return "\n".join(f"   {v} * " + " * ".join(f"[{at(a)}]^{e}" for a, e in m) for m, v in p.items())


def equal(ctx, a, b, depth=6, deadline=None, extra=()):
    """a == b in every model of the path condition: canonical forms, splitting on undecided conditions.

    Returns (True, None), or (False, condition list of a case left open).
    """
    try:
        c = Canon(ctx)
        c.learn(list(ctx.pc) + list(extra))
        if same_form(c, a, b):
            return True, None
        if c.fix(consts_of(a, b)[:14]):
            c.learn(list(ctx.pc) + list(extra))
            if same_form(c, a, b):
                return True, None
        if DEBUG and z3.is_arith(a):
            print("open", depth, extra, "\n", show(c, c.add(c.arith(a), c.arith(b), -1)))
    except OverflowError:
        return False, []
    if depth == 0 or (deadline is not None and time.time() > deadline):
        return False, []
    open_ = [t for t in c.keep if t.get_id() in c.dec and c.dec[t.get_id()] is None]
    if not open_:
        return False, []
    t = open_[0]
    for v in (t, z3.Not(t)):
        ctx.solver.push()
        ctx.solver.add(v)
        try:
            if ctx.solver.check() == z3.unsat:
                continue
            ok, case = equal(ctx, a, b, depth - 1, deadline, tuple(extra) + (v,))
        finally:
            ctx.solver.pop()
        if not ok:
            return False, [v] + case
    return True, None
