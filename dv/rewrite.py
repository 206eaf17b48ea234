"""Mechanical rewriting of the source under verification, and its loader.

The rewriting keeps every statement; it only routes control structures whose
extent may be symbolic through hooks:
  for / while      -> the Loop protocol (plain unrolling when concrete)
  comprehensions   -> dv_comp
  a is b           -> dv_is
  and, or, not, chained comparisons -> hooks that keep a condition on a generic
                      element of a symbolic sequence as a formula
  except clauses   -> a hook that tells errors of the engine from the code's own
  int(), float(), bool(), list(), tuple(), set() calls -> hooks
Nothing of the body is dropped.  Builtins and imported libraries are replaced
by hooks and shims through the module's namespace.
"""
import ast
import builtins
import copy
import os
import sys
import types

from . import core, files, seqs
from .core import Unsupported

ROOT = os.environ.get("DV_REPO", "/repo")
SRC = os.path.join(ROOT, "src")


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.func = ["<module>"]
        self.locals = [set()]

    def visit_FunctionDef(self, node):
        self.func.append(node.name)
        a = node.args
        own = {x.arg for x in a.args + a.posonlyargs + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                own.add(x.id)
        self.locals.append(own)
        node.body = [self.visit_s(s) for s in node.body]
        node.body = [x for s in node.body for x in (s if isinstance(s, list) else [s])]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.func.pop()
        self.locals.pop()
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        c = ast.Expr(self.call("dv__caught"))
        ast.copy_location(c, node.body[0])
        ast.fix_missing_locations(c)
        node.body.insert(0, c)
        return node

    def visit_s(self, s):
        return self.visit(s)

    def call(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    def visit_Compare(self, node):
        if len(node.ops) > 1 and self.simple(node):
            # a < b < c: the middle operands are names or constants, or bound once
            mids = node.comparators[:-1]
            if all(isinstance(m, (ast.Name, ast.Constant, ast.Attribute)) for m in mids):
                xs = [node.left] + node.comparators
                parts = [ast.Compare(xs[k], [o], [xs[k + 1]]) for k, o in enumerate(node.ops)]
                return self.visit(ast.copy_location(ast.BoolOp(ast.And(), [copy.deepcopy(q) for q in parts]), node))
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            r = self.call("dv__is", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.IsNot):
                r = self.call("dv__not", r)
            return ast.copy_location(r, node)
        return node

    # -- boolean structure (matters for conditions on generic elements only)
    def simple(self, node):
        return not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node))

    def visit_BoolOp(self, node):
        if not self.simple(node):
            return self.generic_visit(node)
        self.generic_visit(node)
        vs = [ast.Lambda(ast.arguments([], [], None, [], [], None, []), v) for v in node.values]
        return ast.copy_location(self.call("dv__and" if isinstance(node.op, ast.And) else "dv__or", *vs), node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(self.call("dv__neg", node.operand), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in seqs.TYPE_CALLS:
            node.func = ast.copy_location(ast.Name("dv__" + node.func.id, ast.Load()), node.func)
        return node

    def visit_JoinedStr(self, node):
        return ast.copy_location(self.fstr(node), node)

    def fstr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.fstr(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
            else:
                parts.append(v)
        return self.call("dv__fstr", *parts)

    # -- comprehensions
    def comp(self, node, kind, elt):
        elt = self.visit(elt)
        body = elt
        gens = node.generators
        for gi in range(len(gens) - 1, -1, -1):
            g = gens[gi]
            for cnd in reversed(g.ifs):
                thunk = lambda e: ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
                body = self.call("dv__filter", thunk(self.visit(cnd)), thunk(body))
            it = self.visit(g.iter)
            lam = self.lam(g.target, body)
            if gi == 0:
                return ast.copy_location(self.call("dv__comp", ast.Constant(kind), it, lam), node)
            body = self.call("dv__sub", it, lam)

    def lam(self, target, body):
        def args(names):
            return ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, [])
        if isinstance(target, ast.Name):
            return ast.Lambda(args([target.id]), body)
        if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in target.elts):
            inner = ast.Lambda(args([e.id for e in target.elts]), body)
            return ast.Lambda(args(["dv__a"]), ast.Call(inner, [ast.Starred(self.call("dv__unpack", ast.Name("dv__a", ast.Load()), ast.Constant(len(target.elts))), ast.Load())], []))
        if isinstance(target, (ast.Tuple, ast.List)):
            # nested targets: unpack level by level
            names, lams = [], body
            fresh = []
            for e in target.elts:
                self.n += 1
                fresh.append(f"dv__t{self.n}")
            for f, e in zip(fresh, target.elts):
                lams = ast.Call(self.lam(e, lams), [ast.Name(f, ast.Load())], [])
            inner = ast.Lambda(args(fresh), lams)
            return ast.Lambda(args(["dv__a"]), ast.Call(inner, [ast.Starred(self.call("dv__unpack", ast.Name("dv__a", ast.Load()), ast.Constant(len(fresh))), ast.Load())], []))
        raise Unsupported("comprehension target")

    def visit_ListComp(self, node):
        return self.comp(node, "list", node.elt)

    def visit_GeneratorExp(self, node):
        return self.comp(node, "gen", node.elt)

    def visit_SetComp(self, node):
        return self.comp(node, "set", node.elt)

    def visit_DictComp(self, node):
        return self.comp(node, "dict", ast.Tuple([node.key, node.value], ast.Load()))

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys:
            return ast.copy_location(self.call("dv__dict", node), node)
        return node

    def visit_Expr(self, node):
        """x.extend(y): a list that is extended by a symbolic sequence becomes a symbolic list."""
        v = node.value
        if (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "extend" and len(v.args) == 1
                and not v.keywords and not isinstance(v.args[0], ast.Starred)):
            x = v.func.value
            own = self.locals[-1] if len(self.locals) > 1 else None
            out = self.grow(node, x, own, v.args[0], lambda t: ast.Expr(
                ast.Call(ast.Attribute(copy.deepcopy(x), "extend", ast.Load()), [ast.Name(t, ast.Load())], [])))
            if out:
                return out
        return self.generic_visit(node)

    def visit_AugAssign(self, node):
        """x += y: likewise."""
        if isinstance(node.op, ast.Add) and isinstance(node.target, (ast.Name, ast.Attribute)):
            own = self.locals[-1] if len(self.locals) > 1 else None
            x = copy.deepcopy(node.target)
            x.ctx = ast.Load()
            out = self.grow(node, x, own, node.value, lambda t: ast.AugAssign(node.target, node.op, ast.Name(t, ast.Load())))
            if out:
                return out
        return self.generic_visit(node)

    def grow(self, node, x, own, value, plain):
        """A list that grows by a symbolic sequence becomes a symbolic list."""
        if not (isinstance(x, ast.Name) and (own is None or x.id in own) or (
                isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and (own is None or x.value.id in own))):
            return None
        st = copy.deepcopy(x)
        st.ctx = ast.Store()
        arg = self.visit(value)
        self.n += 1
        t = f"dv__x{self.n}"
        out = [ast.Assign([ast.Name(t, ast.Store())], arg),
               ast.If(self.call("dv__growing", x, ast.Name(t, ast.Load())),
                      [ast.Assign([st], self.call("dv__grown", copy.deepcopy(x), ast.Name(t, ast.Load())))],
                      [plain(t)])]
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    # -- loops
    def names_in(self, stmts):
        out = []
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id not in out and not x.id.startswith("dv__"):
                    out.append(x.id)
        return out

    def stored_in(self, stmts):
        out = []
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in out:
                    out.append(x.id)
        return out

    def loop_head(self, L, names, targets):
        self.stored_names, self.stored_attrs = self.stored_of.get(L, (set(), set()))
        loc = self.call("locals")
        out = [ast.Expr(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "arrive", ast.Load()), [loc], []))]
        if names:
            body = []
            for n in names:
                if isinstance(n, tuple):
                    ref = lambda c: ast.Attribute(ast.Name(n[0], ast.Load()), n[1], c)
                    body.append(ast.If(
                        ast.BoolOp(ast.And(), [ast.Compare(ast.Constant(n[0]), [ast.In()], [self.call("locals")]),
                                               self.call("hasattr", ast.Name(n[0], ast.Load()), ast.Constant(n[1]))]),
                        [ast.Assign([ref(ast.Store())],
                                    ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "hv", ast.Load()),
                                             [ast.Constant(".".join(n)), ref(ast.Load()), ast.Constant(n in self.stored_attrs)], []))], []))
                    continue
                body.append(ast.If(
                    ast.Compare(ast.Constant(n), [ast.In()], [self.call("locals")]),
                    [ast.Assign([ast.Name(n, ast.Store())],
                                ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "hv", ast.Load()),
                                         [ast.Constant(n), ast.Name(n, ast.Load()), ast.Constant(n in self.stored_names)], []))], []))
            out.append(ast.If(ast.Compare(ast.Attribute(ast.Name(L, ast.Load()), "mode", ast.Load()), [ast.NotEq()], [ast.Constant("run")]), body, []))
        out.append(ast.Expr(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "ready", ast.Load()),
                                     [self.call("locals"), ast.Tuple([ast.Constant(t) for t in targets], ast.Load())], [])))
        return out

    stored_of = {}

    def build(self, node, kind, it, test, assign, names, targets, body, orelse, stored=(set(), set())):
        self.n += 1
        L = f"dv__L{self.n}"
        self.stored_of[L] = stored
        mk = ast.Assign([ast.Name(L, ast.Store())],
                        self.call("dv__loop", ast.Constant(kind), ast.Constant(node.lineno),
                                  ast.Constant(self.func[-1]), it))
        ex = [ast.Break()]
        flag = None
        if orelse:
            flag = f"dv__E{self.n}"
            ex = [ast.Assign([ast.Name(flag, ast.Store())], ast.Constant(True)), ast.Break()]
        w = ast.While(ast.Constant(True),
                      self.loop_head(L, names, targets)
                      + [ast.If(ast.UnaryOp(ast.Not(), test(L)), ex, [])] + assign(L) + body, [])
        out = [mk]
        if orelse:
            out.append(ast.Assign([ast.Name(flag, ast.Store())], ast.Constant(False)))
        out.append(w)
        if orelse:
            out.append(ast.If(ast.Name(flag, ast.Load()), orelse, []))
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def flat(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_For(self, node):
        targets = [x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)]
        names = [n for n in self.names_in(node.body) if n not in targets]
        # only locals that the body may write or mutate matter
        names = self.relevant(names, node.body) + self.attrs_in(node.body)
        it = self.visit(node.iter)
        stored = self.stores(node.body)
        body, orelse = self.flat(node.body), self.flat(node.orelse)
        return self.build(
            node, "for", it,
            lambda L: ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "more", ast.Load()), [], []),
            lambda L: [ast.Assign([node.target], ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "next", ast.Load()), [], []))],
            names, targets, body, orelse, stored)

    def stores(self, body):
        """Names and attributes (x.a) that the body assigns."""
        attrs = set()
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                    attrs.add((x.value.id, x.attr))
        return set(self.stored_in(body)), attrs

    def relevant(self, names, body):
        """Names stored to, or used as the object of a method call / subscript store."""
        st = set(self.stored_in(body))
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
                    st.add(x.func.value.id)
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                    st.add(x.value.id)
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    st.add(x.target.id)
        return [n for n in names if n in st and n != "self" and (n in self.locals[-1] or len(self.locals) == 1)]

    MUTATORS = ("append", "extend", "insert", "update", "add", "pop", "remove", "clear", "appendleft", "popleft", "setdefault", "discard")

    def attrs_in(self, body):
        """Attributes of variables (self.x) whose container the body may change in place."""
        out = []

        def note(a):
            if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id in self.locals[-1] and (a.value.id, a.attr) not in out:
                out.append((a.value.id, a.attr))
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in self.MUTATORS:
                    note(x.func.value)
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                    note(x.value)
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    note(x)
        return out

    def visit_While(self, node):
        names = self.relevant(self.names_in(node.body), node.body) + self.attrs_in(node.body)
        test = self.visit(node.test)
        stored = self.stores(node.body)
        body, orelse = self.flat(node.body), self.flat(node.orelse)
        return self.build(node, "while", ast.Constant(None), lambda L: test, lambda L: [], names, (), body, orelse, stored)

    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if isinstance(old, list):
                new = []
                for v in old:
                    if isinstance(v, ast.AST):
                        v = self.visit(v)
                        if v is None:
                            continue
                        if isinstance(v, list):
                            new.extend(v)
                            continue
                    new.append(v)
                old[:] = new
            elif isinstance(old, ast.AST):
                v = self.visit(old)
                setattr(node, field, v)
        return node


def dv_unpack(x, n):
    from .arrays import SArr
    if isinstance(x, (tuple, list)):
        return x
    if isinstance(x, SArr):
        return list(x)
    s = seqs.as_seq(x)
    if isinstance(s, seqs.SymSeq):
        return [s.get(i) for i in range(n)]
    return list(s)


def dv_not(x):
    from .core import not_, S
    return not_(x) if isinstance(x, S) else (not x)


class Loader:
    """Loads synthpix.* from the repository's current source, rewritten."""

    def __init__(self, shims):
        self.shims = shims
        self.modules = {}
        self.sources = {}
        bi = dict(vars(builtins))
        bi.update(seqs.BUILTINS)
        bi["__import__"] = self.imp
        self.bi = bi

    def hooks(self):
        d = {"dv__" + k: v for k, v in seqs.TYPE_CALLS.items()}
        d["dv__caught"] = lambda: core.caught(sys.exc_info()[1])
        d.update(dv__and=seqs.dv_and, dv__or=seqs.dv_or, dv__neg=seqs.dv_neg)
        d.update(dv__is=seqs.dv_is, dv__not=dv_not, dv__comp=seqs.dv_comp, dv__sub=seqs.dv_sub,
                 dv__filter=seqs.dv_filter, dv__fstr=files.fstr, dv__growing=seqs.growing, dv__dict=seqs.DvDict, dv__grown=seqs.grown, dv__loop=seqs.Loop, dv__unpack=dv_unpack)
        return d

    def path(self, name):
        p = os.path.join(SRC, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        path, pkg = self.path(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError(f"No module named {name!r}")
        src = open(path).read()
        self.sources[path] = src
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rsplit(".", 1)[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.bi
        m.__dict__.update(self.hooks())
        self.modules[name] = m
        sys.modules.setdefault("dvmod." + name, m)
        tree = Rewriter().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        # dataclasses look the module up by name
        sys.modules[name] = m
        exec(compile(tree, path, "exec"), m.__dict__)
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            setattr(self.modules[parent], leaf, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            base = pkg[:len(pkg) - level + 1]
            name = ".".join(base + ([name] if name else []))
        if name == "synthpix" or name.startswith("synthpix."):
            m = self.load(name)
            if not fromlist:
                return self.load(name.split(".")[0])
            for f in fromlist:
                if not hasattr(m, f):
                    try:
                        self.load(name + "." + f)
                    except ModuleNotFoundError:
                        pass
            return m
        if name in self.shims:
            if fromlist:
                return self.shims[name]
            return self.shims[name.split(".")[0]]
        top = name.split(".")[0]
        if top in self.shims:
            raise ImportError(f"no shim for {name}")
        return builtins.__import__(name, globals, locals, fromlist, level)

    def replace(self, orig, stub):
        """Rebind every module-level reference to orig (a function or class)."""
        for m in self.modules.values():
            for k, v in list(m.__dict__.items()):
                if v is orig:
                    m.__dict__[k] = stub
