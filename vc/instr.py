"""Mechanical instrumentation of the real source, and the import hook that applies it.

Every function body in /repo/serde/*.py, every piece of code the package generates and executes at
run time, and the case modules are parsed, rewritten node by node as listed below, and compiled.
Nothing is dropped: on concrete values each rewritten node behaves as the original.

  f(a, *b, **c)                 -> __vc_call(f, a, *b, **c)
  x[i]  (load)                  -> __vc_getitem(x, i)
  x[i] = v                      -> __vc_setitem(x, i, v)
  a in b / a not in b           -> __vc_in(a, b) / not __vc_in(a, b)
  a is b / a is not b           -> unchanged (symbolic scalars are never None/True/False)
  [e for t in it if c] (and {}, ()) -> __vc_comp(kind, it, lambda t: c, lambda t: e)
  for t in it: body             -> for t in __vc_iter(it, carried): body
  {k: v} with non-constant k    -> __vc_dict([(k, v), ...])
  f"..."                        -> __vc_fstr(...)
  a - b, a | b, a & b           -> __vc_binop(op, a, b)
"""
from __future__ import annotations
import ast, builtins, importlib.abc, importlib.machinery, importlib.util, os, sys

SKIP_CALLS = {"super", "locals", "globals", "vars", "dir", "eval", "breakpoint", "cast", "TypeVar"}


class _Bound(ast.NodeVisitor):
    pass


def _names(node, ctxt):
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ctxt):
            out.append(n)
    return out


def _has(node, *types):
    return any(isinstance(n, types) for n in ast.walk(node))


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0          # inside a function body?
        self.fn = []            # enclosing function nodes

    # ---- scopes
    def _function(self, node):
        # decorators, defaults and annotations stay as they are
        self.depth += 1
        self.fn.append(node)
        node.body = [self.visit(s) for s in node.body]
        node.body = [x for s in node.body for x in (s if isinstance(s, list) else [s])]
        self.fn.pop()
        self.depth -= 1
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        node.body = [self.visit(s) for s in node.body]
        self.depth = d
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_TypeAlias(self, node):
        return node

    def visit(self, node):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            return super().visit(node)
        return super().visit(node)

    def _call(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    # ---- expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        if isinstance(node.func, ast.Name) and (node.func.id in SKIP_CALLS or node.func.id.startswith("__vc_")):
            return node
        return ast.copy_location(
            ast.Call(ast.Name("__vc_call__", ast.Load()), [node.func] + node.args, node.keywords), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not self.depth or not isinstance(node.ctx, ast.Load) or _has(node.slice, ast.Starred):
            return node
        sl = node.slice
        if isinstance(sl, ast.Slice):
            none = ast.Constant(None)
            sl = ast.Call(ast.Name("slice", ast.Load()), [sl.lower or none, sl.upper or none, sl.step or none], [])
        elif _has(sl, ast.Slice):
            return node
        return ast.copy_location(self._call("__vc_getitem__", node.value, sl), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.depth or len(node.ops) != 1:
            return node
        op = node.ops[0]
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self._call("__vc_in__", node.left, node.comparators[0])
            if isinstance(op, ast.NotIn):
                r = ast.UnaryOp(ast.Not(), r)
            return ast.copy_location(r, node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if not self.depth or not isinstance(node.op, (ast.Sub, ast.BitOr, ast.BitAnd)):
            return node
        op = {ast.Sub: "-", ast.BitOr: "|", ast.BitAnd: "&"}[type(node.op)]
        return ast.copy_location(self._call("__vc_binop__", ast.Constant(op), node.left, node.right), node)

    def visit_JoinedStr(self, node):
        if not self.depth:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                if v.format_spec is not None:
                    return self.generic_visit(node)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion)], ast.Load()))
        return ast.copy_location(self._call("__vc_fstr__", *parts), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.depth or any(k is None for k in node.keys) or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return ast.copy_location(self._call("__vc_dict__", ast.List(
            [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())), node)

    def _comp(self, node, kind):
        bad = (len(node.generators) != 1 or node.generators[0].is_async
               or _has(node, ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom))
        if not bad:
            g = node.generators[0]
            tgt = g.target
            star = False
            if isinstance(tgt, ast.Name):
                params = [tgt.id]
            elif isinstance(tgt, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in tgt.elts):
                params = [e.id for e in tgt.elts]
                star = True
            else:
                bad = True
            if not bad and len(set(params)) != len(params):
                params = [p if params.index(p) == i or True else p for i, p in enumerate(params)]
                # e.g. `for _, _ in ...`: rename duplicates
                seen = {}
                new = []
                for i, p in enumerate(params):
                    new.append(p if params[i + 1:].count(p) == 0 else f"__vc_dup{i}")
                params = new
        if bad or not self.depth:
            # only the outermost iterable is evaluated in this scope; the rest is a nested scope
            self.generic_visit(node)
            return node
        it = self.visit(g.iter)

        def lam(body):
            return ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in params],
                                            kwonlyargs=[], kw_defaults=[], defaults=[]), body)
        if g.ifs:
            cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), list(g.ifs))
            cond = lam(self.visit(cond))
        else:
            cond = ast.Constant(None)
        if kind == "dict":
            body = ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load())
        else:
            body = self.visit(node.elt)
        return ast.copy_location(
            self._call("__vc_comp__", ast.Constant(kind), it, cond, lam(body), ast.Constant(star)), node)

    def visit_Starred(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load):
            node.value = ast.copy_location(self._call("__vc_star__", node.value), node.value)
        return node

    def visit_ListComp(self, node): return self._comp(node, "list")
    def visit_SetComp(self, node): return self._comp(node, "set")
    def visit_DictComp(self, node): return self._comp(node, "dict")
    def visit_GeneratorExp(self, node): return self._comp(node, "gen")

    # ---- statements
    def visit_For(self, node):
        carried = "first" if _first_only(node) else _carried(node, self.fn[-1]) if self.fn else True
        node.iter = self.visit(node.iter)
        node.body = self._block(node.body)
        node.orelse = self._block(node.orelse)
        if self.depth:
            node.iter = ast.copy_location(self._call("__vc_iter__", node.iter, ast.Constant(carried)), node.iter)
        return node

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_Assign(self, node):
        if (self.depth and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript)
                and not _has(node.targets[0].slice, ast.Slice)):
            t = node.targets[0]
            v = self.visit(node.value)
            # evaluation order of the original: value, container, index
            return ast.copy_location(ast.Expr(self._call(
                "__vc_setitem__", v, self.visit(t.value), self.visit(t.slice))), node)
        self.generic_visit(node)
        return node


def _exits(stmts):
    """Does control never run off the end of these statements?"""
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Raise, ast.Break)):
            return True
        if isinstance(s, ast.If) and s.orelse and _exits(s.body) and _exits(s.orelse):
            return True
    return False


def _first_only(loop):
    """Does every run of the body leave the loop (so that only the first element is looked at)?"""
    return _exits(loop.body) and not any(isinstance(n, ast.Continue) for s in loop.body for n in ast.walk(s))


def _reads(node, name):
    """May evaluating this node (including functions defined in it) read the local variable?"""
    if isinstance(node, ast.Name):
        return node.id == name and isinstance(node.ctx, (ast.Load, ast.Del))
    if isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Name) and node.target.id == name:
        return True
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        if any(n.id == name for g in node.generators for n in _names(g.target, ast.Store)):
            return _reads(node.generators[0].iter, name)
    if isinstance(node, ast.Lambda):
        if name in {a.arg for a in _args(node.args)}:
            return any(_reads(d, name) for d in node.args.defaults)
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        if name in {a.arg for a in _args(node.args)}:
            return any(_reads(d, name) for d in node.args.defaults + node.decorator_list)
    if isinstance(node, ast.ExceptHandler) and node.name == name:
        return node.type is not None and _reads(node.type, name)
    return any(_reads(c, name) for c in ast.iter_child_nodes(node))


def _args(a):
    return a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]


def _sets(node, name):
    """Does this simple statement assign the variable (on every run of it)?"""
    if isinstance(node, ast.Assign):
        return any(n.id == name for t in node.targets for n in _names(t, ast.Store))
    return (isinstance(node, ast.AnnAssign) and node.value is not None and isinstance(node.target, ast.Name)
            and node.target.id == name)


def _flow(stmts, name):
    """What happens to the variable's value when control enters these statements: 'read' (possibly),
    'dead' (assigned before any read, or control leaves), 'on' (still there at their end)."""
    for s in stmts:
        if isinstance(s, ast.If):
            if _reads(s.test, name):
                return "read"
            x, y = _flow(s.body, name), _flow(s.orelse, name)
            if "read" in (x, y):
                return "read"
            if x == y == "dead":
                return "dead"
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            if _reads(s.iter, name):
                return "read"
            if not any(n.id == name for n in _names(s.target, ast.Store)) and _flow(s.body, name) == "read":
                return "read"
            if _flow(s.orelse, name) == "read":
                return "read"
        elif _reads(s, name):
            return "read"
        elif _sets(s, name) or isinstance(s, (ast.Return, ast.Raise)):
            return "dead"
        elif isinstance(s, (ast.Break, ast.Continue)):
            return "on"
    return "on"


def _after(node, fn, name):
    """May the value that the variable has after this statement be read later in the function?"""
    path = []

    def find(n):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, c in enumerate(v):
                    if c is node or (isinstance(c, ast.AST) and find(c)):
                        path.append((n, f, v, i))
                        return True
            elif isinstance(v, ast.AST) and (v is node or find(v)):
                path.append((n, f, None, 0))
                return True
        return False

    if not find(fn):
        return True
    for n, f, v, i in path:
        if v is None:
            return True
        if isinstance(n, ast.Try):
            rest = list(n.finalbody) if f != "finalbody" else []
            if f == "body":
                rest = [h for h in n.handlers] + list(n.orelse) + rest
            if any(_reads(x, name) for x in rest):
                return True
        r = _flow(v[i + 1:], name) if all(isinstance(x, ast.stmt) for x in v[i + 1:]) else "on"
        if r == "read":
            return True
        if r == "dead":
            return False
        if isinstance(n, (ast.For, ast.While, ast.AsyncFor)) and f == "body":
            if not any(m.id == name for m in _names(getattr(n, "target", ast.Pass()), ast.Store)):
                if _reads(getattr(n, "test", ast.Pass()), name) or _flow(n.body, name) == "read":
                    return True
    return False


def _before(stmts, done, seen):
    """Definite assignment: variables assigned in `seen` that may be read while not in `done`."""
    bad = set()

    def see(n):
        bad.update(x for x in seen - done if _reads(n, x))

    for s in stmts:
        if isinstance(s, ast.If):
            see(s.test)
            x, y = set(done), set(done)
            bad |= _before(s.body, x, seen) | _before(s.orelse, y, seen)
            gx, gy = _exits(s.body) or _ends(s.body), _exits(s.orelse) or _ends(s.orelse)
            done |= y if gx else x if gy else x & y
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            see(s.iter)
            x = done | {n.id for n in _names(s.target, ast.Store)}
            bad |= _before(s.body, x, seen) | _before(s.orelse, set(done), seen)
        elif isinstance(s, ast.Try):
            x = set(done)
            bad |= _before(s.body, x, seen)
            bad |= _before(s.orelse, set(x), seen)
            for h in s.handlers:
                bad |= _before(h.body, done | {h.name}, seen)
            bad |= _before(s.finalbody, set(done), seen)
            if not s.handlers or all(_exits(h.body) or _ends(h.body) for h in s.handlers):
                done |= x
        else:
            see(s)
            done.update(x for x in seen if _sets(s, x))
    return bad


def _ends(stmts):
    return any(isinstance(s, ast.Continue) for s in stmts)


def _carried(loop, fn):
    """Does the loop carry scalar state: a variable it assigns that is read after it, or read in the
    body where it may still have the value of an earlier iteration?"""
    tgt = {n.id for n in _names(loop.target, ast.Store)}
    stored = {n.id for s in loop.body for n in _names(s, ast.Store)}
    if _before(loop.body, set(tgt), stored):
        return True
    if any(_after(loop, fn, x) for x in stored | tgt):
        return True
    # a function defined outside of the loop that reads the variable
    inside = set(map(id, ast.walk(loop)))
    for n in ast.walk(fn):
        if n is not fn and id(n) not in inside and isinstance(n, (ast.FunctionDef, ast.Lambda)):
            if any(_reads(n, x) for x in stored | tgt):
                return True
    return False


STATS = {"functions": 0, "files": [], "generated": 0}


def transform(src, filename):
    tree = ast.parse(src, filename)
    STATS["functions"] += sum(isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) for n in ast.walk(tree))
    tree = Tr().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        STATS["files"].append(path)
        return transform(src, path)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):
        if name in ("vc.types", "vc.spec"):
            f = os.path.join(os.path.dirname(__file__), name[3:] + ".py")
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f))
        if name != "serde" and not name.startswith("serde."):
            return None
        parts = name.split(".")
        base = os.path.join(self.root, *parts)
        if os.path.isdir(base):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, f, loader=Loader(name, f), submodule_search_locations=[base])
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f))
        return None


REPO = os.environ.get("VC_REPO", "/repo")


ACTIVE = False


def install():
    """Instrument the serde package for this process."""
    global ACTIVE
    ACTIVE = True
    assert "serde" not in sys.modules
    from . import models
    models.install_runtime()
    sys.meta_path.insert(0, Finder(REPO))


def install_native():
    """Plain CPython on the unmodified source."""
    sys.path.insert(0, REPO)
