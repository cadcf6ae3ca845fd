"""Regenerate an instrumented copy of /repo's modules (AST rewriting) on every import."""
from __future__ import annotations
import ast, os, sys, importlib.abc, importlib.util, importlib.machinery, types

_OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Mod: "%", ast.BitAnd: "&", ast.BitOr: "|",
        ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
_NOCALL = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "TypeVar", "NewType"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _simple(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, (ast.Name, ast.Constant))


class T(ast.NodeTransformer):
    def __init__(self, mod=""):
        self.functions = 0
        self.mod = mod
        self.trace = not mod.startswith("harness")

    def _call(self, fn, args, node, keywords=()):
        return ast.copy_location(ast.Call(func=_name(fn), args=args, keywords=list(keywords)), node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in _NOCALL:
            node.args = [self.visit(a) for a in node.args]
            return node
        self.generic_visit(node)
        return self._call("sx_call", [node.func] + node.args, node, node.keywords)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value="")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return self._call("sx_fstr", parts, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op, r = node.ops[0], node.comparators[0]
        if isinstance(op, ast.In):
            return self._call("sx_contains", [node.left, r], node)
        if isinstance(op, ast.NotIn):
            return self._call("sx_notin", [node.left, r], node)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(r, ast.Constant) and r.value in (True, False) and r.value is not None:
                return self._call("sx_is", [node.left, r, ast.Constant(value=isinstance(op, ast.IsNot))], node)
            return node
        return self._call("sx_cmp", [ast.Constant(value=_CMP[type(op)]), node.left, r], node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        o = _OPS.get(type(node.op))
        if o is None:
            return node
        return self._call("sx_binop", [ast.Constant(value=o), node.left, node.right], node)

    def _key(self, sl):
        if isinstance(sl, ast.Slice):
            none = ast.Constant(value=None)
            return ast.Call(func=_name("sx_slice"), args=[sl.lower or none, sl.upper or none, sl.step or none], keywords=[])
        return sl

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Tuple) and any(isinstance(e, ast.Slice) for e in node.slice.elts):
                return node
            return self._call("sx_getitem", [node.value, self._key(node.slice)], node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self._call("sx_setitem", [t.value, self._key(t.slice), node.value], node)), node)
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_AugAssign(self, node):
        o = _OPS.get(type(node.op))
        self.generic_visit(node)
        if o is None:
            return node
        t = node.target
        if isinstance(t, ast.Name):
            load = _name(t.id)
        elif isinstance(t, ast.Attribute) and _simple(t.value):
            load = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        elif isinstance(t, ast.Subscript) and _simple(t.value) and (_simple(t.slice)):
            v = self._call("sx_iop", [ast.Constant(value=o), self._call("sx_getitem", [t.value, t.slice], node), node.value], node)
            return ast.copy_location(ast.Expr(self._call("sx_setitem", [t.value, t.slice, v], node)), node)
        else:
            return node
        return ast.copy_location(ast.Assign(targets=[t], value=self._call(
            "sx_iop", [ast.Constant(value=o), load, node.value], node)), node)

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self._call("sx_delitem", [t.value, self._key(t.slice)], node)), node)
        return node

    def _func(self, node):
        self.functions += 1
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        body = [self.visit(s) for s in node.body]
        if self.trace:
            k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
            mark = ast.copy_location(ast.Expr(ast.copy_location(ast.Call(
                func=_name("sx_enter"), args=[ast.Constant(value=f"{self.mod}.{node.name}:{node.lineno}")], keywords=[]), node)), node)
            body.insert(k, mark)
        node.body = body
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def _loop(self, node):
        self.generic_visit(node)
        if self.trace:
            tick = ast.copy_location(ast.Expr(ast.copy_location(ast.Call(func=_name("sx_tick"), args=[], keywords=[]), node)), node)
            node.body.insert(0, tick)
        return node

    visit_While = _loop
    visit_For = _loop
    visit_AsyncFor = _loop

    def visit_MatchValue(self, node):
        return node

    def visit_arg(self, node):
        return node


class _Flat(T):
    pass


ENCODED = {}      # module -> number of functions instrumented


def transform(source, filename, modname):
    tree = ast.parse(source, filename)
    t = T(modname)
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    ENCODED[modname] = t.functions
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, name):
        self.path = path
        self.name = name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import hooks
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        module.__dict__.update(hooks.NAMES)
        module.__dict__["sx_slice"] = slice
        exec(transform(src, self.path, self.name), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots, extra=()):
        self.roots = roots            # package -> directory
        self.extra = dict(extra)      # module -> path

    def find_spec(self, name, path=None, target=None):
        if name in self.extra:
            p = self.extra[name]
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, name))
        root = name.split(".")[0]
        if root not in self.roots:
            return None
        base = os.path.join(self.roots[root], *name.split(".")[1:])
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_file_location(name, p, loader=Loader(p, name), submodule_search_locations=[base])
            return spec
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, name))
        return None


def install(repo="/repo", extra_modules=()):
    """Make `import mysql_mimic` load the instrumented code; returns the finder."""
    extra = {}
    for m in extra_modules:
        spec = importlib.util.find_spec(m)
        extra[m] = spec.origin
    f = Finder({"mysql_mimic": os.path.join(repo, "mysql_mimic")}, extra)
    for m in list(sys.modules):
        if m == "mysql_mimic" or m.startswith("mysql_mimic.") or m in extra:
            del sys.modules[m]
    sys.meta_path.insert(0, f)
    return f


def private_copy(modname, newname):
    """Instrumented private copy of a stdlib module."""
    spec = importlib.util.find_spec(modname)
    with open(spec.origin, encoding="utf-8") as fh:
        src = fh.read()
    from . import hooks
    mod = types.ModuleType(newname)
    mod.__file__ = spec.origin
    mod.__package__ = modname.rpartition(".")[0]
    mod.__dict__.update(hooks.NAMES)
    mod.__dict__["sx_slice"] = slice
    sys.modules[newname] = mod
    exec(transform(src, spec.origin, newname), mod.__dict__)
    return mod
