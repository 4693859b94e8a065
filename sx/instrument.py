"""
Load Python modules from source, rewritten so that symbolic values flow
through the operations C code would otherwise refuse.

The rewriting is local and meaning-preserving: ``f(x)`` -> ``_sx.call(f, x)``,
``a[b]`` -> ``_sx.getitem(a, b)``, ``a in b`` -> ``_sx.contains(a, b)``,
f-strings and ``%`` -> symbolic formatting, attribute and item stores are
journalled so that each path starts from the same state.
"""

import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import os
import sys
import types

from . import core, hooks

DIRECT = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__import__"}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.cls = []
        self.qual = []
        self.tmp = 0

    def rt(self, name, *args, **kw):
        return ast.Call(
            func=ast.Attribute(
                value=ast.Name(id="_sx", ctx=ast.Load()), attr=name, ctx=ast.Load()
            ),
            args=list(args),
            keywords=[],
        )

    # -- scopes
    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        self.qual.append(node.name)
        self.generic_visit(node)
        self.cls.pop()
        self.qual.pop()
        return node

    def _func(self, node):
        self.qual.append(node.name)
        cls, self.cls = self.cls, self.cls
        self.generic_visit(node)
        q = self.mod + ":" + ".".join(self.qual)
        self.qual.pop()
        at = 0
        b = node.body
        if (
            b
            and isinstance(b[0], ast.Expr)
            and isinstance(b[0].value, ast.Constant)
            and isinstance(b[0].value.value, str)
        ):
            at = 1
        b.insert(at, ast.Expr(value=self.rt("enter", ast.Constant(q))))
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    # -- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in DIRECT:
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(a) for a in node.keywords]
            return node
        self.generic_visit(node)
        new = self.rt("call", node.func, *node.args)
        new.keywords = node.keywords
        return new

    def _key(self, s):
        if isinstance(s, ast.Slice):
            n = ast.Constant(None)
            return ast.Call(
                func=ast.Attribute(
                    value=ast.Name(id="_sx", ctx=ast.Load()),
                    attr="slice",
                    ctx=ast.Load(),
                ),
                args=[s.lower or n, s.upper or n, s.step or n],
                keywords=[],
            )
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._key(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self.rt("getitem", node.value, self._key(node.slice))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self.rt("contains", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return c
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.rt("mod", node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                spec = self.visit_JoinedStr(spec) if spec is not None else ast.Constant("")
                parts.append(
                    ast.Tuple(
                        elts=[self.visit(v.value), ast.Constant(v.conversion), spec],
                        ctx=ast.Load(),
                    )
                )
        return self.rt("fstr", *parts)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                k = ast.Attribute(
                    value=ast.Name(id="_sx", ctx=ast.Load()),
                    attr="MISSING",
                    ctx=ast.Load(),
                )
            pairs.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return self.rt("mkdict", ast.List(elts=pairs, ctx=ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self.rt(
            "mkdict",
            ast.ListComp(
                elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                generators=node.generators,
            ),
        )

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.rt("mkset", ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.rt("mkset", ast.ListComp(elt=node.elt, generators=node.generators))

    # -- statements
    def _mangle(self, attr):
        if self.cls and attr.startswith("__") and not attr.endswith("__"):
            return "_" + self.cls[-1].lstrip("_") + attr
        return attr

    def _store(self, target, value):
        """statement storing value (an expression) in target"""
        if isinstance(target, ast.Subscript):
            return ast.Expr(
                value=self.rt("setitem", target.value, self._key(target.slice), value)
            )
        if isinstance(target, ast.Attribute):
            return ast.Expr(
                value=self.rt(
                    "setattr_",
                    target.value,
                    ast.Constant(self._mangle(target.attr)),
                    value,
                )
            )
        return ast.Assign(targets=[target], value=value)

    def _tmp(self):
        self.tmp += 1
        return "_sx_t%d" % self.tmp

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(
            node.targets[0], (ast.Subscript, ast.Attribute)
        ):
            return self._store(node.targets[0], node.value)
        if any(
            isinstance(s, (ast.Subscript, ast.Attribute)) and isinstance(s.ctx, ast.Store)
            for t in node.targets
            for s in ast.walk(t)
        ):
            if all(
                isinstance(t, (ast.Subscript, ast.Attribute, ast.Name))
                for t in node.targets
            ):
                t = self._tmp()
                out = [ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=node.value)]
                for x in node.targets:
                    out.append(self._store(x, ast.Name(id=t, ctx=ast.Load())))
                return out
            if len(node.targets) == 1 and isinstance(
                node.targets[0], (ast.Tuple, ast.List)
            ):
                elts = node.targets[0].elts
                if not any(isinstance(e, ast.Starred) for e in elts):
                    names, out = [], []
                    for e in elts:
                        names.append(self._tmp())
                    out.append(
                        ast.Assign(
                            targets=[
                                ast.Tuple(
                                    elts=[ast.Name(id=n, ctx=ast.Store()) for n in names],
                                    ctx=ast.Store(),
                                )
                            ],
                            value=node.value,
                        )
                    )
                    for e, n in zip(elts, names):
                        out.append(self._store(e, ast.Name(id=n, ctx=ast.Load())))
                    return out
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Name):
            return node
        node.target = self.visit(node.target)
        return self._store(node.target, node.value)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        if isinstance(t, ast.Name):
            if isinstance(node.op, ast.Mod):
                return ast.Assign(
                    targets=[t],
                    value=self.rt("mod", ast.Name(id=t.id, ctx=ast.Load()), node.value),
                )
            # in-place list operations must stay in place (and be journalled)
            return [
                ast.Expr(value=self.rt("aug", ast.Name(id=t.id, ctx=ast.Load()))),
                node,
            ]
        o = self._tmp()
        out = [
            ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())], value=t.value),
        ]
        oo = ast.Name(id=o, ctx=ast.Load())
        cur = self._tmp()
        if isinstance(t, ast.Subscript):
            k = self._tmp()
            out.append(
                ast.Assign(
                    targets=[ast.Name(id=k, ctx=ast.Store())], value=self._key(t.slice)
                )
            )
            kk = ast.Name(id=k, ctx=ast.Load())
            load = self.rt("getitem", oo, kk)
            store = ast.Expr(
                value=self.rt("setitem", oo, kk, ast.Name(id=cur, ctx=ast.Load()))
            )
        else:
            load = ast.Attribute(value=oo, attr=t.attr, ctx=ast.Load())
            store = ast.Expr(
                value=self.rt(
                    "setattr_",
                    oo,
                    ast.Constant(self._mangle(t.attr)),
                    ast.Name(id=cur, ctx=ast.Load()),
                )
            )
        out.append(ast.Assign(targets=[ast.Name(id=cur, ctx=ast.Store())], value=load))
        out.append(ast.Expr(value=self.rt("aug", ast.Name(id=cur, ctx=ast.Load()))))
        if isinstance(node.op, ast.Mod):
            out.append(
                ast.Assign(
                    targets=[ast.Name(id=cur, ctx=ast.Store())],
                    value=self.rt("mod", ast.Name(id=cur, ctx=ast.Load()), node.value),
                )
            )
        else:
            out.append(
                ast.AugAssign(
                    target=ast.Name(id=cur, ctx=ast.Store()), op=node.op, value=node.value
                )
            )
        out.append(store)
        return out

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(
                    ast.Expr(value=self.rt("delitem", t.value, self._key(t.slice)))
                )
            elif isinstance(t, ast.Attribute):
                out.append(
                    ast.Expr(
                        value=self.rt(
                            "delattr_", t.value, ast.Constant(self._mangle(t.attr))
                        )
                    )
                )
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    def visit_Try(self, node):
        self.generic_visit(node)
        # engine control flow passes through every handler
        node.handlers.insert(
            0,
            ast.ExceptHandler(
                type=ast.Attribute(
                    value=ast.Name(id="_sx", ctx=ast.Load()),
                    attr="SxControl",
                    ctx=ast.Load(),
                ),
                name=None,
                body=[ast.Raise()],
            ),
        ) if node.handlers else None
        return node


class Runtime:
    call = staticmethod(hooks.call)
    getitem = staticmethod(hooks.getitem)
    setitem = staticmethod(hooks.setitem)
    delitem = staticmethod(hooks.delitem)
    setattr_ = staticmethod(hooks.setattr_)
    delattr_ = staticmethod(hooks.delattr_)
    contains = staticmethod(hooks.contains)
    mod = staticmethod(hooks.mod)
    fstr = staticmethod(hooks.fstr)
    mkdict = staticmethod(hooks.mkdict)
    mkset = staticmethod(hooks.mkset)
    enter = staticmethod(hooks.enter)
    slice = slice
    MISSING = core.MISSING
    SxControl = core.SxControl

    @staticmethod
    def aug(x):
        if isinstance(x, (list, dict, set)):
            core.ENG.touch(x)


def instrument_source(src, filename, modname):
    tree = ast.parse(src, filename)
    # keep __future__ imports and the docstring first: nothing is inserted at
    # module level, the runtime is injected into the namespace
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


BUILTINS = {}  # name -> replacement seen by instrumented modules
OVERRIDES = {}  # module name -> replacement seen by instrumented modules


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split(".")[0]
        if name in OVERRIDES or top in OVERRIDES:
            if fromlist:
                m = OVERRIDES.get(name)
                if m is None:
                    m = OVERRIDES[top]
                    for part in name.split(".")[1:]:
                        m = getattr(m, part)
                return m
            return OVERRIDES.get(top) or builtins.__import__(name)
    return builtins.__import__(name, globals, locals, fromlist, level)


def prepare(module):
    b = dict(vars(builtins))
    b.update(BUILTINS)
    b["__import__"] = _import
    module.__dict__["__builtins__"] = b
    module.__dict__["_sx"] = Runtime


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        code = instrument_source(src, self.path, module.__name__)
        prepare(module)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """instrument every module of the named packages"""

    def __init__(self, roots):
        self.roots = roots  # package -> directory

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *fullname.split(".")[1:])
        if os.path.isdir(base):
            fn = os.path.join(base, "__init__.py")
            if not os.path.exists(fn):
                return None
            return importlib.util.spec_from_file_location(
                fullname, fn, loader=Loader(fn), submodule_search_locations=[base]
            )
        fn = base + ".py"
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(fullname, fn, loader=Loader(fn))
        return None


_finder = None


def install(roots):
    global _finder
    _finder = Finder(roots)
    sys.meta_path.insert(0, _finder)


def also(name):
    """instrument a pure Python module of the standard library, too"""
    spec = importlib.util.find_spec(name)
    base = os.path.splitext(spec.origin)[0]
    if os.path.basename(base) == "__init__":
        base = os.path.dirname(base)
    _finder.roots[name] = base
    for m in list(sys.modules):
        if m == name or m.startswith(name + "."):
            del sys.modules[m]
    return importlib.import_module(name)


_ = (importlib, types)
