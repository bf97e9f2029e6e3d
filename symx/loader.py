"""Loads pysatl_criterion from /repo/src into a private module registry with symbolic stand-ins.

The source text is read from the working tree on every run; the AST is rewritten so that
division, power and float literals are exact and calls of float/int/isinstance understand
symbolic values.  Imports of numpy/math/scipy resolve to the stand-ins.
"""

from __future__ import annotations

import ast
import builtins
import functools as _functools
import importlib
import os
import sys
import types
from fractions import Fraction

import numpy as np

from . import core, npshim, scishim, pdshim
from .core import Sym, SymBool, Unsupported, lift, lift_bool
from .nparr import SymArray, exact, is_sym, ssum, ufunc, _truth, wrap, to_obj

REPO_SRC = os.environ.get("SX_REPO_SRC", "/repo/src")
PKG = "pysatl_criterion"


# --------------------------------------------------------------------------- AST transform
class T(ast.NodeTransformer):
    def __init__(self):
        self.fn = 0

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(_call("__sx_c__", [ast.Constant(repr(n.value))]), n)
        return n

    def visit_JoinedStr(self, n):
        # leave format specs alone; transform only expressions
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(_call("__sx_div__", [n.left, n.right]), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(_call("__sx_pow__", [n.left, n.right]), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)):
            f = "__sx_idiv__" if isinstance(n.op, ast.Div) else "__sx_ipow__"
            if isinstance(n.target, ast.Name):
                load = ast.Name(n.target.id, ast.Load())
                return ast.copy_location(ast.Assign([n.target], _call(f, [load, n.value])), n)
            if isinstance(n.target, ast.Attribute):
                load = ast.Attribute(n.target.value, n.target.attr, ast.Load())
                return ast.copy_location(ast.Assign([n.target], _call(f, [load, n.value])), n)
            load = ast.Subscript(n.target.value, n.target.slice, ast.Load())
            return ast.copy_location(ast.Assign([n.target], _call(f, [load, n.value])), n)
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "issubclass"):
            n.func.id = "__sx_isinstance__" if n.func.id == "isinstance" else "issubclass"
            return self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("float", "int", "bool"):
            n.func.id = f"__sx_{n.func.id}__"
        if isinstance(n.func, ast.Name) and n.func.id == "map" and n.args and isinstance(n.args[0], ast.Name) \
                and n.args[0].id in ("float", "int", "bool"):
            n.args[0].id = f"__sx_{n.args[0].id}__"
        return self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arguments(self, n):
        n.defaults = [self.visit(d) for d in n.defaults]
        n.kw_defaults = [self.visit(d) if d is not None else None for d in n.kw_defaults]
        return n

    def visit_FunctionDef(self, n):
        n.args = self.visit(n.args)
        n.body = [self.visit(b) for b in n.body]
        n.body = [x for b in n.body for x in (b if isinstance(b, list) else [b])]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            f = "__sx_in__"
            c = _call(f, [n.left, n.comparators[0]])
            if isinstance(n.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(ast.Not(), c), n)
            return ast.copy_location(c, n)
        return n


def _call(name, args):
    return ast.Call(ast.Name(name, ast.Load()), args, [])


# --------------------------------------------------------------------------- runtime helpers
_consts = {}


def sx_c(r):
    v = _consts.get(r)
    if v is None:
        f = float(r)
        v = Sym.const_(Fraction(r)) if f == f and f not in (float("inf"), float("-inf")) else f
        _consts[r] = v
    return v


def _arrayish(x):
    return isinstance(x, np.ndarray) and x.shape != ()


def sx_div(a, b):
    if _arrayish(a) or _arrayish(b):
        return ufunc(np.divide, "__call__", (a, b), {})
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return a / b
    if isinstance(lb, Sym) and lb.c is not None and lb.c == 0:
        raise ZeroDivisionError("float division by zero")
    return la / lb


def sx_idiv(a, b):
    if isinstance(a, SymArray):
        r = ufunc(np.divide, "__call__", (a, b), {})
        a.raw()[...] = to_obj(r)
        return a
    if isinstance(a, np.ndarray) and a.dtype.kind in "iu" and a.shape:
        raise TypeError("Cannot cast ufunc 'divide' output from dtype('float64') to dtype('int64')")
    return sx_div(a, b)


def sx_pow(a, b):
    if _arrayish(a) or _arrayish(b):
        if not is_sym(a) and not is_sym(b) and _intlike(a) and _intlike(b):
            return a ** b
        return ufunc(np.power, "__call__", (a, b), {})
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and b >= 0:
        return int(a) ** int(b)
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return a ** b
    if isinstance(la, float) or isinstance(lb, float):
        return float(la) ** float(lb)
    return core.spow(la, lb)


def _intlike(x):
    return isinstance(x, (int, np.integer)) or (isinstance(x, np.ndarray) and x.dtype.kind in "iu")


def sx_ipow(a, b):
    if isinstance(a, SymArray):
        r = ufunc(np.power, "__call__", (a, b), {})
        a.raw()[...] = to_obj(r)
        return a
    return sx_pow(a, b)


def sx_float(*a):
    if not a:
        return Sym.const_(0)
    x = a[0]
    if isinstance(x, (Sym, SymBool)):
        return lift(x)
    if isinstance(x, SymArray):
        if x.size == 1:
            return lift(x.raw().ravel()[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    v = float(x)
    return lift(v)


def sx_int(*a):
    if not a:
        return 0
    x = a[0]
    if isinstance(x, SymArray) and x.size == 1:
        x = x.raw().ravel()[0]
    if isinstance(x, Sym):
        if x.c is not None:
            return int(x.c)
        v = core.strunc(x)
        return int(v.c) if v.c is not None else v
    if isinstance(x, SymBool):
        return lift(x)
    return int(*a)


def sx_bool(*a):
    if not a:
        return False
    x = a[0]
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        r = core.cmp_(x, 0, "ne")
        return r
    return bool(x)


def _isin(o, t):
    if isinstance(t, tuple):
        return any(_isin(o, u) for u in t)
    if isinstance(t, types.UnionType):
        return any(_isin(o, u) for u in t.__args__)
    if isinstance(o, Sym):
        import numbers

        return t in (float, object, np.floating, np.float64, np.number, np.generic, numbers.Number, numbers.Real) \
            or t is Sym
    if isinstance(o, SymBool):
        return t in (bool, object, np.bool_, int)
    return isinstance(o, t)


def sx_isinstance(o, t):
    return _isin(o, t)


def sx_in(x, c):
    if isinstance(c, np.ndarray) and (is_sym(c) or is_sym(x)):
        return bool(core.or_(*[lift_bool(core.cmp_(x, y, "eq")) for y in to_obj(c).ravel()]))
    return x in c


def sx_sum(it, start=0):
    xs = list(it)
    if start == 0 and xs and any(isinstance(x, (Sym, SymBool)) for x in xs) and \
            all(lift(x) is not None and not isinstance(x, np.ndarray) for x in xs):
        return ssum(xs)
    return builtins.sum(xs, start)


def _mm(kind):
    real = builtins.max if kind == "max" else builtins.min

    def f(*a, key=None, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if key is None and xs and any(isinstance(x, (Sym, SymBool)) for x in xs):
            if all(lift(x) is not None for x in xs):
                return core.smax(xs, kind)
        if key is not None:
            return real(xs, key=key, **k)
        return real(xs, **k)

    f.__name__ = kind
    return f


def sx_abs(x):
    if isinstance(x, SymArray):
        return npshim.abs_(x)
    return builtins.abs(x)


def sx_sorted(it, key=None, reverse=False):
    xs = list(it)
    if key is None and xs and any(isinstance(x, (Sym,)) for x in xs):
        r = npshim.sort_values(xs)
        return r[::-1] if reverse else r
    return builtins.sorted(xs, key=key, reverse=reverse)


def sx_round(x, nd=None):
    if isinstance(x, SymArray):
        return npshim.round_(x, nd or 0)
    if isinstance(x, Sym):
        if x.c is None:
            return round(x, nd)
        r = round(x.c, nd) if nd is not None else round(x.c)
        return Sym.const_(r) if nd is not None else int(r)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def sx_pow3(a, b, m=None):
    if m is not None:
        return builtins.pow(a, b, m)
    return sx_pow(a, b)


def sx_print(*a, **k):
    return None


class FunctoolsNS:
    __name__ = "functools"

    def __getattr__(self, n):
        return getattr(_functools, n)

    @staticmethod
    def lru_cache(*a, **k):
        if a and callable(a[0]):
            return _symcache(a[0], None)
        return lambda f: _symcache(f, (a, k))

    @staticmethod
    def cache(f):
        return _symcache(f, None)


def _symcache(f, spec):
    """Real caching for hashable concrete arguments; keyed on identity of the exact value otherwise."""
    store = {}

    @_functools.wraps(f)
    def g(*a, **k):
        try:
            key = (tuple(_ck(x) for x in a), tuple(sorted((n, _ck(v)) for n, v in k.items())))
            hash(key)
        except TypeError:
            raise TypeError("unhashable type") from None
        if key not in store:
            store[key] = f(*a, **k)
        return store[key]

    g.cache_clear = store.clear
    g.__sx_store__ = store
    return g


def _ck(x):
    if isinstance(x, Sym):
        return ("sym", tuple(sorted(x.canon().p.items())))
    return x


class ImportlibNS:
    __name__ = "importlib"

    def __init__(self, reg):
        self._reg = reg

    def import_module(self, name, package=None):
        return self._reg.imp(name if not package or not name.startswith(".") else importlib.util.resolve_name(name, package))

    def __getattr__(self, n):
        return getattr(importlib, n)


class Registry:
    """A private set of loaded modules."""

    _code = {}

    def __init__(self, stubs=None, src=None):
        self.modules = {}
        self.stubs = stubs or {}
        self.src = src or REPO_SRC
        self.used_files = {}
        b = dict(vars(builtins))
        b.update(
            __import__=self._import,
            __sx_c__=sx_c, __sx_div__=sx_div, __sx_pow__=sx_pow, __sx_idiv__=sx_idiv, __sx_ipow__=sx_ipow,
            __sx_float__=sx_float, __sx_int__=sx_int, __sx_bool__=sx_bool, __sx_isinstance__=sx_isinstance,
            __sx_in__=sx_in,
            sum=sx_sum, max=_mm("max"), min=_mm("min"), sorted=sx_sorted, round=sx_round, abs=sx_abs, pow=sx_pow3,
            print=sx_print,
        )
        self.builtins = b
        self.functools = FunctoolsNS()
        self.importlib = ImportlibNS(self)

    def path(self, name):
        base = os.path.join(self.src, *name.split("."))
        if os.path.isdir(base):
            return os.path.join(base, "__init__.py"), True
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        return None, False

    def imp(self, name):
        if name in self.stubs:
            return self.stubs[name]
        if name.split(".")[0] != PKG:
            ns = self.foreign(name)
            return ns
        if name in self.modules:
            return self.modules[name]
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.imp(parent)
            if name in self.modules:
                return self.modules[name]
        path, ispkg = self.path(name)
        if path is None:
            raise ModuleNotFoundError(f"No module named {name!r}")
        m = types.ModuleType(name)
        m.__file__ = path
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = parent
        m.__builtins__ = self.builtins
        self.modules[name] = m
        self.used_files[name] = path
        try:
            if os.path.exists(path):
                exec(self.code(path), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        m = self.modules[name]
        if parent:
            setattr(self.modules[parent], leaf, m)
        return m

    def code(self, path):
        c = Registry._code.get(path)
        if c is None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            tree = ast.parse(src, path)
            tree = T().visit(tree)
            ast.fix_missing_locations(tree)
            c = compile(tree, path, "exec", dont_inherit=True)
            Registry._code[path] = c
        return c

    def foreign(self, name):
        ns = scishim.namespace(name)
        if ns is not None:
            return ns
        if name == "functools":
            return self.functools
        if name == "importlib":
            return self.importlib
        if name == "random":
            return npshim.NP.random
        if name == "pandas":
            return pdshim.PANDAS
        return importlib.import_module(name)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            base = pkg.split(".")
            if level > 1:
                base = base[: len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        if top == PKG or name in self.stubs:
            m = self.imp(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        sub = name + "." + f
                        if sub in self.stubs or self.path(sub)[0]:
                            setattr(m, f, self.imp(sub))
                return m
            return self.imp(top)
        if top == "sys":
            return SysShim(self)
        if top in ("numpy", "scipy", "math", "functools", "importlib", "random", "pandas"):
            if not fromlist:
                m = self.foreign(top)
                return m
            return self.foreign(name)
        return builtins.__import__(name, globals, locals, fromlist, 0)


class SysShim:
    """sys whose module table shows the private registry."""

    def __init__(self, reg):
        import collections

        self.modules = collections.ChainMap(reg.modules, sys.modules)

    def __getattr__(self, n):
        return getattr(sys, n)
