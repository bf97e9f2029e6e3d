"""Stand-in for the numpy namespace inside code under analysis.

Functions with a model act on exact symbolic arrays.  Anything else is passed to the
real numpy when no symbolic value is involved, and is Unsupported otherwise.
"""

from __future__ import annotations

import builtins as _b
import functools
import math
from fractions import Fraction

import numpy as np

from . import core
from .core import Sym, SymBool, Unsupported, lift, lift_bool
from .nparr import (SymArray, SymBytes, TABLE, _div, exact, is_sym, reduce_axis, ssum, to_obj, ufunc, wb, wrap, _truth)

B = lift_bool
REG = {}
_range = _b.range


def reg(*names):
    def deco(f):
        for n in names or (f.__name__.rstrip("_"),):
            REG[n] = f
        return f
    return deco


def A(x):
    return to_obj(x)


def call(name, func, args, kwargs):
    f = REG.get(name)
    if f is not None:
        return f(*args, **kwargs)
    raise Unsupported(f"numpy.{name} on symbolic values")


def desym(x):
    """Concrete exact constants -> ordinary python/numpy values for real numpy calls."""
    if isinstance(x, Sym):
        c = x.c
        if c is None:
            raise Unsupported("symbolic argument")
        return float(c)
    if isinstance(x, SymBool):
        c = x.const()
        if c is None:
            raise Unsupported("symbolic argument")
        return c
    if isinstance(x, np.ndarray) and np.ndarray.dtype.__get__(x) == object:
        return np.array([desym(v) for v in np.ndarray.view(x, np.ndarray).ravel()]).reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return type(x)(desym(v) for v in x) if type(x) in (list, tuple) else x
    if isinstance(x, dict):
        return {k: desym(v) for k, v in x.items()}
    return x


def resym(x):
    if isinstance(x, np.ndarray):
        return wrap(to_obj(x)) if np.ndarray.dtype.__get__(x).kind == "f" else x
    if isinstance(x, (float, np.floating)):
        return exact(x)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(resym(v) for v in x)
    return x


class Random:
    """numpy.random stand-in: arbitrary draws, recorded by the harness."""

    def __init__(self):
        self.handler = None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            h = ENV.get("rng")
            if h is None:
                raise Unsupported(f"numpy.random.{name} outside a randomness harness")
            return h("numpy.random." + name, a, k)

        return f


ENV = {"rng": None}


class NPNamespace:
    def __init__(self):
        self.__dict__["random"] = Random()
        self.__dict__["__name__"] = "numpy"

    @property
    def pi(self):
        from . import scishim

        return scishim.pi() if core.CTX is not None else np.pi

    @property
    def e(self):
        return core.sexp(Sym.const_(1)) if core.CTX is not None else np.e

    def __getattr__(self, name):
        if name in REG:
            v = REG[name]
            self.__dict__[name] = v
            return v
        real = getattr(np, name)
        if isinstance(real, np.ufunc):
            v = UFn(real)
        elif isinstance(real, type) or not callable(real):
            v = real
            if isinstance(real, float) and math.isfinite(real):
                v = Sym.const_(Fraction(real))
            elif type(real).__name__ == "module":
                v = SubNS(real, "numpy." + name)
        else:
            v = passthrough(real, "numpy." + name)
        self.__dict__[name] = v
        return v


class SubNS:
    def __init__(self, real, name):
        self.__dict__["_real"] = real
        self.__dict__["__name__"] = name

    def __getattr__(self, n):
        real = getattr(self._real, n)
        if self.__dict__["__name__"] == "numpy.linalg" and n == "norm":
            return lambda x, ord=None, axis=None: core.ssqrt(ssum([v * v for v in A(x).ravel()]))
        if callable(real) and not isinstance(real, type):
            return passthrough(real, self.__name__ + "." + n)
        return real


def passthrough(real, label):
    @functools.wraps(real)
    def f(*a, **k):
        a2 = [desym_or_fail(x, label) for x in a]
        k2 = {n: desym_or_fail(v, label) for n, v in k.items()}
        return resym(real(*a2, **k2))

    return f


def desym_or_fail(x, label):
    try:
        return desym(x)
    except Unsupported:
        raise Unsupported(f"{label} on symbolic values") from None


class UFn:
    """ufunc proxy"""

    def __init__(self, real):
        self.real = real
        self.__name__ = real.__name__
        self.nin = real.nin

    def __call__(self, *args, **kw):
        nin = self.real.nin
        inputs, rest = args[:nin], args[nin:]
        if rest:
            kw["out"] = tuple(rest)
        if all(_plain_int(x) for x in inputs) and self.__name__ in INT_OK and "out" not in kw:
            return self.real(*inputs, **kw)
        return ufunc(self.real, "__call__", inputs, dict(kw))

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
        kw = {"axis": axis, "keepdims": keepdims}
        if initial is not None:
            kw["initial"] = initial
        return ufunc(self.real, "reduce", (a,), kw)

    def accumulate(self, a, axis=0, **k):
        return ufunc(self.real, "accumulate", (a,), {"axis": axis})

    def outer(self, a, b, **k):
        return ufunc(self.real, "outer", (a, b), {})

    def at(self, a, idx, b=None):
        raise Unsupported("ufunc.at")


INT_OK = {"add", "subtract", "multiply", "less", "less_equal", "greater", "greater_equal", "equal",
          "not_equal", "logical_and", "logical_or", "logical_not", "maximum", "minimum", "bitwise_and",
          "bitwise_or", "invert", "negative", "absolute", "remainder", "floor_divide", "mod", "abs"}


def _plain_int(x):
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return True
    return isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind in "iub"


# --------------------------------------------------------------------------- creation
def _isfloatdt(dtype):
    if dtype is None:
        return None
    if dtype in (float, "float", "float64", "f8", "d", np.float64, np.float32, np.floating, Sym):
        return True
    try:
        return np.dtype(dtype).kind == "f"
    except TypeError:
        return None


def _isintdt(dtype):
    try:
        return np.dtype(dtype).kind in "iu"
    except TypeError:
        return False


def _conv(arr, dtype):
    if dtype is None or dtype is object:
        return arr
    if _isfloatdt(dtype):
        if np.dtype(dtype if dtype is not Sym else float).itemsize == 4:
            return _map(arr, to_f32)
        if np.dtype(dtype if dtype is not Sym else float).itemsize < 4:
            raise Unsupported("half precision")
        return _map(arr, lambda v: lift(v) if not isinstance(v, float) else v)
    k = np.dtype(dtype).kind
    if k in "iu":
        if not any(isinstance(v, Sym) and v.c is None or isinstance(v, SymBool) for v in arr.ravel()):
            return np.array([int(v) for v in arr.ravel()], dtype=dtype).reshape(arr.shape)
        return _map(arr, lambda v: core.strunc(lift(v)) if not isinstance(v, int) else v)
    if k == "b":
        return _map(arr, lambda v: wb(_truth(v)))
    if k == "O":
        return arr
    raise Unsupported(f"dtype {dtype}")


def to_f32(v):
    v = lift(v)
    if isinstance(v, float):
        return v
    if v.c is not None:
        return Sym.const_(Fraction(float(np.float32(float(v.c)))))
    return core.fun("float32", v)


core.NUMERIC["float32"] = lambda x: float(np.float32(x))
core.MONOTONE["float32"] = (0, 1)


def _map(arr, f):
    arr = A(arr)
    out = np.empty(arr.shape, dtype=object)
    fl = out.reshape(-1)
    for i, v in enumerate(arr.ravel()):
        fl[i] = f(v)
    return fl.reshape(arr.shape)


def _maparr(x, f):
    a = A(x)
    if a.shape == ():
        return f(a.item())
    return _map(a, f).view(SymArray)


@reg("array")
def array(x, dtype=None, copy=True, ndmin=0, **k):
    if _keep_plain(x, dtype):
        return np.array(x, dtype=dtype)
    a = A(x)
    if isinstance(x, np.ndarray):
        a = a.copy()
    a = _conv(a, dtype)
    if ndmin and a.ndim < ndmin:
        a = a.reshape((1,) * (ndmin - a.ndim) + a.shape)
    if np.ndarray.dtype.__get__(a) != object:
        return a
    r = a.view(SymArray)
    if dtype is not None and _isfloatdt(dtype) and dtype is not Sym and np.dtype(dtype).itemsize != 8:
        r.sx_itemsize = np.dtype(dtype).itemsize
    return r


@reg("frombuffer")
def frombuffer(b, dtype=float, count=-1, offset=0, **k):
    if not isinstance(b, SymBytes):
        r = np.frombuffer(b, dtype=dtype, count=count, offset=offset)
        return array(r) if r.dtype.kind == "f" else r
    if not _isfloatdt(dtype):
        raise Unsupported("symbolic bytes read as something else than floats")
    return SymArray(b.numbers(np.dtype(dtype).itemsize, count, offset))


@reg("asarray", "asanyarray", "ascontiguousarray", "asfarray")
def asarray(x, dtype=None, **k):
    if isinstance(x, SymArray):
        if dtype is None or (_isfloatdt(dtype) and np.dtype(dtype if dtype is not Sym else float).itemsize == 8):
            return x
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind in "iub" and dtype is None:
        return x
    return array(x, dtype=dtype)


def _keep_plain(x, dtype):
    """Integer / bool / string data stays an ordinary array unless floats are asked for."""
    if dtype is not None:
        if _isfloatdt(dtype):
            return False
        if is_sym(x):
            return False
        return True
    if isinstance(x, np.ndarray):
        return not isinstance(x, SymArray) and x.dtype.kind in "iubUS"
    if isinstance(x, (list, tuple)):
        if not x:
            return False
        try:
            return _allints(x)
        except Unsupported:
            return False
    return isinstance(x, (int, bool, str, np.integer))


def _allints(x):
    if isinstance(x, (list, tuple)):
        return all(_allints(v) for v in x) and len(x) > 0
    if isinstance(x, np.ndarray):
        return not isinstance(x, SymArray) and x.dtype.kind in "iub"
    return isinstance(x, (int, bool, np.integer, np.bool_, str))


@reg("copy")
def copy_(x, *a, **k):
    return array(x)


def _fill(shape, v, dtype=None):
    if isinstance(shape, (Sym,)):
        shape = int(shape)
    if isinstance(shape, tuple):
        shape = tuple(int(s) for s in shape)
    if dtype is not None and not _isfloatdt(dtype) and dtype is not object:
        if not is_sym(v):
            return np.full(shape, v, dtype=dtype)
    out = np.empty(shape, dtype=object)
    fl = out.reshape(-1)
    vv = exact(v)
    if isinstance(vv, int) and not isinstance(vv, bool) and (dtype is None or _isfloatdt(dtype)):
        vv = Sym.const_(vv)
    for i in range(fl.shape[0]):
        fl[i] = vv
    return out.view(SymArray)


@reg("zeros")
def zeros(shape, dtype=None, **k):
    return _fill(shape, 0, dtype)


@reg("ones")
def ones(shape, dtype=None, **k):
    return _fill(shape, 1, dtype)


@reg("empty")
def empty(shape, dtype=None, **k):
    return _fill(shape, 0, dtype)


@reg("full")
def full(shape, v, dtype=None, **k):
    if dtype is None and isinstance(v, (int, bool, np.integer)):
        return np.full(shape, v)
    return _fill(shape, v, dtype)


def _like(x, v, dtype):
    x = asarray(x)
    if dtype is None and isinstance(x, np.ndarray) and not isinstance(x, SymArray):
        dtype = x.dtype
    return _fill(x.shape, v, dtype)


@reg("zeros_like")
def zeros_like(x, dtype=None, **k):
    return _like(x, 0, dtype)


@reg("ones_like")
def ones_like(x, dtype=None, **k):
    return _like(x, 1, dtype)


@reg("empty_like")
def empty_like(x, dtype=None, **k):
    return _like(x, 0, dtype)


@reg("full_like")
def full_like(x, v, dtype=None, **k):
    return _like(x, v, dtype)


@reg("arange")
def arange(*args, dtype=None, **k):
    start = k.get("start", None)
    step = k.get("step", 1)
    if "stop" in k:
        args = ((start if start is not None else 0), k["stop"])
    if len(args) == 1:
        start, stop = 0, args[0]
    elif len(args) == 2:
        start, stop = args
    else:
        start, stop, step = args[:3]
    if all(isinstance(v, (int, np.integer)) for v in (start, stop, step)):
        if dtype is None or not _isfloatdt(dtype):
            return np.arange(start, stop, step, dtype=dtype)
    s0, s1, st = [lift(v) for v in (start, stop, step)]
    n = (s1 - s0) / st
    if n.c is None:
        raise Unsupported("symbolic arange length")
    cnt = max(0, math.ceil(n.c))
    return SymArray([s0 + st * i for i in range(cnt)])


@reg("linspace")
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, **k):
    num = int(num)
    div = (num - 1) if endpoint else num
    s0, s1 = lift(start), lift(stop)
    if num == 0:
        return SymArray([])
    step = (s1 - s0) / div if div else Sym.const_(0)
    r = SymArray([s0 + step * i for i in range(num)])
    if endpoint and num > 1:
        r[num - 1] = s1
    return (r, step) if retstep else r


@reg("eye", "identity")
def eye(n, *a, **k):
    r = _fill((n, n), 0)
    for i in range(n):
        r[i, i] = Sym.const_(1)
    return r


@reg("fromiter")
def fromiter(it, dtype=None, count=-1, **k):
    return array(list(it), dtype=dtype)


# --------------------------------------------------------------------------- reductions
@reg("sum", "nansum")
def sum_(x, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    if hasattr(x, "__next__"):
        x = list(x)
    a = A(x)
    if where is not None and where is not np._NoValue:
        w = np.broadcast_to(A(where), a.shape)
        a = np.array(list(a.ravel()) + [None], dtype=object)[:-1].reshape(a.shape)
        for i in np.ndindex(*a.shape):
            a[i] = core.ite(_truth(w[i]), lift(a[i]), Sym.const_(0))
    if keepdims is np._NoValue:
        keepdims = False
    return reduce_axis(a, axis, keepdims, lambda xs: ssum([boolnum(v) for v in xs]))


def boolnum(v):
    return int(v) if isinstance(v, (bool, np.bool_)) else v


def _mean(xs):
    if len(xs) == 0:
        return math.nan
    return _div(ssum([boolnum(v) for v in xs]), len(xs))


@reg("mean", "average", "nanmean")
def mean(x, axis=None, dtype=None, out=None, keepdims=False, weights=None, **k):
    if isinstance(x, (map, filter)) or hasattr(x, "__next__"):
        raise TypeError("unsupported operand")
    if weights is not None:
        w = A(weights)
        return _div(ssum(list((wrap(A(x)) * wrap(w)).flat_items())), ssum(list(w)))
    return reduce_axis(A(x), axis, bool(keepdims is True), _mean)


def _var(xs, ddof):
    n = len(xs)
    m = _mean(xs)
    if isinstance(m, float):
        return math.nan
    s = ssum([(lift(v) - m) * (lift(v) - m) for v in xs])
    d = lift(n) - ddof
    if isinstance(d, Sym) and d.c is not None and d.c <= 0:
        return math.nan
    return _div(s, d)


@reg("var", "nanvar")
def var(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, correction=None, **k):
    if correction is not None:
        ddof = correction
    return reduce_axis(A(x), axis, bool(keepdims is True), lambda xs: _var(xs, ddof))


@reg("std", "nanstd")
def std(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, correction=None, **k):
    if correction is not None:
        ddof = correction
    return reduce_axis(A(x), axis, bool(keepdims is True), lambda xs: TABLE["sqrt"](_var(xs, ddof)))


@reg("prod", "product")
def prod(x, axis=None, **k):
    def f(xs):
        acc = Sym.const_(1)
        for v in xs:
            acc = acc * lift(v)
        return acc
    return reduce_axis(A(x), axis, bool(k.get("keepdims") is True), f)


def _nonempty(xs, nm):
    if len(xs) == 0:
        raise ValueError(f"zero-size array to reduction operation {nm} which has no identity")


def _intmax(xs, f):
    if all(isinstance(v, (int, np.integer)) for v in xs):
        return f(int(v) for v in xs)
    return None


@reg("max", "amax", "nanmax")
def max_(x, axis=None, out=None, keepdims=False, initial=None, **k):
    def f(xs):
        if initial is not None and initial is not np._NoValue:
            xs = list(xs) + [initial]
        _nonempty(xs, "maximum")
        r = _intmax(xs, max)
        return r if r is not None else core.smax(xs)
    return reduce_axis(A(x), axis, bool(keepdims is True), f)


@reg("min", "amin", "nanmin")
def min_(x, axis=None, out=None, keepdims=False, initial=None, **k):
    def f(xs):
        if initial is not None and initial is not np._NoValue:
            xs = list(xs) + [initial]
        _nonempty(xs, "minimum")
        r = _intmax(xs, min)
        return r if r is not None else core.smax(xs, "min")
    return reduce_axis(A(x), axis, bool(keepdims is True), f)


@reg("ptp")
def ptp(x, axis=None, **k):
    return max_(x, axis) - min_(x, axis)


def _argext(xs, op):
    _nonempty(xs, "argmax")
    idx = Sym.const_(0)
    best = lift(xs[0])
    cond = []
    # index of the first extreme element, as a symbolic integer
    ls = [lift(v) for v in xs]
    live = list(range(len(xs)))
    consts = [i for i in live if isinstance(ls[i], Sym) and ls[i].c is not None]
    if len(consts) > 1:          # only the first extreme constant can win
        top = (max if op == "ge" else min)(ls[i].c for i in consts)
        win = next(i for i in consts if ls[i].c == top)
        live = [i for i in live if i == win or i not in set(consts)]
    res = Sym.const_(live[-1])
    for i in live[-2::-1]:
        c = core.and_(*[B(core.cmp_(ls[i], ls[j], op)) for j in live if j != i])
        cc = c.const()
        if cc is True:
            res = Sym.const_(i)
        elif cc is None:
            res = core.ite(c, Sym.const_(i), res)
    if res.c is not None:
        return int(res.c)
    return res


@reg("argmax", "nanargmax")
def argmax(x, axis=None, **k):
    return reduce_axis(A(x), axis, False, lambda xs: _argext(xs, "ge"))


@reg("argmin", "nanargmin")
def argmin(x, axis=None, **k):
    return reduce_axis(A(x), axis, False, lambda xs: _argext(xs, "le"))


@reg("any")
def any_(x, axis=None, **k):
    return reduce_axis(A(x), axis, False, lambda xs: wb(core.or_(*[_truth(v) for v in xs])))


@reg("all", "alltrue")
def all_(x, axis=None, **k):
    return reduce_axis(A(x), axis, False, lambda xs: wb(core.and_(*[_truth(v) for v in xs])))


@reg("count_nonzero")
def count_nonzero(x, axis=None, **k):
    return reduce_axis(A(x), axis, False, lambda xs: ssum(
        [core.ite(_truth(v), Sym.const_(1), Sym.const_(0)) for v in xs]))


@reg("cumsum")
def cumsum(x, axis=None, **k):
    return _accum(np.add, x, axis)


@reg("cumprod")
def cumprod(x, axis=None, **k):
    return _accum(np.multiply, x, axis)


def _accum(f, x, axis):
    a = np.ravel(A(x)) if axis is None else A(x)
    if a.ndim < 2:
        return ufunc(f, "accumulate", (a,), {"axis": 0})
    if a.ndim > 2:
        raise Unsupported("accumulate nd")
    if axis in (0, -2):
        return wrap(_accum(f, a.T, 1).T)
    return SymArray([ufunc(f, "accumulate", (r,), {"axis": 0}) for r in a])


# --------------------------------------------------------------------------- sorting
def le_known(a, b):
    """True when a <= b holds on this path without forking."""
    r = core.cmp_(a, b, "le")
    if isinstance(r, bool):
        return r
    return core.ctx().entails(r, 1500)


def sort_values(xs):
    """Ascending order; equal elements are interchangeable, so ties never fork."""
    out = []
    for x in xs:
        x = lift(x) if not isinstance(x, (int, float)) or isinstance(x, bool) else x
        lo = len(out)
        # binary insertion from the right, scanning linearly keeps forks few under known orders
        i = len(out)
        while i > 0:
            y = out[i - 1]
            r = core.cmp_(y, x, "le")
            if isinstance(r, bool):
                if r:
                    break
                i -= 1
                continue
            if core.ctx().entails(r, 1500):
                break
            if core.ctx().entails(B(core.cmp_(x, y, "le")), 1500):
                i -= 1
                continue
            if bool(r):
                break
            i -= 1
        out.insert(i, x)
    return out


def argsort_stable(xs):
    idx = []
    for k, x in enumerate(xs):
        i = len(idx)
        while i > 0:
            y = xs[idx[i - 1]]
            if bool(core.cmp_(x, y, "lt")):
                i -= 1
            else:
                break
        idx.insert(i, k)
    return idx


@reg("sort")
def sort(x, axis=-1, kind=None, order=None, **k):
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind in "iub":
        return np.sort(x, axis=axis)
    a = A(x)
    if a.ndim == 1 or axis is None:
        return SymArray(sort_values(list(a.ravel())))
    if a.ndim == 0:
        raise ValueError("axis")
    if a.ndim == 2:
        rows = a if axis in (-1, 1) else a.T
        out = SymArray([sort_values(list(r)) for r in rows])
        return out if axis in (-1, 1) else wrap(out.T)
    raise Unsupported("sort of nd array")


@reg("argsort")
def argsort(x, axis=-1, kind=None, order=None, **k):
    a = A(x)
    if a.ndim != 1:
        raise Unsupported("argsort nd")
    return np.array(argsort_stable(list(a)), dtype=int)


@reg("unique")
def unique(x, return_index=False, return_inverse=False, return_counts=False, **k):
    vals = sort_values(list(A(x).ravel()))
    out, cnt = [], []
    for v in vals:
        if out and bool(core.cmp_(out[-1], v, "eq")):
            cnt[-1] += 1
        else:
            out.append(v)
            cnt.append(1)
    if return_index or return_inverse:
        raise Unsupported("unique with index")
    r = SymArray(out)
    return (r, np.array(cnt)) if return_counts else r


@reg("searchsorted")
def searchsorted(a, v, side="left", sorter=None):
    a = A(a)
    av = A(v)

    def one(y):
        op = "lt" if side == "left" else "le"
        return ssum([core.ite(B(core.cmp_(e, y, op)), Sym.const_(1), Sym.const_(0)) for e in a])

    if av.shape == ():
        return one(av.item())
    return _map(av, one).view(SymArray)


@reg("median", "nanmedian")
def median(x, axis=None, **k):
    def f(xs):
        s = sort_values(xs)
        n = len(s)
        if n == 0:
            return math.nan
        if n % 2:
            return lift(s[n // 2])
        return (lift(s[n // 2 - 1]) + s[n // 2]) / 2
    return reduce_axis(A(x), axis, bool(k.get("keepdims") is True), f)


@reg("quantile", "nanquantile")
def quantile(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, weights=None, interpolation=None, **k):
    if interpolation is not None:
        method = interpolation
    s = sort_values(list(A(a).ravel()))
    n = len(s)
    if n == 0:
        raise IndexError("index -1 is out of bounds for axis 0 with size 0")

    def one(qq):
        qq = lift(qq)
        if not bool(core.and_(B(core.cmp_(qq, 0, "ge")), B(core.cmp_(qq, 1, "le")))):
            raise ValueError("Quantiles must be in the range [0, 1]")
        return quantile_sorted(s, qq, method)

    qa = A(q)
    if qa.shape == ():
        return one(qa.item())
    return _map(qa, one).view(SymArray)


def quantile_sorted(s, q, method="linear"):
    n = len(s)
    h = q * (n - 1)
    if method == "linear":
        # piecewise linear: pick the segment by ite
        res = lift(s[n - 1])
        for i in range(n - 2, -1, -1):
            seg = lift(s[i]) + (lift(s[i + 1]) - lift(s[i])) * (h - i)
            res = core.ite(B(core.cmp_(h, i + 1, "lt")), seg, res)
        return res
    if method in ("lower", "higher", "nearest", "midpoint"):
        fl = core.sfloor(h)
        lo = lift(s[n - 1])
        hi = lift(s[n - 1])
        for i in range(n - 2, -1, -1):
            c = B(core.cmp_(h, i + 1, "lt"))
            lo = core.ite(c, lift(s[i]), lo)
            hi = core.ite(B(core.cmp_(h, i, "le")), lift(s[i]), hi)
        if method == "lower":
            return lo
        if method == "higher":
            return hi
        if method == "midpoint":
            return (lo + hi) / 2
        raise Unsupported("quantile nearest")
    if method in ("inverted_cdf",):
        # smallest x with F(x) >= q
        res = lift(s[n - 1])
        for i in range(n - 2, -1, -1):
            res = core.ite(B(core.cmp_(q * n, i + 1, "le")), lift(s[i]), res)
        return res
    raise Unsupported(f"quantile method {method}")


@reg("percentile")
def percentile(a, q, *args, **k):
    qa = A(q)
    q2 = lift(qa.item()) / 100 if qa.shape == () else _map(qa, lambda v: lift(v) / 100)
    return quantile(a, q2, *args, **k)


# --------------------------------------------------------------------------- elementwise with structure
@reg("where")
def where(c, x=None, y=None):
    ca = A(c)
    if x is None:
        if ca.shape == ():
            raise Unsupported("where of scalar")
        fl = [i for i, v in enumerate(ca.ravel()) if bool(_truth(v))]
        return (np.array(fl, dtype=int),)
    xa, ya = A(x), A(y)
    ca, xa, ya = np.broadcast_arrays(ca, xa, ya)
    out = np.empty(ca.shape, dtype=object)
    fl = out.reshape(-1)
    for i, (p, u, v) in enumerate(zip(ca.ravel(), xa.ravel(), ya.ravel())):
        fl[i] = core.ite(_truth(p), lift(u) if not isinstance(u, (SymBool, bool)) else u, lift(v) if not isinstance(v, (SymBool, bool)) else v)
    return wrap(fl.reshape(ca.shape))


@reg("select")
def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


@reg("nonzero")
def nonzero(x):
    a = A(x)
    hit = np.empty(a.shape, dtype=bool)
    for i, v in enumerate(a.ravel()):
        hit.reshape(-1)[i] = bool(_truth(v))
    return np.nonzero(hit)


@reg("argwhere")
def argwhere(x):
    return np.transpose(nonzero(x))


@reg("flatnonzero")
def flatnonzero(x):
    return np.array([i for i, v in enumerate(A(x).ravel()) if bool(_truth(v))], dtype=int)


@reg("clip")
def clip(x, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = x
    if lo is not None:
        r = ufunc(np.maximum, "__call__", (r, lo), {})
    if hi is not None:
        r = ufunc(np.minimum, "__call__", (r, hi), {})
    return r


@reg("diff")
def diff(x, n=1, axis=-1, prepend=None, append=None, **k):
    parts = []
    if prepend is not None:
        parts += list(np.atleast_1d(A(prepend)))
    parts += list(A(x))
    if append is not None:
        parts += list(np.atleast_1d(A(append)))
    for _ in range(int(n)):
        parts = [lift(b) - lift(a) for a, b in zip(parts[:-1], parts[1:])]
    return SymArray(parts)


@reg("ediff1d")
def ediff1d(x, **k):
    return diff(x)


@reg("concatenate", "hstack", "append")
def concatenate(seq, values=None, axis=0, **k):
    if values is not None and not isinstance(values, int):
        seq = (np.ravel(A(seq)), np.ravel(A(values)))
    if all(isinstance(s, np.ndarray) and not isinstance(s, SymArray) and s.dtype.kind in "iu" for s in seq):
        return np.concatenate(seq)
    arrs = [np.atleast_1d(A(s)) for s in seq]
    return np.concatenate(arrs, axis=0 if axis is None else axis).view(SymArray)


@reg("dot", "matmul", "inner")
def dot(a, b, **k):
    a, b = A(a), A(b)
    if a.ndim == 1 and b.ndim == 1:
        if len(a) != len(b):
            raise ValueError("shapes not aligned")
        return ssum([lift(x) * lift(y) for x, y in zip(a, b)])
    if a.ndim == 2 and b.ndim == 1:
        return SymArray([dot(r, b) for r in a])
    if a.ndim == 1 and b.ndim == 2:
        return SymArray([dot(a, b[:, j]) for j in range(b.shape[1])])
    if a.ndim == 2 and b.ndim == 2:
        return SymArray([[dot(a[i], b[:, j]) for j in range(b.shape[1])] for i in range(a.shape[0])])
    if a.ndim == 0 or b.ndim == 0:
        return wrap(a) * wrap(b)
    raise Unsupported("dot")


@reg("vdot")
def vdot(a, b):
    return dot(np.ravel(A(a)), np.ravel(A(b)))


@reg("outer")
def outer(a, b, **k):
    a, b = np.ravel(A(a)), np.ravel(A(b))
    return SymArray([[lift(x) * lift(y) for y in b] for x in a])


@reg("polyval")
def polyval(p, x):
    acc = Sym.const_(0)
    xs = A(x)
    for c in A(p):
        acc = acc * wrap(xs) + c
    return acc


@reg("round", "around", "round_")
def round_(x, decimals=0, **k):
    return _maparr(x, lambda v: round(lift(v), decimals) if decimals else lift(round(lift(v))))


@reg("abs", "absolute")
def abs_(x, **k):
    return ufunc(np.absolute, "__call__", (x,), {})


@reg("isin", "in1d")
def isin(x, test, **k):
    t = list(A(list(test) if isinstance(test, (set, frozenset)) else test).ravel())
    return _maparr(x, lambda v: wb(core.or_(*[B(core.cmp_(v, u, "eq")) for u in t])))


@reg("isclose")
def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = wrap(A(a)), wrap(A(b))
    return abs_(a - b) <= Sym.const_(Fraction(str(float(atol)))) + Sym.const_(Fraction(str(float(rtol)))) * abs_(b)


@reg("allclose")
def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return all_(isclose(a, b, rtol, atol))


@reg("array_equal")
def array_equal(a, b, **k):
    a, b = A(a), A(b)
    if a.shape != b.shape:
        return False
    return wb(core.and_(*[B(core.cmp_(x, y, "eq")) for x, y in zip(a.ravel(), b.ravel())]))


@reg("issubdtype")
def issubdtype(a, b):
    if a is Sym:
        a = float
    return np.issubdtype(a, b)


@reg("isscalar")
def isscalar(x):
    return isinstance(x, (Sym, SymBool)) or np.isscalar(x)


@reg("histogram")
def histogram(a, bins=10, range=None, density=None, weights=None):
    xs = list(A(a).ravel())
    if isinstance(bins, (Sym,)):
        bins = int(bins)
    if isinstance(bins, (int, np.integer)):
        if range is not None:
            lo, hi = lift(range[0]), lift(range[1])
        else:
            lo, hi = lift(core.smax(xs, "min")), lift(core.smax(xs))
            if bool(core.cmp_(lo, hi, "eq")):
                lo, hi = lo - Sym.const_(Fraction(1, 2)), hi + Sym.const_(Fraction(1, 2))
        edges = list(linspace(lo, hi, int(bins) + 1))
    elif isinstance(bins, str):
        raise Unsupported("histogram bins by name")
    else:
        edges = list(A(bins))
    nb = len(edges) - 1
    cnt = []
    for j in _range(nb):
        c = []
        for x in xs:
            lo_ok = B(core.cmp_(x, edges[j], "ge"))
            hi_ok = B(core.cmp_(x, edges[j + 1], "lt" if j < nb - 1 else "le"))
            c.append(core.ite(core.and_(lo_ok, hi_ok), Sym.const_(1), Sym.const_(0)))
        cnt.append(ssum(c))
    if density or weights is not None:
        raise Unsupported("histogram density/weights")
    return SymArray(cnt), SymArray(edges)


@reg("bincount")
def bincount(x, *a, **k):
    xs = A(x)
    return np.bincount(np.array([int(v) for v in xs]), *a, **k)


@reg("digitize")
def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")


@reg("atleast_1d")
def atleast_1d(x):
    return np.atleast_1d(A(x)).view(SymArray)


@reg("expand_dims")
def expand_dims(x, axis):
    return np.expand_dims(A(x), axis).view(SymArray)


@reg("squeeze")
def squeeze(x, axis=None):
    return wrap(np.squeeze(A(x), axis=axis))


@reg("ravel")
def ravel(x, *a, **k):
    return wrap(np.ravel(A(x)))


@reg("reshape")
def reshape(x, shape, *a, **k):
    return wrap(np.reshape(A(x), shape))


@reg("transpose")
def transpose(x, *a):
    return wrap(np.transpose(A(x), *a))


@reg("flip", "flipud")
def flip(x, axis=None):
    return wrap(np.flip(A(x), axis=axis))


@reg("tile")
def tile(x, r):
    return wrap(np.tile(A(x), r))


@reg("repeat")
def repeat(x, r, axis=None):
    return wrap(np.repeat(A(x), np.asarray(desym(r)), axis=axis))


@reg("roll")
def roll(x, s, axis=None):
    return wrap(np.roll(A(x), s, axis))


@reg("stack", "vstack", "row_stack")
def stack(seq, axis=0, **k):
    return wrap(np.stack([A(s) for s in seq], axis=axis))


@reg("column_stack")
def column_stack(seq):
    return wrap(np.stack([A(s) for s in seq], axis=1))


@reg("delete")
def delete(x, i, axis=None):
    return wrap(np.delete(A(x), i, axis))


@reg("insert")
def insert(x, i, v, axis=None):
    return wrap(np.insert(A(x), i, exact(v), axis))


@reg("take")
def take(x, i, axis=None, **k):
    return wrap(A(x))[i]


@reg("broadcast_to")
def broadcast_to(x, shape):
    return wrap(np.broadcast_to(A(x), shape))


@reg("triu_indices")
def triu_indices(n, k=0, m=None):
    return np.triu_indices(n, k, m)


@reg("shape")
def shape(x):
    return A(x).shape


@reg("size")
def size(x, axis=None):
    return A(x).size


@reg("ndim")
def ndim(x):
    return A(x).ndim


@reg("_astype")
def _astype(x, dtype):
    a = _conv(A(x).copy(), dtype)
    if np.ndarray.dtype.__get__(a) != object:
        return a
    r = a.view(SymArray)
    if _isfloatdt(dtype) and dtype is not Sym and np.dtype(dtype).itemsize != 8:
        r.sx_itemsize = np.dtype(dtype).itemsize
    return r


def _floatcast(kind):
    def f(v=0.0):
        if isinstance(v, (Sym, SymBool)):
            v = lift(v)
            return to_f32(v) if kind == 32 else v
        if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
            return _astype(v, float)
        return to_f32(v) if kind == 32 else exact(float(v))
    return f


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (Sym, cls._real))

    def __call__(cls, v=0.0):
        return _floatcast(32 if cls._real is np.float32 else 64)(v)


class float64(metaclass=_FloatMeta):
    _real = np.float64


@reg("trapezoid", "trapz")
def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = [lift(v) for v in A(y)]
    xs = [lift(v) for v in A(x)] if x is not None else [lift(dx) * i for i in _range(len(y))]
    return ssum([(xs[i + 1] - xs[i]) * (y[i] + y[i + 1]) / 2 for i in _range(len(y) - 1)])


@reg("corrcoef")
def corrcoef(x, y=None, **k):
    if y is None:
        raise Unsupported("corrcoef matrix")
    from .scishim import pearson_r

    r = pearson_r(x, y)
    return SymArray([[1, r], [r, 1]])


@reg("cov")
def cov(x, y=None, ddof=1, bias=False, **k):
    if y is None:
        return var(x, ddof=0 if bias else ddof)
    a, b = list(A(x)), list(A(y))
    n = len(a)
    d = n if bias else n - ddof

    def c(u, v):
        mu, mv = _mean(u), _mean(v)
        return ssum([(lift(p) - mu) * (lift(q) - mv) for p, q in zip(u, v)]) / d

    return SymArray([[c(a, a), c(a, b)], [c(a, b), c(b, b)]])


@reg("nan_to_num")
def nan_to_num(x, *a, **k):
    return x


@reg("iterable")
def iterable(x):
    return isinstance(x, (list, tuple, np.ndarray))


@reg("meshgrid")
def meshgrid(a, b, **k):
    a, b = A(a), A(b)
    X, Y = np.meshgrid(np.arange(len(a)), np.arange(len(b)), **{kk: v for kk, v in k.items() if kk == "indexing"})
    return wrap(a)[X], wrap(b)[Y]


@reg("vectorize")
def vectorize(f, *a, **k):
    return lambda *xs: _vec(f, *xs)


def _vec(f, *xs):
    arrs = np.broadcast_arrays(*[A(x) for x in xs])
    return SymArray([f(*vals) for vals in zip(*[a.ravel() for a in arrs])])


@reg("errstate")
class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _MA:
    def isMaskedArray(self, x):
        return False

    def __getattr__(self, n):
        raise Unsupported("numpy.ma." + n)


NP = NPNamespace()
NP.__dict__["ma"] = _MA()
NP.__dict__["float64"] = np.float64


# --------------------------------------------------------------------------- rearrangements
def _structural(name, nargs=1):
    real = getattr(np, name)

    def f(*a, **k):
        args = [wrap(A(v)) if i < nargs else desym(v) for i, v in enumerate(a)]
        r = real(*[np.asarray(v, dtype=object) if i < nargs else v for i, v in enumerate(args)], **{q: desym(v) for q, v in k.items()})
        if isinstance(r, (list, tuple)):
            return type(r)(wrap(v) for v in r)
        return wrap(r)
    return f


for _n in ("resize", "split", "array_split", "hsplit", "vsplit", "atleast_2d", "atleast_3d", "diag", "diagonal", "diagflat", "swapaxes", "moveaxis", "rollaxis",
           "matrix_transpose", "fliplr", "rot90", "tril", "triu"):
    if hasattr(np, _n) and _n not in REG:
        reg(_n)(_structural(_n))


@reg("broadcast_arrays")
def broadcast_arrays(*xs, **k):
    return tuple(wrap(v) for v in np.broadcast_arrays(*[np.asarray(A(x), dtype=object) for x in xs]))


@reg("concat")
def concat(seq, axis=0, **k):
    return concatenate(seq, None, axis)


@reg("trace")
def trace(x, **k):
    a = A(x)
    return ssum([a[i, i] for i in range(min(a.shape))])


@reg("compress", "extract")
def compress(cond, x, axis=None, **k):
    a = np.ravel(A(x))
    keep = [i for i, v in enumerate(np.ravel(A(cond))) if bool(_truth(v))]
    return SymArray([a[i] for i in keep])


@reg("take_along_axis")
def take_along_axis(x, i, axis=-1):
    return wrap(np.take_along_axis(np.asarray(A(x), dtype=object), np.asarray(desym(i), dtype=int), axis))


@reg("partition")
def partition(x, kth, axis=-1, **k):
    return sort(x, axis)


@reg("argpartition")
def argpartition(x, kth, axis=-1, **k):
    return argsort(x, axis)


@reg("cumulative_sum")
def cumulative_sum(x, axis=None, **k):
    return cumsum(x, axis)


@reg("cumulative_prod")
def cumulative_prod(x, axis=None, **k):
    return cumprod(x, axis)


@reg("convolve")
def convolve(a, v, mode="full"):
    a, v = list(np.ravel(A(a))), list(np.ravel(A(v)))
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    full = [ssum([lift(a[i]) * lift(v[k - i]) for i in range(max(0, k - m + 1), min(n, k + 1))]) for k in range(n + m - 1)]
    if mode == "full":
        return SymArray(full)
    if mode == "valid":
        return SymArray(full[m - 1:n])
    return SymArray(full[(m - 1) // 2:(m - 1) // 2 + n])


@reg("interp")
def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp with a period")
    xp, fp = [lift(v) for v in np.ravel(A(xp))], [lift(v) for v in np.ravel(A(fp))]

    def one(v):
        v = lift(v)
        if bool(_truth(core.cmp_(v, xp[0], "lt"))):
            return fp[0] if left is None else lift(left)
        for i in range(len(xp) - 1):
            if bool(_truth(core.cmp_(v, xp[i + 1], "lt"))):
                return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])
        if right is not None and bool(_truth(core.cmp_(v, xp[-1], "gt"))):
            return lift(right)
        return fp[-1]
    a = A(x)
    return one(a.item()) if a.shape == () else _map(a, one).view(SymArray)


@reg("pad")
def pad(x, width, mode="constant", constant_values=0, **k):
    a = list(np.ravel(A(x)))
    w = desym(width)
    lo, hi = (w, w) if isinstance(w, (int, np.integer)) else tuple(np.ravel(w)) if np.size(w) == 2 else (int(np.ravel(w)[0]),) * 2
    if mode == "constant":
        c = np.ravel(A(constant_values))
        return SymArray([lift(c[0])] * int(lo) + a + [lift(c[-1])] * int(hi))
    if mode == "edge":
        return SymArray([a[0]] * int(lo) + a + [a[-1]] * int(hi))
    raise Unsupported("pad " + str(mode))
