"""Symbolic numpy arrays (object dtype) and the ufunc table."""

from __future__ import annotations

import math

import numpy as np

from . import core
from .core import Sym, SymBool, Unsupported, lift, lift_bool


class Packed:
    """The binary image of numbers in one float format."""

    def __init__(self, values, itemsize):
        self.values, self.itemsize = values, itemsize

    def __len__(self):
        return len(self.values) * self.itemsize


class SymBytes:
    """A byte string some pieces of which are binary images of symbolic numbers (or opaque images of other byte strings)."""

    def __init__(self, pieces):
        self.pieces = [p for p in pieces if len(p)]

    def __len__(self):
        return sum(len(p) for p in self.pieces)

    def __add__(self, o):
        return SymBytes(self.pieces + (o.pieces if isinstance(o, SymBytes) else [bytes(o)]))

    def __radd__(self, o):
        return SymBytes([bytes(o)] + self.pieces)

    def __getitem__(self, k):
        if not isinstance(k, slice):
            r = self[k:k + 1 or None]
            return r[0]
        lo, hi, step = k.indices(len(self))
        if step != 1:
            raise Unsupported("stepping through symbolic bytes")
        out, at = [], 0
        for p in self.pieces:
            a, b = max(lo, at), min(hi, at + len(p))
            if a < b:
                if isinstance(p, bytes):
                    out.append(p[a - at:b - at])
                elif b - a == len(p):
                    out.append(p)
                elif isinstance(p, Packed) and (a - at) % p.itemsize == 0 and (b - at) % p.itemsize == 0:
                    out.append(Packed(p.values[(a - at) // p.itemsize:(b - at) // p.itemsize], p.itemsize))
                else:
                    raise Unsupported("part of a symbolic number's bytes")
            at += len(p)
        if all(isinstance(p, bytes) for p in out):
            return b"".join(out)
        return SymBytes(out)

    def numbers(self, itemsize, count, offset=0):
        v = []
        for p in (self[offset:] if offset else self).pieces:
            if not isinstance(p, Packed) or p.itemsize != itemsize:
                raise Unsupported("symbolic bytes read in another format")
            v += p.values
        if count is not None and count >= 0:
            if count > len(v):
                raise ValueError("buffer is smaller than requested size")
            v = v[:count]
        return v


class Squeezed:
    """A compressed byte string."""

    def __init__(self, inner):
        self.inner = inner

    def __len__(self):
        return 9 + (len(self.inner) + 1) // 2


def zstd_stub():
    import types

    class Compressor:
        def __init__(self, *a, **k):
            pass

        def compress(self, b):
            return SymBytes([Squeezed(b)])

    class Decompressor:
        def __init__(self, *a, **k):
            pass

        def decompress(self, b, *a, **k):
            if isinstance(b, SymBytes) and len(b.pieces) == 1 and isinstance(b.pieces[0], Squeezed):
                return b.pieces[0].inner
            raise Unsupported("decompression of other bytes")

    m = types.ModuleType("zstandard")
    m.ZstdCompressor, m.ZstdDecompressor = Compressor, Decompressor
    return m


class SymArray(np.ndarray):
    """Object array whose elements are Sym / SymBool / python numbers."""

    def __new__(cls, data):
        return to_obj(data).view(cls)

    __array_priority__ = 1e5

    def __array_finalize__(self, obj):
        pass

    @property
    def dtype(self):
        base = np.ndarray.dtype.__get__(self)
        if base != object:
            return base
        for x in self.flat_items():
            if isinstance(x, (SymBool, bool, np.bool_)):
                return np.dtype(bool)
            break
        return np.dtype(np.float64)

    def flat_items(self):
        return list(np.ndarray.view(self, np.ndarray).ravel())

    def raw(self):
        return np.ndarray.view(self, np.ndarray)

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim

        return npshim.call(func.__name__, func, args, kwargs)

    # -- indexing
    def __getitem__(self, idx):
        idx = conv_index(self, idx)
        if isinstance(idx, _Pick):
            return idx.get(self)
        r = np.ndarray.__getitem__(self, idx)
        return r

    def __setitem__(self, idx, val):
        idx = conv_index(self, idx)
        if isinstance(idx, _Pick):
            idx = int(idx.sym)
        if isinstance(val, (list, tuple)):
            val = to_obj(val)
        elif isinstance(val, np.ndarray) and not isinstance(val, SymArray):
            val = to_obj(val)
        raw = self.raw()
        raw[idx] = val if not isinstance(val, SymArray) else val.raw()

    def __iter__(self):
        if self.ndim == 1:
            return iter(list(self.raw()))
        return iter([self[i] for i in range(self.shape[0])])

    # -- methods
    def _np(self, name, *a, **k):
        from . import npshim

        return getattr(npshim.NP, name)(self, *a, **k)

    def sort(self, axis=-1, **k):
        from . import npshim

        r = npshim.NP.sort(self, axis=axis)
        self.raw()[...] = r.raw() if isinstance(r, SymArray) else r

    def argsort(self, *a, **k):
        return self._np("argsort", *a, **k)

    def mean(self, *a, **k):
        return self._np("mean", *a, **k)

    def sum(self, *a, **k):
        return self._np("sum", *a, **k)

    def prod(self, *a, **k):
        return self._np("prod", *a, **k)

    def std(self, *a, **k):
        return self._np("std", *a, **k)

    def var(self, *a, **k):
        return self._np("var", *a, **k)

    def max(self, *a, **k):
        return self._np("max", *a, **k)

    def min(self, *a, **k):
        return self._np("min", *a, **k)

    def argmax(self, *a, **k):
        return self._np("argmax", *a, **k)

    def argmin(self, *a, **k):
        return self._np("argmin", *a, **k)

    def cumsum(self, *a, **k):
        return self._np("cumsum", *a, **k)

    def dot(self, o):
        return self._np("dot", o)

    def any(self, *a, **k):
        return self._np("any", *a, **k)

    def all(self, *a, **k):
        return self._np("all", *a, **k)

    def clip(self, *a, **k):
        return self._np("clip", *a, **k)

    def round(self, *a, **k):
        return self._np("round", *a, **k)

    def searchsorted(self, *a, **k):
        return self._np("searchsorted", *a, **k)

    def astype(self, dtype, *a, **k):
        return self._np("_astype", dtype)

    def tolist(self):
        return _tolist(self.raw())

    def item(self, *a):
        return self.raw().item(*a)

    def copy(self, *a, **k):
        return np.ndarray.copy(self).view(SymArray)

    def __deepcopy__(self, memo):
        return self.copy()

    def __matmul__(self, o):
        return self._np("dot", o)

    def __rmatmul__(self, o):
        from . import npshim

        return npshim.NP.dot(o, self)

    def __bool__(self):
        if self.size == 1:
            return bool(self.raw().ravel()[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        if self.size == 1:
            return core_float(self.raw().ravel()[0])
        raise TypeError("only length-1 arrays can be converted")

    def __contains__(self, v):
        return bool(core.or_(*[B(core.cmp_(x, v, "eq")) for x in self.flat_items()]))

    def __repr__(self):
        return f"SymArray({self.tolist()!r})"

    __str__ = __repr__

    def __reduce__(self):
        raise Unsupported("pickle of a symbolic array")

    def tobytes(self, *a, **k):
        return SymBytes([Packed(list(self.raw().ravel()), getattr(self, "sx_itemsize", 8))])

    @property
    def T(self):
        return np.ndarray.transpose(self)


B = lift_bool


def core_float(x):
    return x if isinstance(x, Sym) else float(x)


def _tolist(a):
    if a.ndim == 0:
        return a.item()
    return [(_tolist(x) if isinstance(x, np.ndarray) else x) for x in a]


def is_sym(x, depth=3):
    if isinstance(x, (Sym, SymBool, SymArray)):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(is_sym(y, depth - 1) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    return False


def to_obj(x):
    """Exact object ndarray (plain) from anything array-like."""
    if isinstance(x, SymArray):
        return x.raw()
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        if x.dtype.kind == "f":
            out = np.empty(x.shape, dtype=object)
            fl = out.ravel() if out.shape else out.reshape(1)
            for i, v in enumerate(x.ravel()):
                fl[i] = exact(float(v))
            return fl.reshape(x.shape)
        if x.dtype.kind in "iub":
            out = np.empty(x.shape, dtype=object)
            fl = out.reshape(-1)
            for i, v in enumerate(x.ravel()):
                fl[i] = v.item()
            return fl.reshape(x.shape)
        raise Unsupported(f"array of dtype {x.dtype}")
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return np.empty((0,), dtype=object)
        subs = [to_obj(y) if isinstance(y, (list, tuple, np.ndarray)) else y for y in x]
        if any(isinstance(s, np.ndarray) and s.shape != () for s in subs):
            shapes = {s.shape if isinstance(s, np.ndarray) else () for s in subs}
            if len(shapes) != 1:
                raise ValueError("inhomogeneous shape")
            out = np.empty((len(subs),) + shapes.pop(), dtype=object)
            for i, s in enumerate(subs):
                out[i] = s
            return out
        out = np.empty((len(subs),), dtype=object)
        for i, s in enumerate(subs):
            if isinstance(s, np.ndarray):
                s = s.item() if s.dtype != object else s.reshape(-1)[0]
            out[i] = exact(s)
        return out
    if isinstance(x, (range, map, zip, set, dict)) or hasattr(x, "__next__"):
        if isinstance(x, range):
            return to_obj(list(x))
        raise Unsupported(f"array from {type(x)}")
    mod = type(x).__module__ or ""
    if mod.startswith("pandas"):
        return to_obj(np.asarray(x))
    out = np.empty((), dtype=object)
    out[()] = exact(x)
    return out


def exact(v):
    """float -> exact Sym constant (inf/nan stay floats); ints stay ints."""
    if isinstance(v, (Sym, SymBool, bool, int)):
        return v
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, (float, np.floating)):
        r = lift(float(v))
        return r
    from fractions import Fraction

    if isinstance(v, Fraction):
        return Sym.const_(v)
    return v


class _Pick:
    """Selection of one element by a symbolic index."""

    def __init__(self, sym, cond_list=None):
        self.sym = sym

    def get(self, arr):
        raw = arr.raw()
        if raw.ndim != 1:
            return np.ndarray.__getitem__(arr, int(self.sym))
        n = len(raw)
        res = self._through(raw, self.sym, 400)
        if res is not None:
            return res
        res = raw[n - 1]
        for i in range(n - 2, -1, -1):
            res = core.ite(B(core.cmp_(self.sym, i, "eq")), raw[i], res)
        return res


    def _through(self, raw, sym, fuel):
        """The index is a choice between constants: choose between the elements instead."""
        if sym.c is not None:
            i = sym.c
            return raw[int(i)] if i.denominator == 1 and -len(raw) <= i < len(raw) else None
        terms = [(m, c) for m, c in sym.p.items() if m]
        if fuel <= 0 or len(terms) != 1 or len(terms[0][0]) != 1 or terms[0][0][0][1] != 1:
            return None
        (m, c), k = terms[0], sym.p.get((), 0)
        a = core.ctx().atoms[m[0][0]]
        if a.kind != "ite":
            return None
        cond, x, y = a.args[:3]
        x = self._through(raw, lift(x) * c + k, fuel - 1)
        y = self._through(raw, lift(y) * c + k, fuel - 1) if x is not None else None
        return None if y is None else core.ite(cond, x, y)


def conv_index(arr, idx):
    if isinstance(idx, Sym):
        if idx.c is not None:
            return int(idx)
        return _Pick(idx)
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, tuple):
        return tuple(_conv1(i) for i in idx)
    return _conv1(idx)


def _conv1(i):
    if isinstance(i, (Sym, SymBool)):
        return int(i) if isinstance(i, Sym) else bool(i)
    if isinstance(i, slice):
        return slice(*[int(v) if isinstance(v, Sym) else v for v in (i.start, i.stop, i.step)])
    if isinstance(i, list):
        i = to_obj(i) if any(isinstance(v, (Sym, SymBool)) for v in i) else i
    if isinstance(i, np.ndarray) and np.ndarray.dtype.__get__(i) == object:
        flat = np.ndarray.view(i, np.ndarray).ravel()
        if len(flat) == 0:
            return np.zeros(i.shape, dtype=int)
        if isinstance(flat[0], (SymBool, bool, np.bool_)):
            return np.array([bool(v) for v in flat], dtype=bool).reshape(i.shape)
        return np.array([int(v) for v in flat], dtype=int).reshape(i.shape)
    return i


# --------------------------------------------------------------------------- ufuncs
def _L(x):
    v = lift(x)
    if v is None:
        if x is None:
            raise TypeError("unsupported operand type(s): 'NoneType'")
        raise Unsupported(f"cannot lift {type(x)}")
    return v


def _div(a, b):
    a, b = _L(a), _L(b)
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(b, float):
            return a / b if isinstance(a, float) else (b if b != b else Sym.const_(0))
        return core._inf_mul(b, a)
    cb = b.c
    if cb is not None and cb == 0:
        ca = a.c
        if ca is not None:
            if ca == 0:
                return math.nan
            return math.inf if ca > 0 else -math.inf
        if bool(a > 0):
            return math.inf
        if bool(a < 0):
            return -math.inf
        return math.nan
    return core.sdiv(a, b)


def _log(x):
    x = _L(x)
    if isinstance(x, float):
        return math.inf if x == math.inf else math.nan
    c = x.c
    if c is not None:
        if c == 0:
            return -math.inf
        if c < 0:
            return math.nan
    return core.slog(x)


def _sqrt(x):
    x = _L(x)
    if isinstance(x, float):
        return math.inf if x == math.inf else math.nan
    c = x.c
    if c is not None and c < 0:
        return math.nan
    return core.ssqrt(x)


def _pow(a, b):
    a, b = _L(a), _L(b)
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, Sym):
            a = float(a)
        if isinstance(b, Sym):
            b = float(b)
        return a ** b
    if a.c is not None and a.c == 0 and b.c is not None and b.c < 0:
        return math.inf
    return core.spow(a, b)


def _sign(x):
    x = _L(x)
    if isinstance(x, float):
        return math.nan if x != x else (1.0 if x > 0 else -1.0)
    return core.ite(B(core.cmp_(x, 0, "gt")), Sym.const_(1),
                    core.ite(B(core.cmp_(x, 0, "lt")), Sym.const_(-1), Sym.const_(0)))


def wb(b):
    b = lift_bool(b)
    c = b.const()
    return b if c is None else c


def _c(op):
    return lambda a, b: wb(core.cmp_(_scal(a), _scal(b), op)) if not _isbool2(a, b) else _boolcmp(a, b, op)


def _scal(a):
    if isinstance(a, (bool, np.bool_, SymBool)):
        return lift(a)
    return a


def _isbool2(a, b):
    return False


def _boolcmp(a, b, op):
    raise Unsupported("boolean comparison")


def _truth(a):
    if isinstance(a, (SymBool, bool, np.bool_)):
        return lift_bool(a)
    return B(core.cmp_(_L(a), 0, "ne"))


def _isnan(x):
    x = _L(x)
    return isinstance(x, float) and x != x


def _isfin(x):
    x = _L(x)
    return not isinstance(x, float)


def _isinf(x):
    x = _L(x)
    return isinstance(x, float) and x == x


def _arr(f):
    return lambda x: f(_L(x))


def _bin(f):
    def g(a, b):
        a, b = _L(a), _L(b)
        if isinstance(a, float) or isinstance(b, float):
            return f(a, b)
        return f(a, b)
    return g


def _fun1(name):
    def g(x):
        x = _L(x)
        if isinstance(x, float):
            return getattr(np, name)(x)
        from . import scishim

        return scishim.elem(name, x)
    return g


def _bitor(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return wb(core.or_(_truth(a), _truth(b)))
    return int(a) | int(b)


def _bitand(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return wb(core.and_(_truth(a), _truth(b)))
    return int(a) & int(b)


def _invert(a):
    if isinstance(a, (SymBool, bool, np.bool_)):
        return wb(core.not_(_truth(a)))
    return ~int(a)


def _rint(x):
    x = _L(x)
    if isinstance(x, float):
        return x
    if x.c is not None:
        return Sym.const_(round(x.c))
    raise Unsupported("rint")


TABLE = {
    "add": _bin(lambda a, b: a + b),
    "subtract": _bin(lambda a, b: a - b),
    "multiply": _bin(lambda a, b: a * b),
    "divide": _div,
    "true_divide": _div,
    "floor_divide": _bin(lambda a, b: a // b),
    "remainder": _bin(lambda a, b: a % b),
    "mod": _bin(lambda a, b: a % b),
    "power": _pow,
    "float_power": _pow,
    "negative": _arr(lambda a: -a),
    "positive": _arr(lambda a: a),
    "absolute": _arr(core.sabs),
    "fabs": _arr(core.sabs),
    "square": _arr(lambda a: a * a),
    "sqrt": _sqrt,
    "cbrt": _arr(lambda a: core.spow(a, Sym.const_(core.Fraction(1, 3)))),
    "reciprocal": _arr(lambda a: _div(1, a)),
    "exp": _arr(core.sexp),
    "exp2": _arr(lambda a: core.spow(Sym.const_(2), a)),
    "expm1": _arr(lambda a: core.sexp(a) - 1),
    "log": _log,
    "log1p": _arr(lambda a: _log(1 + a)),
    "log2": _arr(lambda a: _log(a) / core.slog(Sym.const_(2))),
    "log10": _arr(lambda a: _log(a) / core.slog(Sym.const_(10))),
    "maximum": _bin(lambda a, b: core.smax([a, b])),
    "minimum": _bin(lambda a, b: core.smax([a, b], "min")),
    "fmax": _bin(lambda a, b: core.smax([a, b])),
    "fmin": _bin(lambda a, b: core.smax([a, b], "min")),
    "sign": _sign,
    "floor": _arr(core.sfloor),
    "ceil": _arr(core.sceil),
    "trunc": _arr(core.strunc),
    "rint": _rint,
    "less": _c("lt"),
    "less_equal": _c("le"),
    "greater": _c("gt"),
    "greater_equal": _c("ge"),
    "equal": _c("eq"),
    "not_equal": _c("ne"),
    "logical_and": lambda a, b: wb(core.and_(_truth(a), _truth(b))),
    "logical_or": lambda a, b: wb(core.or_(_truth(a), _truth(b))),
    "logical_not": lambda a: wb(core.not_(_truth(a))),
    "logical_xor": lambda a, b: wb(lift_bool(_truth(a)) ^ _truth(b)),
    "bitwise_and": _bitand,
    "bitwise_or": _bitor,
    "invert": _invert,
    "isnan": _isnan,
    "isfinite": _isfin,
    "isinf": _isinf,
    "conjugate": lambda a: a,
    "sin": _fun1("sin"),
    "cos": _fun1("cos"),
    "tan": _fun1("tan"),
    "arcsin": _fun1("arcsin"),
    "arccos": _fun1("arccos"),
    "arctan": _fun1("arctan"),
    "sinh": _arr(lambda a: (core.sexp(a) - core.sexp(-a)) / 2),
    "cosh": _arr(lambda a: (core.sexp(a) + core.sexp(-a)) / 2),
    "tanh": _arr(lambda a: (core.sexp(a) - core.sexp(-a)) / (core.sexp(a) + core.sexp(-a))),
    "arcsinh": _arr(lambda a: core.slog(a + core.ssqrt(a * a + 1))),
    "gammaln": _fun1("gammaln"),
    "hypot": _bin(lambda a, b: core.ssqrt(a * a + b * b)),
}

IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


def wrap(arr):
    """object ndarray -> SymArray or scalar."""
    if isinstance(arr, np.ndarray):
        if arr.shape == ():
            return arr.item()
        return arr.view(SymArray) if np.ndarray.dtype.__get__(arr) == object else arr
    return arr


def ufunc(uf, method, inputs, kw):
    name = uf.__name__
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("subok", None)
    kw.pop("order", None)
    if name == "matmul":
        from . import npshim

        return npshim.NP.dot(*inputs)
    f = TABLE.get(name)
    if f is None:
        from . import scishim

        f = scishim.UFUNCS.get(name)
    if f is None:
        raise Unsupported(f"ufunc {name}")
    if method == "__call__":
        arrs = [to_obj(x) for x in inputs]
        bs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
        shape = bs[0].shape
        wh = None
        if where is not True:
            wh = np.broadcast_to(to_obj(where), shape).ravel()
        res = np.empty(shape, dtype=object)
        fl = res.reshape(-1)
        flats = [b.ravel() if b.shape else b.reshape(1) for b in bs]
        o0 = None
        if out is not None:
            o0 = to_obj(out[0] if isinstance(out, tuple) else out)
        for i in range(fl.shape[0]):
            if wh is not None and not bool(wh[i]):
                fl[i] = o0.reshape(-1)[i] if o0 is not None else 0
                continue
            fl[i] = f(*[b[i] for b in flats])
        res = fl.reshape(shape)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SymArray):
                o.raw()[...] = res
                return o
            if isinstance(o, np.ndarray) and np.ndarray.dtype.__get__(o) == object:
                o[...] = res
                return o
            raise Unsupported("in-place symbolic update of a concrete array")
        return wrap(res)
    if method == "reduce":
        axis = kw.get("axis", 0)
        keepdims = kw.get("keepdims", False)
        initial = kw.get("initial", None)
        a = to_obj(inputs[0])
        return reduce_axis(a, axis, keepdims, lambda xs: _red(name, f, xs, initial))
    if method == "accumulate":
        a = to_obj(inputs[0])
        axis = kw.get("axis", 0)
        if a.ndim != 1:
            raise Unsupported("accumulate on nd array")
        res = np.empty(a.shape, dtype=object)
        acc = None
        for i, x in enumerate(a):
            acc = exact(x) if acc is None else f(acc, x)
            res[i] = acc
        return wrap(res)
    if method == "outer":
        a, b = to_obj(inputs[0]), to_obj(inputs[1])
        return ufunc(uf, "__call__", (a.reshape(a.shape + (1,) * b.ndim).view(SymArray), b), {})
    raise Unsupported(f"ufunc method {method}")


def _red(name, f, xs, initial):
    if name == "maximum":
        if len(xs) == 0:
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
        return core.smax(xs)
    if name == "minimum":
        if len(xs) == 0:
            raise ValueError("zero-size array to reduction operation minimum which has no identity")
        return core.smax(xs, "min")
    if name == "logical_and":
        return wb(core.and_(*[_truth(x) for x in xs]))
    if name == "logical_or":
        return wb(core.or_(*[_truth(x) for x in xs]))
    if name == "add":
        return ssum(xs, initial)
    acc = initial if initial is not None else None
    for x in xs:
        acc = x if acc is None else f(acc, x)
    if acc is None:
        acc = IDENT[name]
    return acc


def ssum(xs, initial=None):
    tot = {}
    fl = None
    allint = True
    for x in list(xs) + ([initial] if initial is not None else []):
        v = _L(x)
        if isinstance(v, float):
            fl = v if fl is None else fl + v
            continue
        if not isinstance(x, (int, bool)):
            allint = False
        for m, c in v.p.items():
            n = tot.get(m, 0) + c
            if n == 0:
                tot.pop(m, None)
            else:
                tot[m] = n
    if fl is not None:
        return fl
    s = Sym(tot)
    if allint and s.c is not None:
        return int(s.c)
    return s


def reduce_axis(a, axis, keepdims, f):
    if axis is None:
        r = f(list(a.ravel()))
        if keepdims:
            out = np.empty((1,) * a.ndim, dtype=object)
            out.reshape(-1)[0] = r
            return wrap(out)
        return r
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            return reduce_axis(a, None, keepdims, f)
        raise Unsupported("multi-axis reduction")
    axis = int(axis)
    if axis < 0:
        axis += a.ndim
    b = np.moveaxis(a, axis, -1)
    res = np.empty(b.shape[:-1], dtype=object)
    if res.shape == ():
        r = f(list(b))
        if keepdims:
            out = np.empty((1,) * a.ndim, dtype=object)
            out.reshape(-1)[0] = r
            return wrap(out)
        return r
    for idx in np.ndindex(*b.shape[:-1]):
        res[idx] = f(list(b[idx]))
    if keepdims:
        res = np.expand_dims(res, axis)
    return wrap(res)
