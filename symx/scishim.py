"""Stand-ins for math, scipy.stats, scipy.special used by the code under analysis.

Elementary functions are handled by core (exact algebra); transcendental distribution
functions become shared uninterpreted atoms with sound axioms (range, monotonicity,
symmetry), plus a float evaluator used to validate encodings and to replay models.
"""

from __future__ import annotations

import math
import types
from fractions import Fraction

import numpy as np
import scipy
import scipy.special as _sp
import scipy.stats as _st

from . import core, npshim
from .core import Sym, SymBool, Unsupported, fun, lift, lift_bool
from .nparr import SymArray, _div, _L, _log, _pow, _sqrt, exact, is_sym, ssum, to_obj, wb, wrap, TABLE
from .npshim import A, ENV, NP, passthrough

B = lift_bool
NUM = core.NUMERIC


# --------------------------------------------------------------------------- constants
def pi():
    return fun("pi", sign="pos")


NUM["pi"] = lambda: math.pi
core.FUN_AXIOMS["pi"] = lambda cx, a: core._bracket(a.z3v, math.pi)


def euler_gamma():
    return Sym.const_(Fraction(repr(float(np.euler_gamma))))


# --------------------------------------------------------------------------- UF families
def uf(name, numeric, mono=None, strict=False, axiom=None, sign=None):
    NUM[name] = numeric
    if mono is not None:
        core.MONOTONE[name] = mono
    if strict:
        core.STRICT.add(name)
    if axiom is not None:
        core.FUN_AXIOMS[name] = axiom

    def f(*args):
        return fun(name, *args, sign=sign)

    return f


def _unit(cx, a):
    return [a.z3v > 0, a.z3v < 1]


def _phi_ax(cx, a):
    x = cx.z3poly(a.args[0].p)
    import z3

    h = z3.Q(1, 2)
    return [a.z3v > 0, a.z3v < 1, z3.Implies(x > 0, a.z3v > h), z3.Implies(x < 0, a.z3v < h),
            z3.Implies(x == 0, a.z3v == h)]


_Phi = uf("Phi", lambda x: float(_sp.ndtr(x)), (0, 1), True, _phi_ax, "pos")


core.SYMMETRIC.add("Phi")


def _lead_neg(x):
    """Canonical orientation for odd symmetric functions."""
    c = x.c
    if c is not None:
        return c < 0
    x.canon()
    p = x.p
    return p[min(p)] < 0


def Phi(z):
    z = _L(z)
    if isinstance(z, float):
        return math.nan if z != z else (1 if z > 0 else 0)
    z = z.canon()
    if z.c is not None and z.c == 0:
        return Sym.const_(Fraction(1, 2))
    if len(z.p) == 1:
        (m, c), = z.p.items()
        if c in (1, -1) and len(m) == 1 and m[0][1] == 1:
            at = core.ctx().atoms[m[0][0]]
            if at.kind == "fun" and at.name == "ndtri":
                q = at.args[0]
                return q if c == 1 else 1 - q
    if _lead_neg(z):
        return 1 - _Phi(-z)
    return _Phi(z)


_ndtri = uf("ndtri", lambda q: float(_sp.ndtri(q)), (0, 1), True,
            lambda cx, a: _ndtri_ax(cx, a))


def _ndtri_ax(cx, a):
    import z3

    q = cx.z3poly(a.args[0].p)
    h = z3.Q(1, 2)
    out = [z3.Implies(q > h, a.z3v > 0), z3.Implies(q < h, a.z3v < 0), z3.Implies(q == h, a.z3v == 0)]
    c = a.args[0].c
    if c is not None and 0 < c < 1:
        out += core._bracket(a.z3v, float(_sp.ndtri(float(c))))
    return out


def ndtri(q):
    q = _L(q)
    if isinstance(q, float):
        return math.nan
    q = q.canon()
    c = q.c
    if c is not None:
        if c == Fraction(1, 2):
            return Sym.const_(0)
        if c <= 0:
            return -math.inf if c == 0 else math.nan
        if c >= 1:
            return math.inf if c == 1 else math.nan
        if c > Fraction(1, 2):
            return -_ndtri(1 - q)
    # inverse of Phi
    p = q.p
    at = _single(p, "Phi")
    if at is not None:
        return at.args[0]
    at = _single((1 - q).p, "Phi")
    if at is not None:
        return -at.args[0]
    return _ndtri(q)


def _single(p, name):
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    at = core.ctx().atoms[m[0][0]]
    return at if at.kind == "fun" and at.name == name else None


gammainc = uf("gammainc", lambda a, x: float(_sp.gammainc(a, x)), (1, 1), True, _unit, "pos")
betainc = uf("betainc", lambda a, b, x: float(_sp.betainc(a, b, x)), (2, 1), True, _unit, "pos")
_tcdf = uf("stdtr", lambda df, x: float(_sp.stdtr(df, x)), (1, 1), True,
           lambda cx, a: _sym_half(cx, a), "pos")


def _sym_half(cx, a):
    import z3

    x = cx.z3poly(a.args[1].p)
    h = z3.Q(1, 2)
    return [a.z3v > 0, a.z3v < 1, z3.Implies(x > 0, a.z3v > h), z3.Implies(x < 0, a.z3v < h),
            z3.Implies(x == 0, a.z3v == h)]


def tcdf(df, z):
    z = _L(z).canon()
    if z.c is not None and z.c == 0:
        return Sym.const_(Fraction(1, 2))
    if _lead_neg(z):
        return 1 - _tcdf(df, -z)
    return _tcdf(df, z)


core.SYMMETRIC.add("stdtr")
_gln = uf("gammaln", lambda x: float(_sp.gammaln(x)))


def gammaln(x):
    x = _L(x)
    if isinstance(x, float):
        return x
    x = x.canon()
    c = x.c
    if c is not None and c.denominator == 1 and 0 < c < 200:
        return _log(Sym.const_(math.factorial(int(c) - 1)))
    return _gln(x)


psi = uf("psi", lambda x: float(_sp.psi(x)), (0, 1), True)


def betaln(a, b):
    a, b = _L(a), _L(b)
    return gammaln(a) + gammaln(b) - gammaln(a + b)


def gamma_fn(x):
    x = _L(x)
    c = x.c
    if c is not None and c.denominator == 1 and 0 < c < 100:
        return Sym.const_(math.factorial(int(c) - 1))
    return core.sexp(gammaln(x))


def xlogy(x, y):
    x, y = _L(x), _L(y)
    if isinstance(x, Sym) and x.c is not None and x.c == 0:
        return Sym.const_(0)
    if isinstance(x, Sym) and x.c is None:
        return _guard(core.cmp_(x, 0, "ne"), lambda: x * _log(y), ZERO)
    return x * _log(y)


for _n in ("sin", "cos", "tan", "arcsin", "arccos", "arctan"):
    uf(_n, getattr(math, {"arcsin": "asin", "arccos": "acos", "arctan": "atan"}.get(_n, _n)))


def elem(name, x):
    if name == "gammaln":
        return gammaln(x)
    x = x.canon()
    if x.c is not None and x.c == 0:
        return Sym.const_(1 if name == "cos" else 0) if name not in ("arccos",) else pi() / 2
    if x.c == 1 and name in ("arctan", "arcsin", "arccos"):
        return {"arctan": pi() / 4, "arcsin": pi() / 2, "arccos": Sym.const_(0)}[name]
    if name in ("sin", "tan", "arcsin", "arctan", "cos") and _lead_neg(x):
        r = fun(name, -x)
        return r if name == "cos" else -r
    return fun(name, x)


def erf(x):
    return 2 * Phi(_L(x) * core.ssqrt(Sym.const_(2))) - 1


UFUNCS = {
    "ndtr": Phi, "erf": erf, "erfc": lambda x: 1 - erf(x), "gammaln": gammaln, "loggamma": gammaln,
    "log_ndtr": lambda x: _log(Phi(x)), "ndtri": ndtri,
    "gamma": gamma_fn, "psi": psi, "digamma": psi, "xlogy": xlogy, "betaln": betaln,
    "xlog1py": lambda x, y: xlogy(x, 1 + _L(y)),
    "beta": lambda a, b: core.sexp(betaln(a, b)),
    "gammainc": lambda a, x: gammainc(a, x), "gammaincc": lambda a, x: 1 - gammainc(a, x),
    "betainc": lambda a, b, x: betainc(a, b, x),
    "stdtr": lambda a, x: tcdf(a, x),
}


def vec(f, *args):
    """Broadcast a scalar model over arrays."""
    arrs = [A(a) for a in args]
    bs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    shape = bs[0].shape
    if shape == ():
        return f(*[b.item() for b in bs])
    out = np.empty(shape, dtype=object)
    fl = out.reshape(-1)
    flats = [b.ravel() for b in bs]
    for i in range(fl.shape[0]):
        fl[i] = f(*[b[i] for b in flats])
    return fl.reshape(shape).view(SymArray)


# --------------------------------------------------------------------------- math
def _num(x):
    if isinstance(x, SymArray):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.raw().ravel()[0]
    if isinstance(x, (str, bytes)) or x is None:
        raise TypeError("must be real number")
    return x


def _mdom(f, cond):
    def g(x):
        x = _num(x)
        v = _L(x)
        if isinstance(v, Sym) and v.c is not None and not cond(v.c):
            raise ValueError("math domain error")
        if isinstance(v, float) and v != v:
            return v
        return f(v)
    return g


def _prod(it, start=1):
    r = start
    for v in it:
        r = r * v
    return r


class MathNS:
    __name__ = "math"

    def __init__(self):
        self.sqrt = _mdom(_sqrt, lambda c: c >= 0)
        self.exp = lambda x: TABLE["exp"](_num(x))
        self.expm1 = lambda x: TABLE["exp"](_num(x)) - 1
        self.pow = lambda a, b: _pow(_num(a), _num(b))
        self.fabs = lambda x: core.sabs(_L(_num(x)))
        self.floor = lambda x: _toint(core.sfloor(_L(_num(x))))
        self.ceil = lambda x: _toint(core.sceil(_L(_num(x))))
        self.trunc = lambda x: _toint(core.strunc(_L(_num(x))))
        self.fsum = lambda xs: ssum(list(xs))
        self.prod = lambda xs, start=1: _prod(xs, start)
        self.hypot = lambda *xs: core.ssqrt(ssum([_L(x) * _L(x) for x in xs]))
        self.gamma = lambda x: gamma_fn(_num(x))
        self.lgamma = lambda x: gammaln(_num(x))
        self.erf = lambda x: erf(_num(x))
        self.erfc = lambda x: 1 - erf(_num(x))
        self.log1p = lambda x: self.log(1 + _L(_num(x)))
        self.log2 = lambda x: self.log(x) / core.slog(Sym.const_(2))
        self.log10 = lambda x: self.log(x) / core.slog(Sym.const_(10))
        self.isnan = lambda x: isinstance(_L(_num(x)), float) and _L(_num(x)) != _L(_num(x))
        self.isinf = lambda x: isinstance(_L(_num(x)), float) and _L(_num(x)) == _L(_num(x))
        self.isfinite = lambda x: not isinstance(_L(_num(x)), float)
        self.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: wb(core.cmp_(
            core.sabs(_L(a) - _L(b)),
            core.smax([lift(rel_tol) * core.smax([core.sabs(_L(a)), core.sabs(_L(b))]), lift(abs_tol)]), "le"))
        self.copysign = lambda a, b: core.ite(B(core.cmp_(_L(b), 0, "ge")), core.sabs(_L(a)), -core.sabs(_L(a)))
        self.inf = math.inf
        self.nan = math.nan
        self.comb, self.factorial, self.gcd, self.isqrt, self.perm = (
            _ints(math.comb), _ints(math.factorial), _ints(math.gcd), _ints(math.isqrt), _ints(math.perm))
        for n, m in (("sin", "sin"), ("cos", "cos"), ("tan", "tan"), ("asin", "arcsin"), ("acos", "arccos"),
                     ("atan", "arctan")):
            setattr(self, n, (lambda mm: lambda x: elem(mm, _L(_num(x))))(m))
        for n in ("sinh", "cosh", "tanh"):
            setattr(self, n, (lambda mm: lambda x: TABLE[mm](_num(x)))(n))

    def log(self, x, base=None):
        v = _L(_num(x))
        if isinstance(v, Sym) and v.c is not None and v.c <= 0:
            raise ValueError("math domain error")
        r = _log(v)
        if base is not None:
            r = _div(r, self.log(base))
        return r

    @property
    def pi(self):
        return pi()

    @property
    def e(self):
        return core.sexp(Sym.const_(1))

    @property
    def tau(self):
        return 2 * pi()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("math." + n)


def _ints(f):
    def g(*a):
        b = []
        for x in a:
            if isinstance(x, Sym) and x.c is not None and x.c.denominator == 1:
                x = int(x.c)
            if isinstance(x, Sym):
                raise TypeError("'float' object cannot be interpreted as an integer")
            b.append(int(x) if isinstance(x, (np.integer, bool)) else x)
        return f(*b)
    return g


def _toint(s):
    if isinstance(s, float):
        raise OverflowError("cannot convert float infinity to integer")
    if s.c is not None:
        return int(s.c)
    return s


MATH = MathNS()


# --------------------------------------------------------------------------- distributions
def _pos(z):
    """SymBool z > 0 (bool when known)."""
    return B(core.cmp_(z, 0, "gt"))


def _guard(cond, val, other):
    c = cond.const()
    if c is True:
        return val()
    if c is False:
        return other
    if core.ctx().entails(cond, 1500):
        return val()
    if bool(cond):     # fork: keeps logs / powers of the argument defined
        return val()
    return other


ZERO, UNIT = Sym.const_(0), Sym.const_(1)


def npdf(z):
    return core.sexp(-(z * z) / 2) / core.ssqrt(2 * pi())


def _clip01(z):
    return core.smax([core.smax([z, ZERO]), UNIT], "min")


def cdf_norm(z):
    return Phi(z)


def cdf_expon(z):
    return _guard(_pos(z), lambda: 1 - core.sexp(-z), ZERO)


def cdf_weib(c, z):
    return _guard(_pos(z), lambda: 1 - core.sexp(-core.spow(z, c)), ZERO)


expweib = uf("expweib_cdf", lambda a, c, x: float(-math.expm1(-x ** c)) ** a if x > 0 else 0.0, (2, 1), True, _unit, "pos")


def cdf_expweib(a, c, z):
    if npshim.ENV.get("opaque_cdf"):
        return _guard(_pos(z), lambda: expweib(_L(a), _L(c), z), ZERO)
    return _guard(_pos(z), lambda: core.spow(1 - core.sexp(-core.spow(z, c)), a), ZERO)


def cdf_gamma(a, z):
    def v():
        if a.c is not None and a.c == 1:
            return 1 - core.sexp(-z)
        return gammainc(a, z)
    return _guard(_pos(z), v, ZERO)


def cdf_beta(a, b, z):
    def v():
        return _guard(B(core.cmp_(z, 1, "lt")), lambda: betainc(a, b, z), UNIT)
    return _guard(_pos(z), v, ZERO)


def cdf_lognorm(s, z):
    return _guard(_pos(z), lambda: Phi(_log(z) / s), ZERO)


def cdf_t(df, z):
    return tcdf(df, z)


def cdf_logistic(z):
    return 1 / (1 + core.sexp(-z))


def cdf_laplace(z):
    return _guard(_pos(z), lambda: 1 - core.sexp(-z) / 2, core.sexp(z) / 2)


def cdf_cauchy(z):
    return lift(Fraction(1, 2)) + elem("arctan", z) / pi()


def cdf_gumbel(z):
    return core.sexp(-core.sexp(-z))


def _ppf_uf(name, numeric):
    return uf(name, numeric, None)


_ppf_gamma = _ppf_uf("gammaincinv", lambda a, q: float(_sp.gammaincinv(a, q)))
_ppf_t = _ppf_uf("stdtrit", lambda df, q: float(_sp.stdtrit(df, q)))
_ppf_beta = _ppf_uf("betaincinv", lambda a, b, q: float(_sp.betaincinv(a, b, q)))


def ppf_t(df, q):
    q = _L(q)
    if q.c is not None:
        if q.c == Fraction(1, 2):
            return ZERO
        if q.c > Fraction(1, 2):
            return -_ppf_t(df, 1 - q)
    return _ppf_t(df, q)


def ppf_expon(q):
    return -_log(1 - _L(q))


def pdf_gamma(a, z):
    return _guard(_pos(z), lambda: core.sexp((a - 1) * _log(z) - z - gammaln(a)), ZERO)


def pdf_beta(a, b, z):
    def v():
        return core.sexp((a - 1) * _log(z) + (b - 1) * _log(1 - z) - betaln(a, b))
    return _guard(_pos(z), lambda: _guard(B(core.cmp_(z, 1, "lt")), v, ZERO), ZERO)


def pdf_expon(z):
    return _guard(B(core.cmp_(z, 0, "ge")), lambda: core.sexp(-z), ZERO)


def pdf_lognorm(s, z):
    return _guard(_pos(z), lambda: npdf(_log(z) / s) / (s * z), ZERO)


def pdf_t(df, z):
    return core.sexp(gammaln((df + 1) / 2) - gammaln(df / 2)) / core.ssqrt(df * pi()) * core.spow(
        1 + z * z / df, -(df + 1) / 2)


def pdf_uniform(z):
    return core.ite(core.and_(B(core.cmp_(z, 0, "ge")), B(core.cmp_(z, 1, "le"))), UNIT, ZERO)


def pdf_weib(c, z):
    return _guard(_pos(z), lambda: c * core.spow(z, c - 1) * core.sexp(-core.spow(z, c)), ZERO)


def pdf_expweib(a, c, z):
    return _guard(_pos(z), lambda: a * core.spow(1 - core.sexp(-core.spow(z, c)), a - 1) * c
                  * core.spow(z, c - 1) * core.sexp(-core.spow(z, c)), ZERO)


def pdf_f(m, n, z):
    def v():
        return core.sexp(m / 2 * (_log(m) - _log(n)) + (m / 2 - 1) * _log(z) - (m + n) / 2 * _log(1 + m * z / n) - betaln(m / 2, n / 2))
    return _guard(_pos(z), v, ZERO)


def rayleigh_cdf(z):
    return _guard(_pos(z), lambda: 1 - core.sexp(-z * z / 2), ZERO)


_ppf_rice = _ppf_uf("rice_ppf", lambda b, q: float(_st.rice.ppf(q, b)))
_ppf_invgauss = _ppf_uf("invgauss_ppf", lambda m, q: float(_st.invgauss.ppf(q, m)))
_ppf_tukey = _ppf_uf("tukeylambda_ppf", lambda l, q: float(_st.tukeylambda.ppf(q, l)))
_ppf_cauchy = _ppf_uf("cauchy_ppf", lambda q: float(_st.cauchy.ppf(q)))


def ppf_laplace(q):
    q = _L(q)
    return _guard(B(core.cmp_(q, Fraction(1, 2), "lt")), lambda: _log(2 * q), -_log(2 * (1 - q)))


def ppf_truncnorm(a, b, q):
    fa, fb = cdf_norm(a), cdf_norm(b)
    return ndtri(fa + _L(q) * (fb - fa))


def ppf_expweib(a, c, q):
    return core.spow(-_log(1 - core.spow(_L(q), 1 / _L(a))), 1 / _L(c))


ANY_SHAPE = {"truncnorm", "tukeylambda", "rice"}

# name -> (shape names, cdf, ppf, pdf)
DISTS = {
    "norm": ((), cdf_norm, ndtri, npdf),
    "expon": ((), cdf_expon, ppf_expon, pdf_expon),
    "uniform": ((), _clip01, lambda q: _L(q), pdf_uniform),
    "weibull_min": (("c",), cdf_weib, lambda c, q: core.spow(ppf_expon(q), 1 / c), pdf_weib),
    "exponweib": (("a", "c"), cdf_expweib, ppf_expweib, pdf_expweib),
    "gamma": (("a",), cdf_gamma, lambda a, q: _ppf_gamma(a, q), pdf_gamma),
    "beta": (("a", "b"), cdf_beta, lambda a, b, q: _ppf_beta(a, b, q), pdf_beta),
    "t": (("df",), cdf_t, ppf_t, pdf_t),
    "chi2": (("df",), lambda df, z: cdf_gamma(df / 2, z / 2), lambda df, q: 2 * _ppf_gamma(df / 2, q),
             lambda df, z: pdf_gamma(df / 2, z / 2) / 2),
    "lognorm": (("s",), cdf_lognorm, lambda s, q: core.sexp(s * ndtri(q)), pdf_lognorm),
    "logistic": ((), cdf_logistic, lambda q: _log(_L(q) / (1 - _L(q))),
                 lambda z: core.sexp(-z) / ((1 + core.sexp(-z)) * (1 + core.sexp(-z)))),
    "laplace": ((), cdf_laplace, ppf_laplace, lambda z: core.sexp(-core.sabs(z)) / 2),
    "cauchy": ((), cdf_cauchy, lambda q: _ppf_cauchy(q), lambda z: 1 / (pi() * (1 + z * z))),
    "gumbel_r": ((), cdf_gumbel, lambda q: -_log(-_log(_L(q))), lambda z: core.sexp(-z - core.sexp(-z))),
    "gumbel_l": ((), lambda z: 1 - core.sexp(-core.sexp(z)), None, lambda z: core.sexp(z - core.sexp(z))),
    "gompertz": (("c",), lambda c, z: _guard(_pos(z), lambda: 1 - core.sexp(-c * (core.sexp(z) - 1)), ZERO),
                 lambda c, q: _log(1 - _log(1 - _L(q)) / c), None),
    "rice": (("b",), None, lambda b, q: _ppf_rice(b, q), None),
    "invgauss": (("mu",), None, lambda m, q: _ppf_invgauss(m, q), None),
    "tukeylambda": (("lam",), None, lambda l, q: _ppf_tukey(l, q), None),
    "truncnorm": (("a", "b"), None, ppf_truncnorm, None),
    "f": (("dfn", "dfd"), None, None, pdf_f),
    "rayleigh": ((), rayleigh_cdf, None, lambda z: _guard(_pos(z), lambda: z * core.sexp(-z * z / 2), ZERO)),
}


class Dist:
    def __init__(self, name):
        self.name = name
        self.spec = DISTS.get(name)
        self.real = getattr(_st, name)

    def _args(self, args, kw):
        names = self.spec[0] + ("loc", "scale")
        d = {"loc": 0, "scale": 1}
        if len(args) > len(names):
            raise TypeError("too many positional arguments")
        for n, v in zip(names, args):
            d[n] = v
        for k, v in kw.items():
            if k not in names:
                raise TypeError(f"{self.name} got an unexpected keyword argument {k!r}")
            if k in names[: len(args)]:
                raise TypeError(f"multiple values for {k!r}")
            d[k] = v
        miss = [n for n in self.spec[0] if n not in d]
        if miss:
            raise TypeError(f"{self.name} missing required argument {miss}")
        return [d[n] for n in names]

    def _need(self):
        if self.spec is None:
            raise Unsupported(f"scipy.stats.{self.name}")

    def _apply(self, f, x, args, kw, kind):
        self._need()
        pars = self._args(args, kw)

        def one(xx, *ps):
            ps = [_L(p) for p in ps]
            loc, scale = ps[-2:]
            sh = ps[:-2]
            xx = _L(xx)
            if isinstance(xx, float):
                if xx != xx:
                    return math.nan
                if kind == "cdf":
                    return UNIT if xx > 0 else ZERO
                if kind == "pdf":
                    return ZERO
                raise Unsupported("infinite argument")
            # scipy: nan unless scale > 0 and shapes valid
            for q in [scale] + ([] if self.name in ANY_SHAPE else sh):
                if not bool(B(core.cmp_(q, 0, "gt"))):
                    return math.nan
            return f(xx, sh, loc, scale)
        return vec(one, x, *pars)

    def _has(self, i, what):
        self._need()
        if self.spec[i] is None:
            raise Unsupported(f"{self.name}.{what}")

    def cdf(self, x, *args, **kw):
        self._has(1, "cdf")
        return self._apply(lambda xx, sh, l, s: self.spec[1](*sh, _std(xx, l, s)), x, args, kw, "cdf")

    def sf(self, x, *args, **kw):
        r = self.cdf(x, *args, **kw)
        return _map(r, lambda v: 1 - v)

    def logcdf(self, x, *args, **kw):
        return _map(self.cdf(x, *args, **kw), _log)

    def logsf(self, x, *args, **kw):
        return _map(self.sf(x, *args, **kw), _log)

    def pdf(self, x, *args, **kw):
        self._has(3, "pdf")
        return self._apply(lambda xx, sh, l, s: self.spec[3](*sh, _std(xx, l, s)) / s, x, args, kw, "pdf")

    def logpdf(self, x, *args, **kw):
        return _map(self.pdf(x, *args, **kw), _log)

    def ppf(self, q, *args, **kw):
        self._has(2, "ppf")
        return self._apply(lambda qq, sh, l, s: _affine(self.spec[2](*sh, qq), l, s), q, args, kw, "ppf")

    def isf(self, q, *args, **kw):
        return self.ppf(_map(q, lambda v: 1 - _L(v)), *args, **kw)

    def rvs(self, *args, **kw):
        h = ENV.get("rng")
        if h is None:
            raise Unsupported("random draw outside a randomness harness")
        return h("scipy.stats." + self.name, args, kw)

    def __call__(self, *args, **kw):
        return Frozen(self, args, kw)

    def freeze(self, *args, **kw):
        return Frozen(self, args, kw)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        p, label = passthrough(getattr(self.real, n), f"scipy.stats.{self.name}.{n}"), f"scipy.stats.{self.name}.{n}"
        if not callable(p):
            return p

        def f(*a, **k):
            h = npshim.ENV.get("hooks", {}).get(label)
            return h(*a, **k) if h is not None else p(*a, **k)
        return f


def _affine(v, l, s):
    return v if isinstance(v, float) else l + s * v


class Frozen:
    def __init__(self, d, args, kw):
        self.d, self.args, self.kw = d, args, kw

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = getattr(self.d, n)
        if n == "rvs":
            return lambda size=None, random_state=None: f(*self.args, size=size, **self.kw)
        return lambda x: f(x, *self.args, **self.kw)


def _std(x, l, s):
    z = x - l
    if s.c is not None and s.c == 1:
        return z
    return core.sdiv(z, s)


def _map(x, f):
    a = A(x)
    if a.shape == ():
        return f(a.item())
    return npshim._map(a, f).view(SymArray)


# --------------------------------------------------------------------------- other scipy.stats
class _ECDFSide:
    def __init__(self, xs, probs, f):
        self.quantiles = xs
        self.probabilities = probs
        self._f = f

    def evaluate(self, x):
        return vec(self._f, x)


class _ECDF:
    def __init__(self, sample):
        a = A(sample)
        if a.ndim != 1:
            raise ValueError("`sample` must be a one-dimensional sequence.")
        vals = [exact(v) for v in a]
        n = len(vals)

        def F(x):
            x = lift(x)
            return ssum([core.ite(B(core.cmp_(v, x, "le")), UNIT, ZERO) for v in vals]) / n

        q = _LazyUnique(vals)
        self._q = q
        self.cdf = _ECDFCdf(q, F, n)
        self.sf = _ECDFSide(None, None, lambda x: 1 - F(x))


class _LazyUnique:
    def __init__(self, vals):
        self.vals = vals

    def get(self):
        return npshim.unique(self.vals)


class _ECDFCdf:
    def __init__(self, q, f, n):
        self._q, self._f, self._n = q, f, n

    @property
    def quantiles(self):
        return self._q.get()

    @property
    def probabilities(self):
        return vec(self._f, self.quantiles)

    def evaluate(self, x):
        return vec(self._f, x)


def ecdf(sample):
    return _ECDF(sample)


def moment(a, order=1, axis=0, nan_policy="propagate", center=None, moment=None, **k):
    if moment is not None:
        order = moment
    xs = [lift(v) for v in A(a).ravel()]
    n = len(xs)
    if center is None:
        c = _div(ssum(xs), n)
    else:
        c = lift(center)
    order = int(order)
    if order == 1 and center is None:
        return Sym.const_(0)
    return _div(ssum([core.spow(v - c, Sym.const_(order)) for v in xs]), n)


def skew(a, axis=0, bias=True, nan_policy="propagate", **k):
    m2, m3 = moment(a, 2), moment(a, 3)
    r = m3 / core.spow(m2, Sym.const_(Fraction(3, 2)))
    if not bias:
        n = A(a).size
        if n > 2:
            r = core.ssqrt(Sym.const_((n - 1) * n)) / (n - 2) * r
    return r


def kurtosis(a, axis=0, fisher=True, bias=True, nan_policy="propagate", **k):
    m2, m4 = moment(a, 2), moment(a, 4)
    r = m4 / (m2 * m2)
    if not bias:
        n = A(a).size
        if n > 3:
            r = (((n * n - 1) * r - 3 * (n - 1) ** 2) * Fraction(1, (n - 2) * (n - 3))) + 3
    return r - 3 if fisher else r


def pearson_r(x, y):
    x = [lift(v) for v in A(x).ravel()]
    y = [lift(v) for v in A(y).ravel()]
    if len(x) != len(y):
        raise ValueError("`x` and `y` must have the same length along `axis`.")
    n = len(x)
    mx, my = ssum(x) / n, ssum(y) / n
    mx, my = lift(mx), lift(my)
    sxy = ssum([(a - mx) * (b - my) for a, b in zip(x, y)])
    sxx = ssum([(a - mx) * (a - mx) for a in x])
    syy = ssum([(b - my) * (b - my) for b in y])
    return lift(sxy) / (core.ssqrt(lift(sxx)) * core.ssqrt(lift(syy)))


class _PearsonResult(tuple):
    def __new__(cls, r):
        t = tuple.__new__(cls, (r, _Opaque("pearsonr p-value")))
        t.statistic = t.correlation = r
        return t


class _Opaque:
    def __init__(self, what):
        self.what = what

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(self.what)


def pearsonr(x, y, **k):
    return _PearsonResult(pearson_r(x, y))


def rankdata(a, method="average", **k):
    xs = [lift(v) for v in A(a).ravel()]
    out = []
    for v in xs:
        lt = ssum([core.ite(B(core.cmp_(u, v, "lt")), UNIT, ZERO) for u in xs])
        eq = ssum([core.ite(B(core.cmp_(u, v, "eq")), UNIT, ZERO) for u in xs])
        lt, eq = lift(lt), lift(eq)
        out.append({"average": lt + (eq + 1) / 2, "min": lt + 1, "max": lt + eq}[method])
    return SymArray(out)


class _KDE:
    def __init__(self, data, bw_method=None, weights=None):
        xs = [lift(v) for v in A(data).ravel()]
        n = len(xs)
        if weights is not None or bw_method not in (None, "scott"):
            raise Unsupported("gaussian_kde options")
        f = core.spow(Sym.const_(n), Sym.const_(Fraction(-1, 5)))
        v = lift(npshim._var(xs, 1))
        self.h = core.ssqrt(v) * f
        self.xs = xs
        self.n = n
        self.factor = f

    def evaluate(self, pts):
        def one(t):
            t = lift(t)
            return ssum([npdf((t - x) / self.h) for x in self.xs]) / (self.n * self.h)
        r = vec(one, pts)
        return r if isinstance(r, np.ndarray) else SymArray([r])

    __call__ = evaluate
    pdf = evaluate


def _kde(*a, **k):
    return npshim.ENV.get("hooks", {}).get("scipy.stats.gaussian_kde", _KDE)(*a, **k)


class StatsNS:
    __name__ = "scipy.stats"

    def __init__(self):
        self.__dict__.update(ecdf=ecdf, moment=moment, skew=skew, kurtosis=kurtosis, pearsonr=pearsonr,
                             rankdata=rankdata, gaussian_kde=_kde, zscore=_zscore)
        self._d = {}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("distributions",):
            return self
        real = getattr(_st, n)
        if isinstance(real, _st.rv_continuous) or isinstance(real, _st.rv_discrete):
            if n not in self._d:
                self._d[n] = Dist(n)
            return self._d[n]
        if isinstance(real, type):
            return real
        if callable(real):
            return passthrough(real, "scipy.stats." + n)
        return real


def _zscore(a, axis=0, ddof=0, **k):
    a = wrap(A(a))
    return (a - NP.mean(a)) / NP.std(a, ddof=ddof)


def legendre(n, monic=False):
    c = [Fraction(float(v)).limit_denominator(1 << 20) for v in _sp.legendre(int(n)).coeffs]
    if any(abs(float(a) - float(b)) > 1e-9 for a, b in zip(c, _sp.legendre(int(n)).coeffs)):
        raise Unsupported("legendre coefficients")

    def ev(x):
        def one(v):
            v = _L(v)
            acc = Sym.const_(0)
            for k in c:
                acc = acc * v + Sym.const_(k)
            return acc
        return vec(one, x)
    return ev


class SpecialNS:
    __name__ = "scipy.special"

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "legendre":
            return legendre
        if n in UFUNCS:
            f = UFUNCS[n]
            return lambda *a: vec(f, *a)
        real = getattr(_sp, n)
        return passthrough(real, "scipy.special." + n) if callable(real) else real


STATS = StatsNS()
SPECIAL = SpecialNS()


class GenericNS:
    """Other scipy submodules: concrete arguments only; callables are Unsupported."""

    def __init__(self, real, name):
        self.__dict__["_real"] = real
        self.__dict__["__name__"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        real = getattr(self._real, n)
        label = self.__dict__["__name__"] + "." + n
        if isinstance(real, types.ModuleType):
            return namespace(label) or GenericNS(real, label)
        if isinstance(real, type) or not callable(real):
            return real

        def f(*a, **k):
            h = npshim.ENV.get("hooks", {}).get(label)
            if h is not None:
                return h(*a, **k)
            raise Unsupported(label)
        return f


class ScipyNS:
    __name__ = "scipy"
    stats = STATS
    special = SPECIAL

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        import importlib

        return GenericNS(importlib.import_module("scipy." + n), "scipy." + n)


SCIPY = ScipyNS()


def namespace(name):
    if name == "math":
        return MATH
    if name == "numpy":
        return NP
    if name == "numpy.random":
        return NP.random
    if name == "scipy":
        return SCIPY
    if name in ("scipy.stats", "scipy.stats.distributions"):
        return STATS
    if name == "scipy.special":
        return SPECIAL
    if name.startswith("scipy.") or name.startswith("numpy."):
        import importlib

        if name.startswith("numpy.") and name.split(".")[1] in ("typing", "exceptions", "dtypes"):
            return importlib.import_module(name)
        return GenericNS(importlib.import_module(name), name)
    return None
