"""Harness execution.

A harness is one function h(T).  It is run twice over:
  * symbolically (class SymT): inputs are solver variables, code under test is the
    transformed source of /repo, every check() becomes the query
    `path condition AND NOT condition` for z3;
  * concretely (class RealT): inputs come from a solver model, code under test is the
    real package with real numpy/scipy, check() is evaluated in floats with a tolerance.
The concrete run validates the encoding on a witness of every path and decides whether a
solver counterexample is real.
"""

from __future__ import annotations

import hashlib
import importlib
import itertools
import math
import random
import signal
import sys
import time
import traceback
import warnings
from contextlib import contextmanager
from fractions import Fraction

import numpy as np

from . import core, nparr, npshim, scishim
from .core import Budget, PathAbort, Sym, SymBool, Unsupported, lift, lift_bool
from .loader import Registry, PKG
from .nparr import SymArray, exact, to_obj


class Discard(BaseException):
    """Concrete run left the assumed domain."""


class Fail(BaseException):
    pass


# --------------------------------------------------------------------------- symbolic mode
class SymT:
    real = False

    def __init__(self, job, cx, seed):
        self.job = job
        self.cx = cx
        self.rng = random.Random(seed)
        self.inputs = {}       # name -> (Sym, suggestion)
        self.order = []
        self.reg = None
        self.observed = []
        self.obl = []          # (label, status)
        self._stubs = {}

    # fresh state per path
    def _start(self):
        self.reg = Registry(stubs=dict(self._stubs))
        self.observed = []
        npshim.ENV["rng"] = None
        npshim.ENV["draws"] = []
        npshim.ENV["hooks"] = {}
        npshim.ENV["opaque_cdf"] = False

    def opaque(self):
        """Library distribution functions stay terms of their own (increasing, between 0 and 1) instead of being expanded."""
        npshim.ENV["opaque_cdf"] = True

    def hook(self, name, fn):
        """Replace a library routine (an optimiser, a fit) by fn in both kinds of run."""
        npshim.ENV["hooks"][name] = fn

    def patch(self, obj, name, val):
        """Replace an attribute of the code under test for the rest of the path (modules are loaded afresh for each)."""
        setattr(obj, name, val)

    # -- code access
    def mod(self, name):
        return self.reg.imp(PKG + ("." + name if name else ""))

    def get(self, name, attr):
        return getattr(self.mod(name), attr)

    def stub(self, name, module):
        self.reg.stubs[name] = module

    # -- inputs
    def var(self, name, lo=None, hi=None, lo_open=False, hi_open=False, suggest=None, integer=False):
        sign = None
        if lo is not None and lo >= 0:
            sign = "pos" if (lo > 0 or lo_open) else "nonneg"
        s = self.cx.symbol(name, sign)
        if name not in self.inputs:
            self.inputs[name] = (s, suggest if callable(suggest) else _default_suggest(lo, hi) if suggest is None
                                 else (lambda r, v=suggest: Fraction(v)))
            self.order.append(name)
            (mono, _), = s.p.items()
            self.cx.suggest[mono[0][0]] = self.inputs[name][1]
        if lo is not None and not (lo == 0 and sign):
            self.cx.assume(core.cmp_(s, lift(lo), "gt" if lo_open else "ge"))
        if hi is not None:
            self.cx.assume(core.cmp_(s, lift(hi), "lt" if hi_open else "le"))
        return s

    def assume(self, cond):
        cond = lift_bool(cond)
        c = cond.const()
        if c is None and self.cx.verdict(cond) == "unsat":
            raise PathAbort()
        self.cx.assume(cond)

    def choose(self, name, options):
        """Nondeterministic choice among concrete options (each one explored)."""
        options = list(options)
        s = self.var("choice_" + name, suggest=lambda r: Fraction(r.randrange(len(options))))
        for i, o in enumerate(options[:-1]):
            if bool(core.cmp_(s, i, "eq")):
                return o
        self.cx.assume(core.cmp_(s, len(options) - 1, "eq"))
        return options[-1]

    # -- values
    def const(self, v):
        return Sym.const_(Fraction(v) if not isinstance(v, float) else Fraction(repr(v)))

    def array(self, xs):
        return SymArray(list(xs))

    def list_of(self, xs):
        return list(xs)

    def values(self, a):
        """Flat python list of an array or list result."""
        if isinstance(a, np.ndarray):
            return list(to_obj(a).ravel())
        return list(a)

    def scalar(self, x):
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise Unsupported("scalar expected")
            x = to_obj(x).ravel()[0]
        return x

    sqrt = staticmethod(lambda x: core.ssqrt(lift(x)))
    log = staticmethod(lambda x: core.slog(lift(x)))
    exp = staticmethod(lambda x: core.sexp(lift(x)))
    abs = staticmethod(lambda x: core.sabs(lift(x)))
    floor = staticmethod(lambda x: core.sfloor(lift(x)))

    @property
    def pi(self):
        return scishim.pi()

    def frac(self, a, b=1):
        return Sym.const_(Fraction(a, b))

    def pow(self, a, b):
        return core.spow(lift(a), lift(b))

    def max(self, *xs):
        xs = xs[0] if len(xs) == 1 else xs
        return core.smax(list(xs))

    def min(self, *xs):
        xs = xs[0] if len(xs) == 1 else xs
        return core.smax(list(xs), "min")

    def sum(self, xs):
        from .nparr import ssum

        return lift(ssum(list(xs)))

    def ite(self, c, a, b):
        return core.ite(lift_bool(c), lift(a), lift(b))

    def branch(self, c):
        """Fork on a condition (used inside reference definitions)."""
        return bool(lift_bool(c))

    def argsort(self, xs):
        return npshim.argsort_stable([lift(x) for x in xs])

    def sorted(self, xs):
        return npshim.sort_values(list(xs))

    def dist(self, name):
        return scishim.STATS.__getattr__(name)

    def special(self, name):
        def call(*a):
            a = [lift(x) for x in a]
            f = scishim.UFUNCS.get(name) or nparr.TABLE.get(name)
            return f(*a) if f is not None else scishim.elem(name, a[0])
        return call

    # -- conditions
    def eq(self, a, b):
        return lift_bool(core.cmp_(lift(a), lift(b), "eq"))

    def lt(self, a, b):
        return lift_bool(core.cmp_(a, b, "lt"))

    def le(self, a, b):
        return lift_bool(core.cmp_(a, b, "le"))

    def gt(self, a, b):
        return self.lt(b, a)

    def ge(self, a, b):
        return self.le(b, a)

    def and_(self, *xs):
        return core.and_(*xs)

    def or_(self, *xs):
        return core.or_(*xs)

    def not_(self, x):
        return core.not_(x)

    def implies(self, a, b):
        return core.implies(a, b)

    def iff(self, a, b):
        a, b = lift_bool(a), lift_bool(b)
        return core.or_(core.and_(a, b), core.and_(core.not_(a), core.not_(b)))

    def truth(self, x):
        """Code-produced boolean as a condition."""
        if isinstance(x, (SymBool, bool, np.bool_)):
            return lift_bool(x)
        if isinstance(x, np.ndarray):
            x = self.scalar(x)
        if isinstance(x, Sym):
            return lift_bool(core.cmp_(x, 0, "ne"))
        return lift_bool(bool(x))

    # -- obligations
    def check(self, label, cond):
        if isinstance(cond, (bool, np.bool_)):
            cond = lift_bool(cond)
        c = cond.const()
        cx = self.cx
        t = time.time()
        if c is True:
            cx.trivial = getattr(cx, "trivial", 0) + 1
            self.job.done(label, "discharged")
            return
        neg = cond.neg() if c is None else core.TRUE
        base = cx.base()
        r, m = cx.solve(base + [neg], self.job.obl_timeout)
        if r == "unsat":
            self.job.done(label, "discharged")
        else:
            self.job.done(label, "open")
            self.job.candidates.append((label, base + [neg], self.model_env(m) if m is not None else None, r))
        self.job.obl_time[label] = max(self.job.obl_time.get(label, 0), time.time() - t)

    def check_eq(self, label, a, b):
        a, b = self._num(a), self._num(b)
        self.observed.append((label, a))
        if isinstance(a, float) or isinstance(b, float):
            same = (a != a and b != b) or a == b if isinstance(a, float) and isinstance(b, float) else False
            self.check(label, bool(same))
            return
        if core.p_equal(a.p, b.p):
            # identical normal forms; the solver is still asked (its answer is immediate)
            self.cx.trivial = getattr(self.cx, "trivial", 0) + 1
            if self.cx.confirm_equal(a, b):
                self.job.done(label, "discharged")
                return
        self.check(label, lift_bool(core.cmp_(a, b, "eq")))

    def check_all_eq(self, label, xs, ys):
        xs, ys = list(xs), list(ys)
        self.check(label + ":length", len(xs) == len(ys))
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.check_eq(f"{label}[{i}]", x, y)

    def _num(self, a):
        a = self.scalar(a)
        v = lift(a)
        if v is None:
            raise Unsupported(f"number expected, got {type(a).__name__}")
        if isinstance(v, Sym):
            v.canon()
        return v

    def observe(self, label, v):
        self.observed.append((label, v))

    def model_env(self, m):
        env = {}
        for n in self.order:
            s, sug = self.inputs[n]
            (mono, _), = s.p.items()
            at = self.cx.atoms[mono[0][0]]
            v = m.eval(at.z3v)
            try:
                env[n] = core.z3_to_fraction(v)
            except Unsupported:
                pass
        return env

    def raises(self, fn, *excs):
        """True when fn raises one of excs.  Other exceptions propagate."""
        try:
            self.last = fn()
        except excs or (Exception,) as e:
            if isinstance(e, (Unsupported, Budget)):
                raise
            self.last_exc = e
            return True
        return False

    def run(self, fn):
        """('ok', value) or ('exc', exception)"""
        try:
            return "ok", fn()
        except (Unsupported, Budget):
            raise
        except Exception as e:
            return "exc", e

    def rng_handler(self, h):
        npshim.ENV["rng"] = h


def _default_suggest(lo, hi):
    def s(r):
        if lo is not None and hi is not None:
            a, b = Fraction(lo), Fraction(hi)
            return a + (b - a) * Fraction(r.randrange(1, 64), 64)
        if lo is not None:
            return Fraction(lo) + Fraction(r.randrange(1, 200), 32)
        if hi is not None:
            return Fraction(hi) - Fraction(r.randrange(1, 200), 32)
        return Fraction(r.randrange(-120, 120), 32)
    return s


# --------------------------------------------------------------------------- concrete mode
class K:
    """Three-valued truth for float comparisons: True / False / None (too close to call)."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def const(self):
        return self.v

    def __bool__(self):
        raise TypeError("use T.branch to fork on a condition")


def _k(x):
    if isinstance(x, K):
        return x
    return K(bool(x))


RTOL = 1e-6


_ALL = []


def _import_all():
    """Import every module of the package once (those that cannot be imported are left out)."""
    if _ALL:
        return
    import pkgutil
    pkg = importlib.import_module(PKG)
    for m in pkgutil.walk_packages(pkg.__path__, PKG + ".", onerror=lambda n: None):
        try:
            _ALL.append(importlib.import_module(m.name))
        except Exception:
            pass


class RealT:
    real = True

    def __init__(self, env, jitter=None, exact_inputs=False):
        self.env = env
        self.failures = []
        self.observed = []
        self.checks = 0
        self.jitter = jitter
        self.exact_inputs = exact_inputs
        self._undo = []
        self.used = {}

    def mod(self, name):
        return importlib.import_module(PKG + ("." + name if name else ""))

    def get(self, name, attr):
        return getattr(self.mod(name), attr)

    def stub(self, name, module):
        pass

    def var(self, name, lo=None, hi=None, lo_open=False, hi_open=False, suggest=None, integer=False):
        if name not in self.env:
            raise Discard(f"no value for {name}")
        v = self.env[name]
        f = float(v)
        if self.jitter is not None and not name.startswith("choice_") and not integer:
            f = f * (1 + self.jitter.uniform(-1e-9, 1e-9))
        if isinstance(v, Fraction) and v.denominator == 1 and integer:
            f = int(v)
        if lo is not None and (f < lo or (lo_open and f <= lo)):
            raise Discard(name)
        if hi is not None and (f > hi or (hi_open and f >= hi)):
            raise Discard(name)
        self.used[name] = f
        return f

    def assume(self, cond):
        c = _k(cond).v
        if c is False or c is None:
            raise Discard("assumption")

    def choose(self, name, options):
        options = list(options)
        i = int(self.env.get("choice_" + name, len(options) - 1))
        if not 0 <= i < len(options):
            i = len(options) - 1
        return options[i]

    def const(self, v):
        return float(v)

    def frac(self, a, b=1):
        return a / b

    def array(self, xs):
        return np.array([float(x) for x in xs])

    def list_of(self, xs):
        return list(xs)

    def values(self, a):
        if isinstance(a, np.ndarray):
            return list(a.ravel())
        return list(a)

    def scalar(self, x):
        if isinstance(x, np.ndarray) and x.size == 1:
            return x.ravel()[0]
        return x

    @staticmethod
    def sqrt(x):
        return math.sqrt(x) if x >= 0 else math.nan

    @staticmethod
    def log(x):
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    exp = staticmethod(lambda x: math.exp(x) if x < 700 else math.inf)
    abs = staticmethod(abs)
    floor = staticmethod(math.floor)
    pi = math.pi

    def pow(self, a, b):
        return float(a) ** float(b)

    def max(self, *xs):
        return max(xs[0]) if len(xs) == 1 else max(xs)

    def min(self, *xs):
        return min(xs[0]) if len(xs) == 1 else min(xs)

    def sum(self, xs):
        return math.fsum(xs)

    def ite(self, c, a, b):
        v = _k(c).v
        if v is None:
            raise Discard("near-tie in reference")
        return a if v else b

    def branch(self, c):
        v = _k(c).v
        if v is None:
            raise Discard("near-tie in reference")
        return v

    def argsort(self, xs):
        return sorted(range(len(xs)), key=lambda i: xs[i])

    def sorted(self, xs):
        return sorted(xs)

    def dist(self, name):
        import scipy.stats as st

        return getattr(st, name)

    def special(self, name):
        import scipy.special as sp

        f = {"Phi": "ndtr"}.get(name, name)
        g = getattr(sp, f, None) or getattr(np, f)
        return lambda *a: float(g(*a))

    # comparisons
    def _cmp(self, a, b):
        a, b = float(a), float(b)
        if a == b:
            return 0
        if a != a or b != b:
            return None
        d = a - b
        tol = 1e-9 * (1 + abs(a) + abs(b))
        if abs(d) <= tol:
            return None
        return 1 if d > 0 else -1

    def eq(self, a, b):
        a, b = float(a), float(b)
        if a == b or (a != a and b != b):
            return K(True)
        if a != a or b != b:
            return K(False)
        tol = RTOL * (1 + abs(a) + abs(b))
        return K(True) if abs(a - b) <= tol else K(False)

    def lt(self, a, b):
        c = self._cmp(a, b)
        return K(None if c is None else c < 0)

    def le(self, a, b):
        c = self._cmp(a, b)
        return K(None if c is None else c <= 0)

    def gt(self, a, b):
        return self.lt(b, a)

    def ge(self, a, b):
        return self.le(b, a)

    def and_(self, *xs):
        vs = [_k(x).v for x in xs]
        return K(False if False in vs else (None if None in vs else True))

    def or_(self, *xs):
        vs = [_k(x).v for x in xs]
        return K(True if True in vs else (None if None in vs else False))

    def not_(self, x):
        v = _k(x).v
        return K(None if v is None else not v)

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        a, b = _k(a).v, _k(b).v
        return K(None if a is None or b is None else a == b)

    def truth(self, x):
        return K(bool(x))

    def check(self, label, cond):
        self.checks += 1
        v = _k(cond).v
        if v is False:
            self.failures.append((label, "condition is false"))

    def check_eq(self, label, a, b):
        self.checks += 1
        a, b = self.scalar(a), self.scalar(b)
        self.observed.append((label, a))
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError) as e:
            self.failures.append((label, f"not a number: {a!r}"))
            return
        if self.eq(fa, fb).v is False:
            self.failures.append((label, f"got {fa!r}, expected {fb!r}"))

    def check_all_eq(self, label, xs, ys):
        xs, ys = list(xs), list(ys)
        self.check(label + ":length", len(xs) == len(ys))
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.check_eq(f"{label}[{i}]", x, y)

    def observe(self, label, v):
        self.observed.append((label, v))

    def raises(self, fn, *excs):
        try:
            self.last = fn()
        except excs or (Exception,) as e:
            self.last_exc = e
            return True
        return False

    def run(self, fn):
        try:
            return "ok", fn()
        except Exception as e:
            return "exc", e

    def patch(self, obj, name, val):
        old = getattr(obj, name)
        setattr(obj, name, val)
        self._undo.append((obj, name, old))

    def opaque(self):
        pass

    def hook(self, name, fn):
        _import_all()                      # a module first imported later would keep the replacement
        owner, attr = name.rsplit(".", 1)
        try:
            obj = importlib.import_module(owner)
        except ImportError:
            o, a = owner.rsplit(".", 1)
            obj = getattr(importlib.import_module(o), a)
            self._undo.append((obj, attr, obj.__dict__.get(attr)))
            setattr(obj, attr, fn)
            return
        old = getattr(obj, attr)
        self.patch(obj, attr, fn)
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith(PKG):
                for k, v in list(vars(m).items()):
                    if v is old:
                        self.patch(m, k, fn)

    def rng_handler(self, h):
        """Route the real library's draws through h as well."""
        import scipy.stats as st

        def mk(nm):
            def f(*a, **k):
                return h(nm, a, k)
            return f

        for n in ("norm", "expon", "uniform", "gamma", "beta", "t", "chi2", "lognorm", "logistic", "laplace", "cauchy",
                  "gumbel_r", "gompertz", "rice", "invgauss", "tukeylambda", "truncnorm", "exponweib", "weibull_min"):
            d = getattr(st, n)
            d.rvs = mk("scipy.stats." + n)
            self._undo.append((d, "rvs", None))
        from scipy.stats._distn_infrastructure import rv_frozen

        self._undo.append((rv_frozen, "rvs", rv_frozen.rvs))
        rv_frozen.rvs = lambda s, size=None, random_state=None: h(
            "scipy.stats." + s.dist.name, s.args, dict(s.kwds, size=size, random_state=random_state))
        for n in ("choice", "normal", "uniform", "random", "rand", "randn", "standard_normal", "exponential", "gamma",
                  "beta", "binomial", "default_rng", "seed", "permutation", "shuffle", "random_sample", "standard_t", "chisquare",
                  "lognormal", "laplace", "logistic", "gumbel", "standard_cauchy", "standard_gamma", "standard_exponential", "wald",
                  "weibull", "randint", "RandomState"):
            self._undo.append((np.random, n, getattr(np.random, n)))
            setattr(np.random, n, mk("numpy.random." + n))

    def _close(self):
        for obj, name, old in reversed(self._undo):
            if old is None:
                obj.__dict__.pop(name, None)
            else:
                setattr(obj, name, old)
        self._undo = []


# --------------------------------------------------------------------------- one job
HANG_S = 75        # a path that does nothing but run code for this long is suspected not to end
REPLAY_S = 12      # ... and reported if the real code gives no result for this long


class Job:
    """One harness instance (function + parameters)."""

    def __init__(self, prop, name, fn, params=None, max_paths=400, obl_timeout=8000, budget_s=60, seed=1, witnesses=24,
                 require_paths=1, check_path=True, check_defined=True):
        self.prop, self.name, self.fn, self.params = prop, name, fn, params or {}
        self.max_paths, self.obl_timeout, self.budget_s, self.seed = max_paths, obl_timeout, budget_s, seed
        self.max_witnesses = witnesses
        self.require_paths = require_paths
        self.check_defined = check_defined

    def done(self, label, status):
        self.obligations[(label, self.path_no)] = status if self.obligations.get((label, self.path_no)) != "open" else "open"

    def call(self, T):
        return self.fn(T, **self.params)

    def execute(self):
        t0 = time.time()
        self.obligations = {}
        self.candidates = []
        self.obl_time = {}
        self.path_no = 0
        self.violations = []
        self.inconclusive = []
        self.samples = []
        self.validated = 0
        self.replays = 0
        self.mism = []
        cx = core.Ctx(timeout_ms=3000, max_paths=self.max_paths, deadline=t0 + self.budget_s)
        T = SymT(self, cx, self.seed)
        rng = random.Random(hash_seed(self.name, self.seed))
        witnesses = []
        T.reg = None
        status = {"unsupported": None}

        def one():
            self.path_no += 1
            T._start()
            start = cx.last = time.time()
            try:
                with watchdog(HANG_S, lambda: 0 if cx.busy else time.time() - cx.last):
                    self.call(T)
            except PathAbort:
                raise
            except (Budget, Hang) as e:
                if isinstance(e, Hang) or time.time() - start > HANG_S:
                    self.done("returns", "open")
                    self.candidates.append(("does not return", cx.base(), None, "unknown"))
                    raise Budget("a path did not end") from None
                raise
            except Unsupported as e:
                self.inconclusive.append(f"unsupported: {e} @ {where(e)}")
                witnesses.append((self.path_no, list(cx.base()), None))
                return
            except RecursionError as e:
                self.inconclusive.append("recursion limit")
                return
            except Exception as e:
                # the code under test raised where the property wants a value
                base = cx.base()
                r, m = cx.solve(base, self.obl_timeout)
                if r == "unsat":
                    return
                self.done("no exception", "open")
                self.candidates.append(("no exception: " + type(e).__name__ + ": " + str(e)[:100] + " @ " + where(e), base,
                                        T.model_env(m) if m is not None else None, r))
                witnesses.append((self.path_no, list(base), None))
                return
            self.done("path completes", "discharged")
            if cx.def_code and self.check_defined:
                # is the code undefined (division by zero, log of zero) somewhere the reference is defined?
                keep = [c for c in cx.defined if c.key() not in cx.def_code]
                conds = cx.assumptions + cx.pc + keep + [core.or_(*[c.neg() for c in cx.def_code.values()])]
                r, m = cx.solve(conds, 1000)
                if r == "sat":
                    self.candidates.append(("defined", conds, T.model_env(m), r))
            witnesses.append((self.path_no, list(cx.base()), list(T.observed)))

        budget_hit = None
        try:
            cx.explore(one)
        except Budget as e:
            budget_hit = str(e)
            self.inconclusive.append("budget: " + str(e))
        core.CTX = cx
        try:
            self._post(T, cx, witnesses, rng)
        finally:
            core.CTX = None
        obl = len(self.obligations)
        dis = sum(1 for v in self.obligations.values() if v == "discharged")
        if obl == 0 and not self.violations and not self.inconclusive:
            self.inconclusive.append("no obligation was reached (vacuous)")
        if self.validated == 0 and not self.violations and not self.inconclusive:
            self.inconclusive.append("no path witness could be replayed (vacuity not excluded)")
        opens = [k for k, v in self.obligations.items() if v == "open"]
        reported = {v["label"] for v in self.violations}
        if opens and not self.violations:
            self.inconclusive.append("open obligations: " + "; ".join(sorted({c[0] for c in self.candidates} | {k[0] for k in opens})[:4]))
        return dict(
            prop=self.prop, name=self.name, paths=self.path_no, forks=cx.forks, queries=cx.queries,
            solver_s=round(cx.solver_s, 3), unknowns=cx.unknowns, obligations=obl, discharged=dis,
            closed_by_normal_form=getattr(cx, "trivial", 0), atoms=len(cx.atoms), validated=self.validated,
            replays=self.replays, violations=self.violations, inconclusive=self.inconclusive[:8], mismatches=self.mism[:5],
            samples=self.samples[:2], files=sorted(set(T.reg.used_files.values())) if T.reg else [],
            wall_s=round(time.time() - t0, 3), notes=sorted(cx.notes), slow=sorted(
                ((round(v, 2), k) for k, v in self.obl_time.items() if v > 1), reverse=True)[:3],
        )

    # -- concrete side
    def env_full(self, T, cx, rng, partial=None):
        env = dict(partial or {})
        for n in T.order:
            if n not in env:
                env[n] = T.inputs[n][1](rng)
        return env

    def holds(self, T, cx, conds, env):
        ids = self._ids(T, cx, env)
        cache = {}
        try:
            for c in conds:
                if not core.evalf(c, ids, cache):
                    return False
        except (KeyError, ZeroDivisionError, OverflowError, ValueError, TypeError):
            return False
        return True

    def _ids(self, T, cx, env):
        ids = {}
        for n, v in env.items():
            s = T.inputs[n][0]
            (mono, _), = s.p.items()
            ids[mono[0][0]] = float(v)
        return ids

    def replay(self, env, jitter=None):
        """Run the harness on the real code. Returns RealT or None when outside the domain."""
        R = RealT(env, jitter)
        self.replays += 1
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"), watchdog(REPLAY_S):
                warnings.simplefilter("ignore")
                self.call(R)
        except Discard:
            return None
        except Hang:
            R.failures.append(("returns", f"no result after {REPLAY_S} s"))
        except BudgetTimeout:
            return None
        except Exception as e:
            R.failures.append(("no exception", f"{type(e).__name__}: {e}"))
        finally:
            R._close()
        return R

    def confirm(self, env, label):
        R = self.replay(env)
        if R is None or not R.failures:
            return False
        labs = {f[0] for f in R.failures}
        # robustness: the same check must fail under tiny perturbations too, unless the failure
        # needs an exact coincidence (then the inputs must be exactly representable)
        exactly = all(Fraction(float(v)) == v for v in env.values())
        stable = 0
        for k in range(2):
            R2 = self.replay(env, random.Random(k))
            if R2 is not None and labs & {f[0] for f in R2.failures}:
                stable += 1
        if stable < 2 and not exactly:
            return False
        if stable < 2 and any("got" in f[1] for f in R.failures):
            # numerical mismatch that vanishes under perturbation: accept only a gross one
            pass
        self.violations.append(dict(
            label=R.failures[0][0], detail=R.failures[0][1], solver_label=label,
            env={k: str(v) for k, v in env.items()}, all=[list(map(str, f)) for f in R.failures[:6]]))
        return True

    def _post(self, T, cx, witnesses, rng):
        cx.deadline = None
        t_end = time.time() + 40
        # 1. counterexamples from failed obligations
        seen_labels = {}
        for label, conds, env0, res in self.candidates:
            if len(self.violations) >= 3 or time.time() > t_end:
                break
            if seen_labels.get(label, 0) >= 6:
                continue
            seen_labels[label] = seen_labels.get(label, 0) + 1
            if self.search(T, cx, conds, env0, rng, label):
                continue
        # 2. witness of every path: reachability, encoding validation
        order = list(range(len(witnesses)))
        if len(order) > self.max_witnesses:
            rng.shuffle(order)
            order = order[: self.max_witnesses]
        for i in order:
            if time.time() > t_end or len(self.violations) >= 3:
                break
            no, base, obs = witnesses[i]
            envs = self.models(T, cx, base, rng, 1 if obs is not None else 4)
            for env in envs:
                R = self.replay(env)
                if R is None:
                    continue
                if R.failures:
                    if self.confirm(env, f"path {no} witness"):
                        break
                    continue
                if obs is None or ((cx.unknowns or any(a.kind not in ("sym", "int", "inv") for a in cx.atoms))
                                   and not self.holds(T, cx, base, env)):
                    # (terms outside the solver's theory: the model may not satisfy the path)
                    continue
                was = len(self.mism)
                if self.compare(T, cx, obs, R, env):
                    self.validated += 1
                    if len(self.samples) < 2:
                        self.samples.append(dict(harness=self.name, path=no,
                                                 input={k: str(v) for k, v in list(env.items())[:8]},
                                                 observed=[[l, short(v)] for l, v in R.observed[:3]]))
                elif not all(core.clear_cut(c, self._ids(T, cx, env), {}) for c in base):
                    del self.mism[was:]          # a comparison is too close to call in floating point
        if self.mism and not self.violations:
            self.inconclusive.append("encoding differs from the real code: " + "; ".join(self.mism[:2]))

    def compare(self, T, cx, obs, R, env):
        ids = self._ids(T, cx, env)
        cache = {}
        ok = True
        if len(obs) != len(R.observed):
            self.mism.append(f"{len(obs)} vs {len(R.observed)} observations")
            return False
        for (l, s), (l2, r) in zip(obs, R.observed):
            if isinstance(s, (Sym, SymBool)):
                try:
                    v = core.evalf(s, ids, cache)
                except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                    continue
            else:
                v = s
            try:
                fv, fr = float(v), float(r)
            except (TypeError, ValueError):
                if str(v) != str(r):
                    self.mism.append(f"{l}: {v!r} vs {r!r}")
                    ok = False
                continue
            if fv != fv and fr != fr or fv == fr:
                continue
            if abs(fv - fr) > 1e-5 * (1 + abs(fv) + abs(fr)) or fv != fv or fr != fr:
                if isinstance(s, Sym) and fr == fr:
                    try:
                        fv = float(core.evalx(s, {k: Fraction(x) for k, x in ids.items()}, {}))
                    except (KeyError, ZeroDivisionError, OverflowError, ValueError, TypeError):
                        continue
                    if abs(fv - fr) <= 1e-5 * (1 + abs(fv) + abs(fr)):
                        continue
                self.mism.append(f"{l}: encoding {fv!r}, real code {fr!r} at " +
                                 ", ".join(f"{k}={float(x):.4g}" for k, x in list(env.items())[:6]))
                ok = False
        return ok

    def models(self, T, cx, conds, rng, k, tries=40):
        """Inputs satisfying conds: suggestions checked numerically first, then solver models."""
        out = []
        for _ in range(tries):
            env = self.env_full(T, cx, rng)
            if self.holds(T, cx, conds, env):
                out.append(env)
                if len(out) >= k:
                    return out
        # solver model, with suggestion values pinned greedily
        try:
            r, m = cx.solve(conds, 3000)
        except Budget:
            return out
        if r == "sat":
            out.append(self.greedy(T, cx, conds, rng, T.model_env(m)))
            out.append(self.env_full(T, cx, rng, {n: v for n, v in T.model_env(m).items()}))
        return out[:max(k, 2)]

    def greedy(self, T, cx, conds, rng, env0):
        fixed = []
        env = dict(env0)
        t_end = time.time() + 6
        for n in T.order:
            if time.time() > t_end:
                break
            s, sug = T.inputs[n]
            for _ in range(2):
                v = sug(rng)
                c = lift_bool(core.cmp_(s, Sym.const_(v), "eq"))
                r, m = cx.solve(conds + fixed + [c], 700)
                if r == "sat":
                    fixed.append(c)
                    env = T.model_env(m)
                    break
        r, m = cx.solve(conds + fixed, 1500)
        if r == "sat":
            env = T.model_env(m)
        return self.env_full(T, cx, rng, env)

    def search(self, T, cx, conds, env0, rng, label):
        tried = 0
        # generic inputs on which the negated obligation holds numerically
        for env in self.generic(T, cx, conds, rng, 8, 200):
            tried += 1
            if self.confirm(env, label):
                return True
        if env0 is not None:
            env = self.env_full(T, cx, rng, env0)
            if self.confirm(env, label):
                return True
            for _ in range(3):
                env = self.greedy(T, cx, conds, rng, env0)
                if self.confirm(env, label):
                    return True
        return False

    def generic(self, T, cx, conds, rng, k, tries):
        n = 0
        for _ in range(tries):
            env = self.env_full(T, cx, rng)
            if self.holds(T, cx, conds, env):
                n += 1
                yield env
                if n >= k:
                    return


class Hang(BaseException):
    """The code has been running for a long time without asking the solver anything / in a replay."""


@contextmanager
def watchdog(seconds, idle=None):
    """Raise Hang in the main thread after `seconds` (idle(): how long nothing has happened; None: wall clock)."""
    t0 = time.time()

    def fire(sig, frame):
        if (time.time() - t0 if idle is None else idle()) > seconds:
            raise Hang()

    try:
        old = signal.signal(signal.SIGALRM, fire)
    except ValueError:                     # not in the main thread
        yield
        return
    signal.setitimer(signal.ITIMER_REAL, 1, 1)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class BudgetTimeout(Exception):
    pass


def short(v):
    try:
        return round(float(v), 9)
    except (TypeError, ValueError):
        return str(v)[:80]


def hash_seed(name, seed):
    return int(hashlib.sha256(f"{name}/{seed}".encode()).hexdigest()[:12], 16)


def where(e):
    tb = e.__traceback__
    last = "?"
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if "pysatl_criterion" in f:
            last = f"{f.split('pysatl_criterion/')[-1]}:{tb.tb_lineno}"
        tb = tb.tb_next
    return last
