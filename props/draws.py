"""Random draws as symbolic quantile transforms: every draw is Q(u; law) of its own arbitrary u in (0,1).

The same u lets a draw be compared with the quantile of the law it ought to follow, however the code obtains it
(library law with loc/scale, numpy.random, or a transformation of a standard draw)."""
from .common import *

SHAPES = {"norm": 0, "expon": 0, "uniform": 0, "gamma": 1, "beta": 2, "t": 1, "chi2": 1, "lognorm": 1, "logistic": 0, "laplace": 0,
          "cauchy": 0, "gumbel_r": 0, "gompertz": 1, "rice": 1, "invgauss": 1, "tukeylambda": 1, "truncnorm": 2, "exponweib": 2,
          "weibull_min": 1}
# numpy.random functions: (law, parameter names, builder of scipy arguments)
NPR = {
    "normal": ("norm", ("loc", "scale"), (0, 1), lambda l, s: ((), dict(loc=l, scale=s))),
    "standard_normal": ("norm", (), (), lambda: ((), {})),
    "uniform": ("uniform", ("low", "high"), (0, 1), lambda a, b: ((), dict(loc=a, scale=b - a))),
    "random": ("uniform", (), (), lambda: ((), {})),
    "random_sample": ("uniform", (), (), lambda: ((), {})),
    "exponential": ("expon", ("scale",), (1,), lambda s: ((), dict(scale=s))),
    "standard_exponential": ("expon", (), (), lambda: ((), {})),
    "gamma": ("gamma", ("shape", "scale"), (None, 1), lambda a, s: ((a,), dict(scale=s))),
    "standard_gamma": ("gamma", ("shape",), (None,), lambda a: ((a,), {})),
    "beta": ("beta", ("a", "b"), (None, None), lambda a, b: ((a, b), {})),
    "standard_t": ("t", ("df",), (None,), lambda a: ((a,), {})),
    "chisquare": ("chi2", ("df",), (None,), lambda a: ((a,), {})),
    "laplace": ("laplace", ("loc", "scale"), (0, 1), lambda l, s: ((), dict(loc=l, scale=s))),
    "logistic": ("logistic", ("loc", "scale"), (0, 1), lambda l, s: ((), dict(loc=l, scale=s))),
    "gumbel": ("gumbel_r", ("loc", "scale"), (0, 1), lambda l, s: ((), dict(loc=l, scale=s))),
    "lognormal": ("lognorm", ("mean", "sigma"), (0, 1), lambda m, s: ((s,), dict(scale=m))),
    "weibull": ("weibull_min", ("a",), (None,), lambda a: ((a,), {})),
    "standard_cauchy": ("cauchy", (), (), lambda: ((), {})),
    "wald": ("invgauss", ("mean", "scale"), (None, None), lambda m, s: ((m / s,), dict(scale=s))),
}


def count_of(size):
    """number of values and shape for a size argument (None: one scalar)."""
    if size is None:
        return 1, None
    if isinstance(size, (tuple, list)):
        k = 1
        for s in size:
            k *= int(s)
        return k, tuple(int(s) for s in size)
    return int(size), (int(size),)


class Draws:
    """Handler for T.rng_handler: records every draw."""

    def __init__(self, T, lo=Fraction(1, 64), hi=Fraction(63, 64)):
        self.T = T
        self.u = []            # latent uniforms in draw order
        self.v = []            # values handed out
        self.choices = []      # (chosen value, its probability)
        self.other = []        # anything else
        self.calls = 0
        self.lo, self.hi = lo, hi
        T.rng_handler(self)

    def latent(self):
        i = len(self.u)
        u = self.T.var(f"u{i}", lo=0, hi=1, lo_open=True, hi_open=True,
                       suggest=lambda r: self.lo + (self.hi - self.lo) * Fraction(r.randrange(1, 63), 64))
        self.u.append(u)
        return u

    def law(self, name, args, kw, size):
        T = self.T
        k, shape = count_of(size)
        out = []
        for _ in range(k):
            v = T.scalar(T.dist(name).ppf(self.latent(), *args, **kw))
            self.v.append(v)
            out.append(v)
        if shape is None:
            return out[0]
        a = T.array(out)
        return a if len(shape) == 1 else a.reshape(shape)

    def __call__(self, name, args, kw):
        self.calls += 1
        kw = dict(kw)
        lib, _, fn = name.rpartition(".")
        if lib == "scipy.stats":
            rs = kw.pop("random_state", None)
            m = SHAPES[fn] + 2
            args = list(args)
            if len(args) > m + 1:
                rs = args.pop()
            if rs is not None and isinstance(rs, int):
                self.other.append((name, "fixed seed"))
            size = args.pop() if len(args) > m else kw.pop("size", 1)
            r = self.law(fn, args, kw, size)
            return r if size is not None else self.T.array([r])[0]
        if fn in ("default_rng", "RandomState", "Generator"):
            if args or kw:
                self.other.append((name, "fixed seed"))
            return Gen(self)
        if fn == "seed":
            if args and args[0] is not None:
                self.other.append((name, "fixed seed"))
            return None
        if fn in ("rand", "randn"):
            return self.law("uniform" if fn == "rand" else "norm", (), {}, tuple(args) if args else None)
        if fn in NPR:
            law, names, defs, mk = NPR[fn]
            vals = dict(zip(names, defs))
            args = list(args)
            for n in names:
                if args:
                    vals[n] = args.pop(0)
                elif n in kw:
                    vals[n] = kw.pop(n)
            size = args.pop(0) if args else kw.pop("size", None)
            a, k = mk(*[vals[n] for n in names])
            if fn == "lognormal":
                k["scale"] = self.T.exp(k["scale"])
            return self.law(law, a, k, size)
        if fn in ("choice", "binomial", "integers", "randint"):
            return self.discrete(fn, list(args), kw)
        self.other.append((name, "unmodelled"))
        raise NotImplementedError(name)

    def discrete(self, fn, args, kw):
        T = self.T
        if fn == "binomial":
            n = args.pop(0) if args else kw.pop("n")
            if int(n) != 1:
                raise NotImplementedError("binomial n")
            p = args.pop(0) if args else kw.pop("p")
            pool, probs = [0, 1], [1 - p, p]
        else:
            if fn != "choice":
                raise NotImplementedError(fn)
            a = args.pop(0) if args else kw.pop("a")
            p = kw.pop("p", None)
            if len(args) > 2:
                p = args[2]
            pool = list(range(a)) if isinstance(a, int) else list(a)
            probs = [T.frac(1, len(pool))] * len(pool) if p is None else list(T.values(p))
        size = args.pop(0) if args else kw.pop("size", None)
        k, shape = count_of(size)
        out = []
        for _ in range(k):
            i = T.choose(f"c{len(self.choices)}", range(len(pool)))
            self.choices.append(probs[i])
            out.append(pool[i])
        import numpy as np
        return out[0] if shape is None else np.array(out).reshape(shape)


class Gen:
    def __init__(self, h):
        self.h = h

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: self.h("numpy.random." + n, a, k)
