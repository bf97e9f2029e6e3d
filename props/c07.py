"""C07 Monte Carlo reference samples are simulated under the law the statistic hypothesises."""
from .c30 import pos, real
from .common import *
from .draws import Draws

ENCODED = ["MonteCarloLimitDistributionResolver.resolve", "get_available_generator", "hypothesis() and distribution() of every concrete "
           "goodness-of-fit statistic", "the generator of each family and the generate_* function it calls"]
BOUNDS = "simulation count 2 (3 thorough), sample size 2 (1-4 thorough); every hypothesised parameter value; every quantile level of every draw; every concrete statistic class"
OUTSIDE = "larger counts and sizes; the library's own random number quality; the value of the statistic itself (C16-C24)"
ASSUMPTIONS = ["a library draw with given parameters is the quantile of the library law at an arbitrary level in (0,1)",
               "execute_statistic is replaced by a recorder"]
BASE = "hypothesis_testing.limit_distribution.base"


def unit_interval(T):
    a = real(T, "a")
    b = T.var("b", suggest=lambda r: Fraction(r.randint(40, 60), 8))
    T.assume(T.lt(a, b))
    return dict(a=a, b=b)


def above_one(T, n):
    return T.var(n, lo=1, lo_open=True, suggest=lambda r: Fraction(r.randint(10, 30), 8))


# family module: (base class, default parameters, symbolic parameters, law)
FAM = {
    "normal": ("AbstractNormalityGofStatistic", dict(mean=0, var=1), lambda T: dict(mean=real(T, "mean"), var=pos(T, "var")),
               lambda T, p: ("norm", (), p["mean"], T.sqrt(p["var"]))),
    "exponent": ("AbstractExponentialityGofStatistic", dict(lam=1), lambda T: dict(lam=pos(T, "lam")), lambda T, p: ("expon", (), 0, 1 / p["lam"])),
    "weibull": ("AbstractWeibullGofStatistic", dict(a=1, k=1), lambda T: dict(a=pos(T, "a"), k=pos(T, "k")), lambda T, p: ("exponweib", (p["a"], p["k"]), 0, 1)),
    "uniform": ("AbstractUniformGofStatistic", dict(a=0, b=1), unit_interval, lambda T, p: ("uniform", (), p["a"], p["b"] - p["a"])),
    "student": ("AbstractStudentGofStatistic", dict(df=1, loc=0, scale=1), lambda T: dict(df=pos(T, "df"), loc=real(T, "loc"), scale=pos(T, "scale")),
                lambda T, p: ("t", (p["df"],), p["loc"], p["scale"])),
    "gamma": ("AbstractGammaGofStatistic", dict(alpha=1, beta=1), lambda T: dict(alpha=pos(T, "alpha"), beta=pos(T, "beta")),
              lambda T, p: ("gamma", (p["alpha"],), 0, 1 / p["beta"])),
    "beta": ("AbstractBetaGofStatistic", dict(alpha=1, beta=1), lambda T: dict(alpha=above_one(T, "alpha"), beta=above_one(T, "beta")),
             lambda T, p: ("beta", (p["alpha"], p["beta"]), 0, 1)),
    "log_normal": ("AbstractLogNormalGofStatistic", dict(s=1, scale=1), lambda T: dict(s=pos(T, "s"), scale=pos(T, "scale")),
                   lambda T, p: ("lognorm", (p["s"],), 0, p["scale"])),
}


def classes(fam):
    """names of the concrete statistics of a family and the parameters their constructors take"""
    import importlib
    import inspect
    import os
    import sys

    src = os.environ.get("SX_REPO_SRC", "/repo/src")
    if src not in sys.path:
        sys.path.insert(0, src)
    importlib.import_module("pysatl_criterion")
    mod = importlib.import_module("pysatl_criterion.statistics.goodness_of_fit." + fam)
    base = next(c for n, c in vars(mod).items() if inspect.isclass(c) and c.__module__ == mod.__name__ and n.startswith("Abstract")
                and "hypothesis" in vars(c))
    out = []
    for n, c in vars(mod).items():
        if inspect.isclass(c) and issubclass(c, base) and not inspect.isabstract(c) and c.__module__ == mod.__name__:
            out.append((n, tuple(k for k in inspect.signature(c).parameters)))
    return out


def h_sim(T, fam, cls, takes, count, n, given):
    base, defs, mk, law = FAM[fam]
    p = mk(T) if given else {}
    kw = {k: v for k, v in p.items() if k in takes}
    C = T.get("statistics.goodness_of_fit." + fam, cls)
    log = []

    class Recorder(C):
        def execute_statistic(self, rvs, *a, **k):
            log.append(list(T.values(rvs)))
            return T.const(0) if not T.real else 0.0

    st = Recorder(**kw)
    if not given:
        p = {k: T.scalar(getattr(st, k)) for k in defs}
    d = Draws(T)
    R = T.get(BASE, "MonteCarloLimitDistributionResolver")(count)
    R.resolve(st, n)
    T.check("one sample per simulation", T.truth(len(log) == count and all(len(s) == n for s in log)))
    T.check("every value is its own draw", T.truth(len(d.u) == count * n and not d.other))
    name, shapes, loc, scale = law(T, p)
    for i in range(count):
        for j in range(n):
            q = T.scalar(T.dist(name).ppf(d.u[i * n + j], *shapes, loc=loc, scale=scale))
            T.check_eq(f"value {j} of sample {i} follows the hypothesised law", log[i][j], q)


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    for fam in FAM:
        for cls, takes in classes(fam):
            for count, n in ((2, 2),) if not th else ((1, 1), (2, 3), (3, 4)):
                if all(k in takes for k in FAM[fam][1]):
                    out.append(Job("C07", f"{fam}:{cls}:count={count}:n={n}", h_sim, dict(fam=fam, cls=cls, takes=takes, count=count, n=n, given=True), seed=seed, budget_s=60))
                out.append(Job("C07", f"{fam}:{cls}:default:count={count}:n={n}", h_sim, dict(fam=fam, cls=cls, takes=takes, count=count, n=n, given=False), seed=seed, budget_s=60))
    return out
