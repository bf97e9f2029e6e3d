"""C30 generators draw from the documented law."""
from .common import *
from .draws import Draws

ENCODED = ["generate and parameters of every generator class", "every generate_* function of core.distributions",
           "get_available_generator"]
BOUNDS = "samples of 1-3 values (6 thorough); all parameter values of each law; every quantile level of every draw"
OUTSIDE = "larger samples; the library's own random number quality (draws are arbitrary quantile levels of the library law)"
ASSUMPTIONS = ["a library draw with given parameters is the quantile of the library law at an arbitrary level in (0,1)"]
GEN = "generator.generators"


def real(T, n):
    return T.var(n, suggest=lambda r: Fraction(r.randint(-16, 24), 8))


def pos(T, n):
    return T.var(n, lo=0, lo_open=True, suggest=lambda r: Fraction(r.randint(2, 24), 8))


def interval(T):
    a = real(T, "a")
    b = T.var("b", suggest=lambda r: Fraction(r.randint(40, 60), 8))
    T.assume(T.lt(a, b))
    return dict(a=a, b=b)


def trunc(T):
    p = dict(mean=T.var("mean", suggest=lambda r: Fraction(r.randint(-4, 4), 8)), var=T.var("var", lo=0, lo_open=True, suggest=lambda r: Fraction(r.randint(4, 16), 8)),
             a=T.var("a", suggest=lambda r: Fraction(r.randint(-16, -6), 8)), b=T.var("b", suggest=lambda r: Fraction(r.randint(6, 16), 8)))
    T.assume(T.lt(p["a"], p["b"]))
    return p


# generator class: (distribution, core module, core function, parameters, law(T, p) -> (library law, shapes, loc, scale))
LAWS = {
    "BetaRVSGenerator": ("BETA", "beta", "generate_beta", lambda T: dict(a=pos(T, "a"), b=pos(T, "b")),
                         lambda T, p: ("beta", (p["a"], p["b"]), 0, 1)),
    "CauchyRVSGenerator": ("CAUCHY", "cauchy", "generate_cauchy", lambda T: dict(t=real(T, "t"), s=pos(T, "s")), lambda T, p: ("cauchy", (), p["t"], p["s"])),
    "LaplaceRVSGenerator": ("LAPLACE", "laplace", "generate_laplace", lambda T: dict(t=real(T, "t"), s=pos(T, "s")), lambda T, p: ("laplace", (), p["t"], p["s"])),
    "LogisticRVSGenerator": ("LOGISTIC", "logistic", "generate_logistic", lambda T: dict(t=real(T, "t"), s=pos(T, "s")), lambda T, p: ("logistic", (), p["t"], p["s"])),
    "TRVSGenerator": ("STUDENT", "student", "generate_t", lambda T: dict(df=pos(T, "df")), lambda T, p: ("t", (p["df"],), 0, 1)),
    "TukeyRVSGenerator": ("TUKEY", "tukey", "generate_tukey", lambda T: dict(lam=pos(T, "lam")), lambda T, p: ("tukeylambda", (p["lam"],), 0, 1)),
    "LognormGenerator": ("LOG_NORMAL", "lognormal", "generate_lognorm", lambda T: dict(s=pos(T, "s"), mu=real(T, "mu")),
                         lambda T, p: ("lognorm", (p["s"],), 0, T.exp(p["mu"]))),
    "GammaGenerator": ("GAMMA", "gamma", "generate_gamma", lambda T: dict(alfa=pos(T, "alfa"), beta=pos(T, "beta")),
                       lambda T, p: ("gamma", (p["alfa"],), 0, 1 / p["beta"])),
    "TruncnormGenerator": ("TRUNC_NORMAL", "truncnormal", "generate_truncnorm", trunc,
                           lambda T, p: ("truncnorm", ((p["a"] - p["mean"]) / T.sqrt(p["var"]), (p["b"] - p["mean"]) / T.sqrt(p["var"])), p["mean"], T.sqrt(p["var"]))),
    "Chi2Generator": ("CHI_2", "chi2", "generate_chi2", lambda T: dict(df=pos(T, "df")), lambda T, p: ("chi2", (p["df"],), 0, 1)),
    "GumbelGenerator": ("GUMBEL", "gumbel", "generate_gumbel", lambda T: dict(mu=real(T, "mu"), beta=pos(T, "beta")), lambda T, p: ("gumbel_r", (), p["mu"], p["beta"])),
    "WeibullGenerator": ("WEIBULL", "weibull", "generate_weibull", lambda T: dict(a=pos(T, "a"), k=pos(T, "k")), lambda T, p: ("exponweib", (p["a"], p["k"]), 0, 1)),
    "ExponentialGenerator": ("EXPONENTIAL", "expon", "generate_expon", lambda T: dict(lam=pos(T, "lam")), lambda T, p: ("expon", (), 0, 1 / p["lam"])),
    "InvGaussGenerator": ("INV_GAUSS", "invgauss", "generate_invgauss", lambda T: dict(mu=pos(T, "mu"), lam=pos(T, "lam")),
                          lambda T, p: ("invgauss", (p["mu"] / p["lam"],), 0, p["lam"])),
    "RiceGenerator": ("RICE", "rice", "generate_rice", lambda T: dict(nu=pos(T, "nu"), sigma=pos(T, "sigma")), lambda T, p: ("rice", (p["nu"] / p["sigma"],), 0, p["sigma"])),
    "GompertzGenerator": ("GOMPERTZ", "gompertz", "generate_gompertz", lambda T: dict(eta=pos(T, "eta"), b=pos(T, "b")), lambda T, p: ("gompertz", (p["eta"],), 0, p["b"])),
    "NormalGenerator": ("NORMAL", "norm", "generate_norm", lambda T: dict(mean=real(T, "mean"), var=pos(T, "var")), lambda T, p: ("norm", (), p["mean"], T.sqrt(p["var"]))),
    "UniformGenerator": ("UNIFORM", "uniform", "generate_uniform", interval, lambda T, p: ("uniform", (), p["a"], p["b"] - p["a"])),
}


def check_law(T, label, ys, us, law):
    """every value is the law's quantile at the level of its own draw (or at the mirrored level)"""
    name, shapes, loc, scale = law
    for i, y in enumerate(ys):
        q = T.scalar(T.dist(name).ppf(us[i], *shapes, loc=loc, scale=scale))
        T.check_eq(f"{label} {i}", y, q)


def h_law(T, cls, n, how):
    dist, mod, fn, mk, law = LAWS[cls]
    p = mk(T)
    if how == "function":
        f = T.get("core.distributions." + mod, fn)
        gen = lambda m: f(m, **p)
    else:
        D = T.get("distribution.distribution_type", "DistributionType")
        g = T.get(GEN, cls)(**p) if how == "class" else T.get("utils.generator", "get_available_generator")(getattr(D, dist), dict(p))
        T.check("a generator of the requested type", T.truth(type(g).__name__ == cls and type(g).distribution_type() is getattr(D, dist)))
        ps = g.parameters()
        T.check("parameter names", T.truth(set(ps) == set(p)))
        for k in p:
            T.check_eq("parameter " + k, ps[k], p[k])
        gen = g.generate
    d = Draws(T)
    ys = list(T.values(gen(n)))
    T.check("requested size", T.truth(len(ys) == n))
    T.check("one draw per value", T.truth(len(d.u) == n))
    check_law(T, "law", ys, d.u, law(T, p))
    ys = list(T.values(gen(n + 1)))
    T.check("a second sample is fresh", T.truth(len(ys) == n + 1 and len(d.u) == 2 * n + 1))
    check_law(T, "law of the second sample", ys, d.u[n:], law(T, p))
    T.check("no fixed seed", T.truth(not d.other))


def jobs(tier, seed):
    out = []
    for cls in LAWS:
        for how in ("class", "lookup", "function"):
            for n in (1, 2) if tier == "quick" else (1, 2, 3, 5):
                out.append(Job("C30", f"{cls}:{how}:n={n}", h_law, dict(cls=cls, n=n, how=how), seed=seed, budget_s=60))
    return out
