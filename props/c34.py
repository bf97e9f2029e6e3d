"""C34 distribution descriptors: documented parameter ranges, names and defaults."""
from .c30 import pos, real
from .common import *

ENCODED = ["every DistributionDescriptor.parameters()", "PositiveNumberValidator/NonNegativeNumberValidator/ProbabilityValidator", "get_available_distribution_descriptor",
           "get_available_generator", "constructors of the generators"]
BOUNDS = "every real value of every parameter of every one of the supported distributions, without a size bound"
OUTSIDE = "not-a-number and values that are not numbers; relations between parameters (a < b)"
ASSUMPTIONS = []

P, N, U, R = "positive", "non-negative", "probability", "real"
# distribution: {parameter: (documented range, default)}
DOC = {
    "NORMAL": {"mean": (R, 0), "var": (P, 1)}, "EXPONENTIAL": {"lam": (P, 1)}, "WEIBULL": {"a": (P, 1), "k": (P, 5)}, "UNIFORM": {"a": (R, 0), "b": (R, 1)},
    "STUDENT": {"df": (P, 2)}, "GAMMA": {"alfa": (P, 1), "beta": (P, 1)}, "BETA": {"a": (P, 1), "b": (P, 1)}, "LOG_NORMAL": {"mu": (R, 0), "s": (P, 1)},
    "CAUCHY": {"t": (R, Fraction(1, 2)), "s": (P, Fraction(1, 2))}, "CHI_2": {"df": (P, 2)}, "GOMPERTZ": {"eta": (P, 1), "b": (P, 1)}, "GUMBEL": {"mu": (R, 0), "beta": (P, 1)},
    "INV_GAUSS": {"mu": (P, 1), "lam": (P, 1)}, "LAPLACE": {"t": (R, 0), "s": (P, 1)}, "LO_CON_NORMAL": {"p": (U, Fraction(1, 2)), "a": (R, 0)},
    "MIX_CON_NORMAL": {"p": (U, Fraction(1, 2)), "a": (R, 0), "b": (P, 1)}, "SCALE_CON_NORMAL": {"p": (U, Fraction(1, 2)), "b": (P, 1)},
    "TRUNC_NORMAL": {"mean": (R, 0), "var": (P, 1), "a": (R, -10), "b": (R, 10)}, "LOGISTIC": {"t": (R, 0), "s": (P, 1)}, "RICE": {"nu": (N, 0), "sigma": (N, 1)},
    "TUKEY": {"lam": (R, 2)},
}


def inside(T, kind, v):
    return {P: lambda: T.lt(0, v), N: lambda: T.le(0, v), U: lambda: T.and_(T.le(0, v), T.le(v, 1)), R: lambda: T.truth(True)}[kind]()


def descriptor(T, dist):
    D = T.get("distribution.distribution_type", "DistributionType")
    d = T.get("utils.distribution", "get_available_distribution_descriptor")(getattr(D, dist))
    T.check("the descriptor of the requested distribution", T.truth(d.type() is getattr(D, dist)))
    return d, getattr(D, dist)


def ask(T, p, v):
    return True if p.validator is None else p.validator(v)


def h_range(T, dist):
    d, _ = descriptor(T, dist)
    ps = d.parameters()
    T.check("the documented parameters", T.truth([p.name for p in ps] == list(DOC[dist])))
    for p in ps:
        kind, default = DOC[dist][p.name]
        for i, s in enumerate((Fraction(3, 2),)):
            v = T.var(f"{p.name}{i}", suggest=s)
            ok = ask(T, p, v)
            T.check(f"{p.name} accepted exactly in its range", T.iff(T.truth(T.branch(T.truth(ok)) if not isinstance(ok, bool) else ok), inside(T, kind, v)))
        T.check_eq(f"{p.name} default", p.default, T.const(default))
        T.check(f"{p.name} default accepted", T.truth(bool(ask(T, p, p.default))))


def h_edges(T, dist):
    """the ends of the ranges themselves"""
    d, _ = descriptor(T, dist)
    for p in d.parameters():
        kind, _ = DOC[dist][p.name]
        for v in (0, 1):
            got = bool(ask(T, p, v if T.real else T.const(v)))
            want = {P: v > 0, N: True, U: True, R: True}[kind]
            T.check(f"{p.name} at {v}", T.truth(got == want))


def h_generator(T, dist):
    """the described names are the generator's: building it with accepted values reports exactly those values"""
    d, D = descriptor(T, dist)
    vals = {}
    for p in d.parameters():
        kind, _ = DOC[dist][p.name]
        v = real(T, p.name) if kind == R else T.var(p.name, lo=0, lo_open=True, hi=1 if kind == U else None, suggest=Fraction(3, 4))
        T.check("accepted", T.truth(bool(ask(T, p, v))))
        vals[p.name] = v
    if dist in ("UNIFORM", "TRUNC_NORMAL"):
        T.assume(T.lt(vals["a"], vals["b"]))
    g = T.get("utils.generator", "get_available_generator")(D, dict(vals))
    T.check("a generator of the distribution", T.truth(type(g).distribution_type() is D))
    ps = g.parameters()
    T.check("the generator takes the described parameters", T.truth(set(ps) == set(vals)))
    for k in vals:
        T.check_eq("value of " + k, ps[k], vals[k])


def h_defaults(T, dist):
    d, D = descriptor(T, dist)
    g = T.get("utils.generator", "get_available_generator")(D, {p.name: p.default for p in d.parameters()})
    for k, v in g.parameters().items():
        T.check_eq("default of " + k, v, T.const(DOC[dist][k][1]))


def h_independent(T):
    """descriptors share no state"""
    d, _ = descriptor(T, "NORMAL")
    a = d.parameters()
    a.pop()
    b = descriptor(T, "NORMAL")[0].parameters()
    T.check("each request lists all parameters", T.truth(len(b) == 2))


def jobs(tier, seed):
    out = [Job("C34", "independent", h_independent, {}, seed=seed)]
    for dist in DOC:
        out.append(Job("C34", f"range:{dist}", h_range, dict(dist=dist), seed=seed))
        out.append(Job("C34", f"edges:{dist}", h_edges, dict(dist=dist), seed=seed))
        out.append(Job("C34", f"generator:{dist}", h_generator, dict(dist=dist), seed=seed))
        out.append(Job("C34", f"defaults:{dist}", h_defaults, dict(dist=dist), seed=seed))
    return out
