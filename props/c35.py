"""C35 maximum-likelihood scores: the likelihood of the sample at the best parameters of each family."""
from .common import *

ENCODED = ["function_for_maximum_likelihood.likelihood_function_* (all 20)"]
BOUNDS = ("samples of 1-4 values (5 thorough), all values symbolic; discrete families: samples of 1-3 values symbolic on {0,1} or on integer patterns; "
          "every result of the library's fits, root finder and minimiser")
OUTSIDE = "overflow and underflow; the accuracy of the library's own optimisers"
ASSUMPTIONS = ["gamma/beta/cauchy/chi2/t/f/rayleigh .fit return arbitrary admissible parameters, root_scalar and minimize_scalar arbitrary points; what they are given is checked"]
MOD = "estimation.maximum_likelihood.function_for_maximum_likelihood"


def F(T, name):
    return T.get(MOD, "likelihood_function_" + name)


def med(r):
    return Fraction(r.randrange(8, 48), 8)


def data(T, n, positive=False, unit=False, lo=None):
    xs = []
    for i in range(n):
        if unit:
            s = (lambda r, i=i: Fraction(2 * i + 1 + r.randrange(0, 2), 2 * n + 2))
            xs.append(T.var(f"x{i}", lo=0, hi=1, lo_open=True, hi_open=True, suggest=s))
        else:
            s = (lambda r, i=i: Fraction(8 * (i + 1) + r.randrange(0, 7), 8) - (0 if positive or lo is not None else 2))
            xs.append(T.var(f"x{i}", lo=0 if positive else lo, lo_open=positive, suggest=s))
    return xs


def differ(T, xs):
    if len(xs) > 1:
        T.assume(T.not_(T.and_(*[T.eq(xs[0], x) for x in xs[1:]])))


def mean(T, xs):
    return T.sum(xs) / len(xs)


# ---- closed forms: log-likelihood at the maximum-likelihood estimate
def l_uniform(T, x):
    return -len(x) * T.log(T.max(x) - T.min(x))


def l_normal(T, x):
    n, m = len(x), mean(T, x)
    v = T.sum([(u - m) ** 2 for u in x]) / n
    return -T.const(Fraction(n, 2)) * T.log(2 * T.pi * v) - T.const(Fraction(n, 2))


def l_lognormal(T, x):
    return l_normal(T, [T.log(u) for u in x]) - T.sum([T.log(u) for u in x])


def l_exponential(T, x):
    n = len(x)
    return n * T.log(n / T.sum(x)) - n


def l_pareto(T, x):
    n, m = len(x), T.min(x)
    al = n / T.sum([T.log(u) - T.log(m) for u in x])
    return n * T.log(al) + n * al * T.log(m) - (al + 1) * T.sum([T.log(u) for u in x])


def median(T, x):
    s = T.sorted(x)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def l_laplace(T, x):
    n, m = len(x), median(T, x)
    b = T.sum([T.abs(u - m) for u in x]) / n
    return -n * T.log(2 * b) - n


def l_discrete_uniform(T, x):
    return -len(x) * T.log(T.max(x) - T.min(x) + 1)


CLOSED = {"uniform_continuous": (l_uniform, {}, True), "normal": (l_normal, {}, True), "lognormal": (l_lognormal, dict(positive=True), True),
          "exponential": (l_exponential, dict(lo=0), True), "pareto": (l_pareto, dict(positive=True), True), "laplace": (l_laplace, {}, True),
          "discrete_uniform": (l_discrete_uniform, {}, False)}


def h_closed(T, fam, n):
    ref, dom, need = CLOSED[fam]
    xs = data(T, n, **dom)
    if need:
        differ(T, xs)
    r = F(T, fam)(T.array(xs))
    T.check_eq("likelihood", T.scalar(r), T.exp(ref(T, xs)))


def h_const(T, fam, n, want):
    """all observations equal"""
    x = T.var("x", lo=0, lo_open=True, suggest=med)
    if fam == "beta":
        T.assume(T.lt(x, 1))
    if fam == "zero":
        fam, x = "exponential", T.const(0) if not T.real else 0.0
    T.hook("scipy.optimize.root_scalar", lambda *a, **k: T.check("no root is searched", T.truth(False)))
    r = F(T, fam)(T.array([x] * n))
    if want == "inf":
        T.check("infinite likelihood", T.truth(r == float("inf")))
    else:
        T.check_eq("likelihood", r, T.const(want))


def h_support(T, fam, n, where):
    """an observation outside the support makes the likelihood zero"""
    xs = data(T, n, positive=True, unit=fam == "beta")
    i = T.choose("where", list(range(n)))
    if where == "negative":
        xs[i] = T.var("bad", hi=0, hi_open=True, suggest=Fraction(-1))
    elif where == "zero":
        xs[i] = T.const(0) if not T.real else 0.0
    else:
        xs[i] = T.var("bad", lo=1, suggest=Fraction(5, 4))
    T.check_eq("likelihood", F(T, fam)(T.array(xs)), T.const(0))


# ---- families fitted by the library
FIT = {"gamma": ("gamma", dict(positive=True), ("shape", 0, "scale"), {"floc": 0}),
       "beta": ("beta", dict(unit=True), ("shape", "shape2", 0, 1), {"floc": 0, "fscale": 1}),
       "cauchy": ("cauchy", {}, ("loc", "scale"), {}),
       "chi_squared": ("chi2", dict(positive=True), ("shape", 0, "scale"), {"floc": 0}),
       "t_distribution": ("t", {}, ("shape", "loc", "scale"), {}),
       "fisher": ("f", dict(positive=True), ("shape", "shape2", 0, "scale"), {"floc": 0}),
       "rayleigh": ("rayleigh", dict(lo=0), (0, "scale"), {"floc": 0})}


def h_fit(T, fam, n):
    lib, dom, out, want = FIT[fam]
    xs = data(T, n, **dom)
    differ(T, xs)
    if fam == "rayleigh":
        for x in xs:
            T.assume(T.lt(0, x))
    pars = []
    for o in out:
        if isinstance(o, str):
            pars.append(T.var(o, **(dict(suggest=Fraction(1, 4)) if o == "loc" else dict(lo=0, lo_open=True, suggest=lambda r: Fraction(r.randrange(6, 20), 8)))))
        else:
            pars.append(float(o) if T.real else T.const(o))
    calls = []

    def fit(d, *a, **k):
        calls.append((list(T.values(d)), a, k))
        return tuple(pars)
    T.hook(f"scipy.stats.{lib}.fit", fit)
    r = F(T, fam)(T.array(xs))
    T.check("one fit", T.truth(len(calls) == 1))
    d, a, k = calls[0]
    T.check("no starting values", T.truth(not a))
    T.check("what is held fixed", T.truth({q: float(v) for q, v in k.items() if q in ("floc", "fscale", "f0", "fa", "fdf")} == {q: float(v) for q, v in want.items()}))
    T.check("the whole sample is fitted", T.truth(len(d) == n))
    T.check_all_eq("the sample fitted", T.sorted(d), T.sorted(xs))
    dist = T.dist(lib)
    T.check_eq("likelihood at the fit", T.scalar(r), T.exp(T.sum([T.scalar(dist.logpdf(x, *pars)) for x in xs])))


def h_weibull(T, n):
    xs = data(T, n, positive=True)
    differ(T, xs)
    k = T.var("k", lo=Fraction(1, 10), hi=10, suggest=lambda r: Fraction(r.randrange(4, 24), 8))
    k2 = T.var("k2", lo=Fraction(1, 10), hi=10, suggest=lambda r: Fraction(r.randrange(4, 24), 8))
    st = {}

    class Res:
        root = x = k
        converged = success = True

    def root_scalar(f, args=(), method=None, bracket=None, **kw):
        st.update(f=f, bracket=bracket, a=args)
        return Res()
    T.hook("scipy.optimize.root_scalar", root_scalar)
    r = F(T, "weibull")(T.array(xs))
    lo, hi = (Fraction(1, 10), 10)

    def score(q):
        """derivative of the profile log-likelihood in the shape, divided by n"""
        w = [T.pow(x, q) for x in xs]
        return 1 / q + T.sum([T.log(x) for x in xs]) / n - T.sum([a * T.log(x) for a, x in zip(w, xs)]) / T.sum(w)
    if not st:
        T.check_eq("no root in the bracket: zero", r, T.const(0))
        T.check("zero only without a sign change of the score", T.lt(0, score(T.const(lo)) * score(T.const(hi))))
        return
    f = st["f"]
    T.check("bracket", T.truth([float(v) for v in st["bracket"]] == [0.1, 10.0]))
    fk, fk2 = T.scalar(f(k)), T.scalar(f(k2))
    T.check("the root searched is that of the likelihood equation", T.iff(T.lt(0, fk * fk2), T.lt(0, score(k) * score(k2))))
    lam_k = T.sum([T.pow(x, k) for x in xs]) / n
    # prod k x^(k-1) / lam^k exp(-(x/lam)^k), lam^k = mean x^k
    want = T.exp(n * T.log(k) - n * T.log(lam_k) + (k - 1) * T.sum([T.log(x) for x in xs]))
    for x in xs:
        want = want * T.exp(-(T.pow(x, k) / lam_k))
    T.check_eq("likelihood at the root", T.scalar(r), want)


def h_wigner(T, n, success):
    xs = data(T, n)
    differ(T, xs)
    R = T.var("R", lo=0, lo_open=True, suggest=lambda r: Fraction(r.randrange(60, 90), 8))
    m = T.max([T.abs(x) for x in xs])
    T.assume(T.lt(m, R))
    st = {}

    def minimize_scalar(fun, bracket=None, bounds=None, args=(), method=None, **kw):
        st.update(fun=fun, bounds=bounds)

        class Res:
            x = R
        Res.fun = fun(R)
        Res.success = success
        return Res
    T.hook("scipy.optimize.minimize_scalar", minimize_scalar)
    r = F(T, "wigner")(T.array(xs))
    T.check("a minimum is searched", T.truth(bool(st)))
    if not success:
        T.check_eq("likelihood", r, T.const(0))
        return
    ref = n * T.log(2 / (T.pi * R * R)) + T.sum([T.log(R * R - x * x) for x in xs]) / 2
    T.check_eq("likelihood at the minimum", T.scalar(r), T.exp(ref))
    lo, hi = [T.scalar(v) for v in st["bounds"]]
    T.check("radii below the largest observation have no likelihood", T.truth(st["fun"](m / 2) == float("inf")))
    T.check("the search covers the largest possible best radius", T.and_(T.le(2 * m * m, hi * hi * T.const(1 + Fraction(1, 10 ** 9))), T.lt(0, hi)))
    T.check("the search starts at the largest observation", T.le(lo, m + T.const(Fraction(1, 10 ** 5))))


# ---- discrete families
def ints(T, n, name, top):
    xs = []
    for i in range(n):
        xs.append(T.choose(f"{name}{i}", list(range(top + 1))))
    return xs


def intarray(T, xs):
    """whole numbers, held as integers or as floats"""
    import numpy as np
    held = T.choose("held as", ["int", "float"])
    return np.array(xs, dtype=int if held == "int" else float) if T.real else T.array(xs)


def h_bernoulli(T, n):
    xs = ints(T, n, "x", 1)
    k = sum(xs)
    T.check_eq("likelihood", T.scalar(F(T, "bernoulli")(intarray(T, xs))), T.exp(xlogx(T, k, n) + xlogx(T, n - k, n)))


def xlogx(T, k, n):
    """k log(k/n), 0 for k = 0"""
    return k * T.log(T.frac(k, n)) if k else T.const(0)


def h_binomial(T, n, trials):
    from math import comb
    xs = ints(T, n, "x", trials)
    k, m = sum(xs), n * trials
    r = F(T, "binomial")(intarray(T, xs), trials)
    T.check_eq("likelihood", T.scalar(r), T.exp(xlogx(T, k, m) + xlogx(T, m - k, m) + T.sum([T.log(T.const(comb(trials, x))) for x in xs])))


def h_poisson(T, n):
    from math import factorial
    xs = ints(T, n, "x", 4)
    r = F(T, "poisson")(intarray(T, xs))
    k = sum(xs)
    T.check_eq("likelihood", T.scalar(r), T.exp(xlogx(T, k, n) - k - T.sum([T.log(T.const(factorial(x))) for x in xs])))


def h_geometric(T, n):
    xs = [x + 1 for x in ints(T, n, "x", 4)]
    r = F(T, "geometric")(intarray(T, xs))
    s = sum(xs)
    # p = n/s: (n/s)^n (1-n/s)^(s-n)
    T.check_eq("likelihood", T.scalar(r), T.exp(xlogx(T, n, s) + xlogx(T, s - n, s)))


def h_discrete_support(T, fam, n, where):
    xs = [1] * n
    i = T.choose("where", list(range(n)))
    if fam == "bernoulli":
        xs[i] = T.var("bad", suggest=Fraction(1, 2))
        T.assume(T.not_(T.or_(T.eq(xs[i], 0), T.eq(xs[i], 1))))
    elif where == "fraction":
        k = T.choose("int", [0, 1, 2])
        f = T.var("frac", lo=0, hi=1, lo_open=True, hi_open=True, suggest=Fraction(1, 2))
        xs[i] = k + f
    elif where == "below":
        xs[i] = T.var("bad", hi=1 if fam == "geometric" else 0, hi_open=True, suggest=Fraction(-1))
    else:
        xs[i] = T.var("bad", lo=3, lo_open=True, suggest=Fraction(4))
    r = F(T, fam)(T.array(xs), 3) if fam == "binomial" else F(T, fam)(T.array(xs))
    T.check_eq("likelihood", r, T.const(0))


def jobs(tier, seed):
    th = tier == "thorough"
    out = []
    for fam in CLOSED:
        for n in (2, 3, 4, 5) if th else (2, 3, 4):
            out.append(Job("C35", f"{fam}:n={n}", h_closed, dict(fam=fam, n=n), seed=seed, budget_s=120))
    for fam, want in [("uniform_continuous", 0), ("normal", 0), ("lognormal", 0), ("zero", 0), ("pareto", "inf"), ("laplace", "inf"), ("gamma", 0), ("beta", 0),
                      ("cauchy", 0), ("t_distribution", 0), ("fisher", 0), ("wigner", 0), ("discrete_uniform", 1)]:
        for n in (1, 3):
            out.append(Job("C35", f"constant:{fam}:n={n}", h_const, dict(fam=fam, n=n, want=want), seed=seed))
    for fam, wheres in [("lognormal", ("negative", "zero")), ("exponential", ("negative",)), ("weibull", ("negative", "zero")), ("gamma", ("negative", "zero")),
                        ("beta", ("negative", "zero", "above")), ("chi_squared", ("negative", "zero")), ("fisher", ("negative", "zero")), ("rayleigh", ("negative", "zero")),
                        ("pareto", ("negative", "zero"))]:
        for w in wheres:
            out.append(Job("C35", f"support:{fam}:{w}", h_support, dict(fam=fam, n=3, where=w), seed=seed))
    for fam in FIT:
        for n in (1, 2, 3, 4) if th else (1, 2, 3):
            if n > 1 or fam in ("chi_squared", "rayleigh"):
                out.append(Job("C35", f"{fam}:n={n}", h_fit, dict(fam=fam, n=n), seed=seed))
    for n in (2, 3, 4) if th else (2, 3):
        out.append(Job("C35", f"weibull:n={n}", h_weibull, dict(n=n), seed=seed))
        out.append(Job("C35", f"wigner:n={n}", h_wigner, dict(n=n, success=True), seed=seed))
        out.append(Job("C35", f"wigner failure:n={n}", h_wigner, dict(n=n, success=False), seed=seed))
    for n in (1, 2, 3) if not th else (1, 2, 3, 4):
        out.append(Job("C35", f"bernoulli:n={n}", h_bernoulli, dict(n=n), seed=seed))
    for n in (1, 2) if not th else (1, 2, 3):
        for tr in (1, 2, 3):
            out.append(Job("C35", f"binomial:n={n}:trials={tr}", h_binomial, dict(n=n, trials=tr), seed=seed))
        out.append(Job("C35", f"poisson:n={n}", h_poisson, dict(n=n), seed=seed))
        out.append(Job("C35", f"geometric:n={n}", h_geometric, dict(n=n), seed=seed))
    for fam in ("binomial", "poisson", "geometric"):
        for w in ("fraction", "below") + (("above",) if fam == "binomial" else ()):
            out.append(Job("C35", f"support:{fam}:{w}", h_discrete_support, dict(fam=fam, n=2, where=w), seed=seed))
    out.append(Job("C35", "support:bernoulli", h_discrete_support, dict(fam="bernoulli", n=2, where="any"), seed=seed))
    return out
