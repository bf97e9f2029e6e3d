"""C22 beta goodness-of-fit statistics against their published definitions."""
from math import isqrt

from .gof import *

M = G + "beta"
ENCODED = ["execute_statistic of every beta goodness-of-fit statistic and the sample validation"]
BOUNDS = ("sizes 2-3 in every order and 4-5 in sampled orders (6-7 thorough) with observations in the open unit interval and both shapes symbolic; sizes 9, 16 with one "
          "observation symbolic; chi-squared up to 4 cells with fixed shapes and powers 0, 1, 2; entropy windows 1-3; mode: two of the 200 density values symbolic")
OUTSIDE = "nan observations, sizes beyond the bounds, statistics at exactly 0 or 1 where a logarithm is taken; the kernel density estimate itself (replaced by arbitrary densities)"


def ab(T):
    a = T.var("alpha", lo=0, lo_open=True, hi=20, suggest=Fraction(5, 2))
    b = T.var("beta", lo=0, lo_open=True, hi=20, suggest=Fraction(7, 4))
    return dict(alpha=a, beta=b), dict(alpha=a, beta=b)


def fixed(T):
    return dict(alpha=2.5, beta=1.75), dict(alpha=T.frac(5, 2), beta=T.frac(7, 4))


def default(T):
    return {}, dict(alpha=T.const(1), beta=T.const(1))


def F(T, x, p):
    g = T.dist("beta")
    return [g.cdf(v, p["alpha"], p["beta"]) for v in x]


def edf(f):
    return lambda T, x, p, raw: f(T, F(T, x, p))


def ad_(T, x, p, raw):
    g = T.dist("beta")
    return ad(T, [g.logcdf(v, p["alpha"], p["beta"]) for v in x], [g.logsf(v, p["alpha"], p["beta"]) for v in x])


def chi2(T, x, p, raw):
    n = len(x)
    m = isqrt(n - 1) + 1
    g = T.dist("beta")
    e = [g.cdf(T.frac(k, m), p["alpha"], p["beta"]) for k in range(1, m)]
    e = [T.const(0)] + e + [T.const(1)]
    return binned(T, x, [T.frac(k, m) for k in range(1, m)], [n * (b - a) for a, b in zip(e, e[1:])], p.get("lambda_", 1))


def moments(T, x, p, raw):
    n = len(x)
    a, b = p["alpha"], p["beta"]
    mu = a / (a + b)
    v = a * b / ((a + b) ** 2 * (a + b + 1))
    s2 = ssd(T, x) / (n - 1)
    return n * (mean(T, x) - mu) ** 2 / v + n * (s2 - v) ** 2 / v


def skku(T, x, p, raw):
    n = len(x)
    a, b = p["alpha"], p["beta"]
    m = mean(T, x)
    m2, m3, m4 = (T.sum([(v - m) ** k for v in x]) / n for k in (2, 3, 4))
    g1 = T.sqrt(T.const(n * (n - 1))) / (n - 2) * m3 / T.sqrt(m2) ** 3
    g2 = T.frac(n - 1, (n - 2) * (n - 3)) * ((n + 1) * (m4 / (m2 * m2) - 3) + 6)
    t1 = 2 * (b - a) * T.sqrt(a + b + 1) / ((a + b + 2) * T.sqrt(a * b))
    t2 = 6 * ((a - b) ** 2 * (a + b + 1) - a * b * (a + b + 2)) / (a * b * (a + b + 2) * (a + b + 3))
    return T.frac(n, 6) * (g1 - t1) ** 2 + T.frac(n, 24) * (g2 - t2) ** 2


def ratio(T, x, p, raw):
    n = len(x)
    a, b = p["alpha"], p["beta"]
    psi = T.special("psi")
    s = T.exp(T.sum([T.log(v) for v in x]) / n) / mean(T, x)
    t = T.exp(psi(a) - psi(a + b)) * (a + b) / a
    return T.sqrt(T.const(n)) * T.abs(s - t)


def entropy(T, x, p, raw):
    n = len(x)
    a, b = p["alpha"], p["beta"]
    m = p.get("m", n // 4)
    h = T.const(0)
    for i in range(n):
        d = x[min(n - 1, i + m)] - x[max(0, i - m)]
        if m:
            h = h + T.log(T.frac(n, 2 * m) * d)
    psi, bl = T.special("psi"), T.special("betaln")
    t = bl(a, b) - (a - 1) * psi(a) - (b - 1) * psi(b) + (a + b - 2) * psi(a + b)
    return T.sqrt(T.const(n)) * T.abs(h / n - t)


def nonconst(T, xs, p):
    T.assume(T.not_(T.and_(*[T.eq(xs[0], y) for y in xs[1:]])))


def distinct(T, xs, p):
    for i, x in enumerate(xs):
        for y in xs[:i]:
            T.assume(T.not_(T.eq(x, y)))


def S(cls, ref, params=ab, **k):
    k.setdefault("dom", "unit")
    return dict(mod=M, cls=cls + "BetaGofStatistic", ref=ref, params=params, **k)


def two(cls, ref, **k):
    return [S(cls, ref, id=cls, wide=(), **k), S(cls, ref, params=fixed, id=cls + ":fixed", free=(), ordered=(), list=False, **k),
            S(cls, ref, params=default, id=cls + ":default", free=(), ordered=(4,), list=False, wide=(9,), **k)]


SPECS = []
for side in ("two", "plus", "minus"):
    r = (lambda s: lambda T, x, p, raw: ks(T, F(T, x, p), s))(side)
    SPECS += [S("KolmogorovSmirnov", r, params=side_params(ab, side), id="KS:" + side, wide=()),
              S("KolmogorovSmirnov", r, params=side_params(fixed, side), id="KS:fixed:" + side, free=(), ordered=(), list=False)]
SPECS += [S("KolmogorovSmirnov", edf(lambda T, f: ks(T, f, "two")), params=default, id="KS:default", free=(), wide=(9,))]
SPECS += two("LillieforsTest", edf(lambda T, f: ks(T, f, "two")))
SPECS += two("AndersonDarling", ad_) + two("CrammerVonMises", edf(cvm)) + two("Watson", edf(watson)) + two("Kuiper", edf(kuiper))
SPECS += [S("Chi2Pearson", chi2, params=fixed, id="Chi2", free=(2, 3), wide=(9, 16)), S("Chi2Pearson", chi2, params=ab, id="Chi2:symbolic", free=(2,), ordered=(3,), list=False, wide=()),
          S("Chi2Pearson", chi2, params=default, id="Chi2:default", free=(3,), ordered=(5,), list=False, wide=(9, 16)),
          S("Chi2Pearson", chi2, params=with_kw(default, lambda_=2), id="Chi2:lambda=2", free=(3,), ordered=(), list=False, wide=(9,)),
          S("Chi2Pearson", chi2, params=with_kw(default, lambda_=0), id="Chi2:lambda=0", free=(3,), ordered=(), list=False, wide=())]
SPECS += [S("MomentBased", moments, id="MomentBased", wide=(), dom=(0, 1, "closed")), S("MomentBased", moments, params=default, id="MomentBased:default", free=(), ordered=(4,), list=False),
          S("SkewnessKurtosis", skku, id="SkewnessKurtosis", free=(), ordered=(4,), wide=(), pre=nonconst, obl_timeout=15000),
          S("SkewnessKurtosis", skku, params=fixed, id="SkewnessKurtosis:fixed", free=(), ordered=(4,), list=False, wide=(9,), pre=nonconst),
          S("Ratio", ratio, id="Ratio", wide=()), S("Ratio", ratio, params=fixed, id="Ratio:fixed", free=(), ordered=(4,), list=False, wide=(9, 16)),
          S("Entropy", entropy, id="Entropy", free=(3,), ordered=(4, 5), wide=(), pre=distinct), S("Entropy", entropy, params=fixed, id="Entropy:fixed", free=(), ordered=(), list=False, wide=(9, 16), pre=distinct)]
for m in (1, 2, 3):
    SPECS += [S("Entropy", entropy, params=fixed, kw=(lambda m: lambda T: (dict(m=m), dict(m=m)))(m), id=f"Entropy:m={m}", free=(3,) if m == 1 else (), ordered=(4, 5), list=False, wide=(9,), pre=distinct)]


def h_range(T, cls, n):
    """Values outside [0,1] are refused, values strictly inside accepted."""
    st = T.get(M, cls + "BetaGofStatistic")()
    xs = [T.var(f"x{i}", lo=-3, hi=4, suggest=(lambda r: Fraction(r.randrange(-32, 96), 64))) for i in range(n)]
    T.assume(T.and_(*[T.and_(T.not_(T.eq(v, 0)), T.not_(T.eq(v, 1))) for v in xs]))
    nonconst(T, xs, None)
    out = T.or_(*[T.or_(T.lt(v, 0), T.gt(v, 1)) for v in xs])
    res = T.raises(lambda: st.execute_statistic(T.array(xs)), ValueError)
    T.check("refused iff outside", T.iff(out, T.truth(res)))


def h_shape(T, cls):
    """Non-positive shapes are refused (shapes <= 1 for the mode statistic), others accepted and reported."""
    a = T.var("alpha", lo=-5, hi=5, suggest=(lambda r: Fraction(r.randrange(-16, 64), 16)))
    b = T.var("beta", lo=-5, hi=5, suggest=(lambda r: Fraction(r.randrange(-16, 64), 16)))
    lim = 1 if cls == "Mode" else 0
    kind, st = T.run(lambda: T.get(M, cls + "BetaGofStatistic")(alpha=a, beta=b))
    ok = T.and_(T.gt(a, lim), T.gt(b, lim))
    T.check("accepted iff valid", T.iff(ok, T.truth(kind == "ok")))
    if kind == "ok":
        q = st.hypothesis().parameters()
        T.check("two parameters", len(q) == 2)
        T.check_eq("alpha", q[0], a)
        T.check_eq("beta", q[1], b)
    else:
        T.check("ValueError", isinstance(st, ValueError))


def h_mode(T, i, j, params):
    """sqrt(n) |mode of the estimated density over the 200-point grid - (alpha-1)/(alpha+beta-2)|."""
    seen = {}
    hi, lo = T.var("d1", lo=2, hi=9, suggest=Fraction(3)), T.var("d2", lo=2, hi=9, suggest=Fraction(5))

    class Kde:
        def __init__(self, data, *a, **k):
            seen["data"] = list(data)

        def __call__(self, grid):
            seen["grid"] = list(grid)
            d = [T.const(1)] * len(seen["grid"])
            d[i], d[j] = hi, lo
            return T.array(d)
    T.hook("scipy.stats.gaussian_kde", Kde)
    xs = sample(T, 3, "unit", (1, 0, 2))
    if params:
        a = T.var("alpha", lo=1, lo_open=True, hi=9, suggest=Fraction(5, 2))
        b = T.var("beta", lo=1, lo_open=True, hi=9, suggest=Fraction(7, 4))
        st = T.get(M, "ModeBetaGofStatistic")(alpha=a, beta=b)
    else:
        a, b = T.const(2), T.const(2)
        st = T.get(M, "ModeBetaGofStatistic")()
    got = st.execute_statistic(T.array(xs))
    g = lambda k: T.frac(1, 100) + T.frac(98, 100) * T.frac(k, 199)
    mode = T.ite(T.ge(hi, lo), g(i), g(j))
    T.check_eq("statistic", got, T.sqrt(T.const(3)) * T.abs(mode - (a - 1) / (a + b - 2)))
    T.check_all_eq("data", T.sorted(seen["data"]), T.sorted(xs))
    T.check("grid", len(seen["grid"]) == 200)
    for k in (0, 1, 100, 199):
        T.check_eq(f"grid[{k}]", seen["grid"][k], g(k))


CLS = ("KolmogorovSmirnov", "AndersonDarling", "CrammerVonMises", "LillieforsTest", "Chi2Pearson", "Watson", "Kuiper", "MomentBased", "Ratio", "Entropy")


def jobs(tier, seed):
    out = table_jobs("C22", SPECS, tier, seed)
    for c in CLS:
        out.append(Job("C22", f"range:{c}", h_range, dict(cls=c, n=2), max_paths=2000, seed=seed))
    for c in CLS + ("SkewnessKurtosis", "Mode"):
        out.append(Job("C22", f"shape:{c}", h_shape, dict(cls=c), seed=seed))
    for i, j in ((0, 199), (57, 120)):
        out.append(Job("C22", f"Mode:{i},{j}", h_mode, dict(i=i, j=j, params=True), seed=seed))
    out.append(Job("C22", "Mode:default", h_mode, dict(i=5, j=6, params=False), seed=seed))
    return out
