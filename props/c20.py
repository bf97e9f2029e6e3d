"""C20 gamma goodness-of-fit statistics against their published definitions."""
from .gof import *

M = G + "gamma"
ENCODED = ["execute_statistic of every gamma goodness-of-fit statistic (graph statistics: C16)", "MinToshiyukiStatistic, Chi2Statistic"]
BOUNDS = ("size 2-3 in every order, 4-5 in sampled orders (6-7 thorough), with observations, shape and rate symbolic; sizes up to 16 with one observation "
          "symbolic; binned statistics: 2-4 cells, sizes up to 9 (one observation symbolic)")
OUTSIDE = "nan and infinite observations, sizes and cell counts beyond the bounds, samples on which the statistic raises (zero spacing, zero variance)"


def ab(T):
    a = T.var("alpha", lo=0, lo_open=True, hi=20, suggest=Fraction(5, 2))
    b = T.var("beta", lo=0, lo_open=True, hi=20, suggest=Fraction(3, 4))
    return dict(alpha=a, beta=b), dict(alpha=a, beta=b)


def fixed(T):
    return dict(alpha=2.5, beta=0.75), dict(alpha=T.frac(5, 2), beta=T.frac(3, 4))


def default(T):
    return {}, dict(alpha=T.const(1), beta=T.const(1))


def F(T, x, p):
    g = T.dist("gamma")
    return [g.cdf(v * p["beta"], p["alpha"]) for v in x]


def edf(f):
    return lambda T, x, p, raw: f(T, F(T, x, p))


def ad_(T, x, p, raw):
    g = T.dist("gamma")
    return ad(T, [g.logcdf(v * p["beta"], p["alpha"]) for v in x], [g.logsf(v * p["beta"], p["alpha"]) for v in x])


def lill(T, x, p, raw):
    m = mean(T, x)
    v = ssd(T, x) / (len(x) - 1)
    g = T.dist("gamma")
    return ks(T, [g.cdf(t * m / v, m * m / v) for t in x], "two")


def distinct(T, xs, p):
    for i, x in enumerate(xs):
        for y in xs[:i]:
            T.assume(T.not_(T.eq(x, y)))


def nonconst(T, xs, p):
    T.assume(T.not_(T.and_(*[T.eq(xs[0], y) for y in xs[1:]])))


def spread(T, xs, p):
    e = scores(T, len(xs), p)
    T.assume(T.gt(T.sqrt(ssd(T, T.sorted(xs)) * ssd(T, e)), 0))


def scores(T, n, p):
    g = T.dist("gamma")
    return [g.ppf(T.frac(8 * i - 3, 8 * n + 2), p["alpha"]) / p["beta"] for i in range(1, n + 1)]


def cells(lam):
    def ref(T, x, p, raw):
        m = p["bins"]
        g = T.dist("gamma")
        e = [g.ppf(T.frac(k, m), p["alpha"]) / p["beta"] for k in range(1, m)]
        return binned(T, x, e, [T.frac(len(x), m)] * m, p.get("power", lam))
    return ref


def place(params):
    """Fork on the cell of every observation before the call."""
    def f(T, xs, p):
        g = T.dist("gamma")
        for k in range(1, p["bins"]):
            e = g.ppf(T.frac(k, p["bins"]), p["alpha"]) / p["beta"]
            for v in xs:
                T.branch(T.lt(v, e))
    return f


def ppcc(T, x, p, raw):
    e = scores(T, len(x), p)
    ma, mb = mean(T, x), mean(T, e)
    return 1 - T.sum([(u - ma) * (v - mb) for u, v in zip(x, e)]) / T.sqrt(ssd(T, x) * ssd(T, e))


def S(cls, ref, params=ab, **k):
    return dict(mod=M, cls=cls + "GammaGofStatistic", ref=ref, dom="pos", params=params, **k)


def two(cls, ref, **k):
    return [S(cls, ref, id=cls, wide=(), **k), S(cls, ref, params=fixed, id=cls + ":fixed", free=(), ordered=(), list=False, **k),
            S(cls, ref, params=default, id=cls + ":default", free=(), ordered=(4,), list=False, wide=(), **k)]


SPECS = []
for side in ("two", "plus", "minus"):
    r = (lambda s: lambda T, x, p, raw: ks(T, F(T, x, p), s))(side)
    SPECS += [S("KolmogorovSmirnov", r, params=side_params(ab, side), id="KS:" + side, wide=()),
              S("KolmogorovSmirnov", r, params=side_params(fixed, side), id="KS:fixed:" + side, free=(), ordered=(), list=False)]
SPECS += [S("KolmogorovSmirnov", edf(lambda T, f: ks(T, f, "two")), params=default, id="KS:default", wide=())]
SPECS += two("AndersonDarling", ad_) + two("CramerVonMises", edf(cvm)) + two("Watson", edf(watson)) + two("Kuiper", edf(kuiper))
SPECS += two("Greenwood", edf(greenwood)) + two("Moran", edf(moran), pre=distinct) + two("MinToshiyuki", edf(toshiyuki))
SPECS += [S("Lilliefors", lill, params=default, id="Lilliefors", pre=nonconst, wide=())]
for m in (2, 3, 4):
    for c, lam in (("Chi2Pearson", 1), ("LikelihoodRatio", 0)):
        SPECS += [S(c, cells(lam), params=with_kw(fixed, bins=m), id=f"{c}:bins={m}", free=(2, 3), ordered=(), list=m == 2, wide=(9,), wide_k=lambda n: (0, 4), pre=place(m))]
SPECS += [S("CressieRead", cells(Fraction(2, 3)), params=with_kw(fixed, bins=2), id="CressieRead:bins=2", free=(2,), ordered=(), wide=(9,)),
          S("CressieRead", cells(2), params=with_kw(fixed, bins=3, power=2), id="CressieRead:power=2", free=(2, 3), ordered=(), wide=(9,)),
          S("Chi2Pearson", cells(1), params=with_kw(ab, bins=2), id="Chi2Pearson:symbolic", free=(2,), ordered=(), list=False, wide=()),
          S("Chi2Pearson", lambda T, x, p, raw: cells(1)(T, x, dict(p, bins=8), raw), params=default, id="Chi2Pearson:default", free=(), ordered=(), list=False, wide=(9,))]
SPECS += [S("ProbabilityPlotCorrelation", ppcc, params=fixed, id="PPCC", free=(3,), pre=spread), S("ProbabilityPlotCorrelation", ppcc, params=default, id="PPCC:default", pre=spread, free=(), ordered=(4,), list=False)]


def jobs(tier, seed):
    return table_jobs("C20", SPECS, tier, seed)
