"""C21 Weibull goodness-of-fit statistics against their published definitions."""
import math

from .gof import *

M = G + "weibull"
ENCODED = ["execute_statistic of every Weibull goodness-of-fit statistic", "generate_weibull_cdf", "WPPWeibullGofStatistic.MLEst (optimiser replaced)"]
BOUNDS = ("sizes 2-3 in every order and 4-5 in sampled orders (6-7 thorough) with all observations symbolic, Weibull parameters (1,1), (2,3/2), (2,1/2), (1,3/4) and "
          "symbolic at small sizes; sizes 9, 16 with one observation symbolic; Kullback-Leibler windows 1-3; Laplace transforms with 2-6 nodes and exponent -5 or -2")
OUTSIDE = ("nan and infinite observations, sizes beyond the bounds, samples on which the statistic is undefined (ties where a logarithm of a spacing is taken); "
           "the maximum-likelihood optimiser and gumbel_l.fit are replaced by arbitrary results")


def sym(T):
    a = T.var("a", lo=0, lo_open=True, hi=9, suggest=Fraction(3, 2))
    k = T.var("k", lo=0, lo_open=True, hi=9, suggest=Fraction(5, 4))
    return dict(a=a, k=k), dict(a=a, k=k)


def par(a, k):
    def f(T):
        return dict(a=a, k=k), dict(a=T.const(Fraction(a)), k=T.const(Fraction(k)))
    return f


def dflt(k=1):
    def f(T):
        return {}, dict(a=T.const(1), k=T.const(k))
    return f


def F(T, x, p):
    w = T.dist("exponweib")
    return [w.cdf(v, p["a"], p["k"]) for v in x]


def edf(f):
    return lambda T, x, p, raw: f(T, F(T, x, p))


def ad_(T, x, p, raw):
    g = T.dist("gumbel_l")
    w = [(T.log(v) - p["loc"]) / p["scale"] for v in x]
    return ad(T, [g.logcdf(v) for v in w], [g.logsf(v) for v in w])


def ad_params(T):
    loc = T.var("loc", suggest=Fraction(1, 8))
    sc = T.var("sc", lo=0, lo_open=True, suggest=Fraction(3, 4))
    st = {}

    def fit(data, *a, **k):
        st["data"] = list(data)
        return loc, sc
    T.hook("scipy.stats.gumbel_l.fit", fit)
    return {}, dict(loc=loc, scale=sc, st=st)


def chi2(T, x, p, raw):
    n = len(x)
    b = math.isqrt(n - 1) + 1 if n > 1 else 1
    lo, hi = x[0], x[-1]
    e = [lo + (hi - lo) * k / b for k in range(b + 1)]
    f = F(T, e, p)
    o = []
    for k in range(b):
        o.append(count(T, [T.and_(T.ge(v, e[k]), T.le(v, e[k + 1]) if k == b - 1 else T.lt(v, e[k + 1])) for v in x]) / n)
    return T.sum([(u - (f[k + 1] - f[k])) ** 2 / (f[k + 1] - f[k]) for k, u in enumerate(o)])


def wts(T, n):
    """Shapiro-Brain weights (Shapiro & Brain 1987)."""
    w = [T.log(T.frac(n + 1, n - i + 1)) for i in range(1, n)]
    wi = w + [n - T.sum(w)]
    v = [u * (1 + T.log(u)) - 1 for u in w]
    wn = v + [T.const(Fraction("0.4228")) * n - T.sum(v)]
    return wi, wn


def sb(T, x, p, raw):
    n = len(x)
    y = [T.log(v) for v in x]
    wi, wn = wts(T, n)
    b = (T.const(Fraction("0.6079")) * T.sum([u * v for u, v in zip(wn, y)]) - T.const(Fraction("0.257")) * T.sum([u * v for u, v in zip(wi, y)])) / n
    return n * b * b / ssd(T, y)


def ok(T, x, p, raw):
    n = len(x)
    y = [T.log(v) for v in x]
    wi, wn = wts(T, n)
    b = T.const(Fraction("0.6079")) * T.sum([u * v for u, v in zip(wn, y)]) - T.const(Fraction("0.257")) * T.sum([u * v for u, v in zip(wi, y)])
    sig = T.sum([(2 * i - 1 - n) * v for i, v in enumerate(y, 1)]) / (T.log(T.const(2)) * (n - 1))
    r = T.sqrt(T.const(n))
    c = lambda s: T.const(Fraction(s))
    return (b / sig - 1 - c("0.13") / r + c("1.18") / n) / (c("0.49") / r - c("0.36") / n)


def shape(T, x):
    y = [-T.log(v) for v in reversed(x)]
    n = len(y)
    m = mean(T, y)
    s = T.sum([(v - m) ** 2 for v in y]) / n
    b1 = T.sum([((v - m) / T.sqrt(s)) ** 3 for v in y]) / n
    b2 = T.sum([((v - m) / T.sqrt(s)) ** 4 for v in y]) / n
    return n, b1, b2


def st1(T, x, p, raw):
    n, b1, _ = shape(T, x)
    return ((b1 - T.const(Fraction("1.139547"))) / T.sqrt(T.frac(20, n))) ** 2


def st2(T, x, p, raw):
    n, b1, b2 = shape(T, x)
    return ((b2 - T.const(Fraction("7.55")) * b1 + T.const(Fraction("3.21"))) / T.sqrt(T.const(Fraction("219.72")) / n)) ** 2


def rsb(T, x, p, raw):
    n = len(x)
    y = [T.log(v) for v in x]
    m = [T.log(-T.log(1 - T.frac(i, n + 1))) for i in range(1, n + 1)]
    my, mm = mean(T, y), mean(T, m)
    r = T.sum([(u - my) * (v - mm) for u, v in zip(y, m)])
    return n * (1 - r * r / (ssd(T, y) * ssd(T, m)))


def scores(T, n):
    """David-Johnson approximation of the expected extreme-value order statistics."""
    out = []
    for i in range(1, n + 1):
        p = T.frac(i, n + 1)
        q = 1 - p
        L = T.log(q)
        d0 = T.log(-L)
        d1 = -1 / (q * L)
        d2 = d1 / q - d1 * d1
        d3 = d2 / q + d1 / (q * q) - 2 * d1 * d2
        d4 = d3 / q + 2 * d2 / (q * q) + 2 * d1 / (q * q * q) - 2 * (d2 * d2 + d1 * d3)
        out.append(d0 + p * q * d2 / (2 * (n + 2)) + p * q / ((n + 2) ** 2) * ((q - p) * d3 / 3 + p * q * d4 / 8))
    return out


def ns(T, x):
    y = [T.log(v) for v in x]
    s = scores(T, len(x))
    return [(b - a) / (d - c) for a, b, c, d in zip(y, y[1:], s, s[1:])]


def ts(T, x, p, raw):
    g = ns(T, x)
    m = len(x)
    return 2 * T.sum([(m - 1 - i) * v for i, v in enumerate(g[:-1], 1)]) / ((m - 2) * T.sum(g))


def los(T, x, p, raw):
    g = ns(T, x)
    m = len(x)
    z = [T.sum(g[:i]) / T.sum(g) for i in range(1, m - 1)]
    k = m - 2
    return -k - T.sum([(2 * i - 1) * (T.log(z[i - 1]) + T.log(1 - z[k - i])) for i in range(1, k + 1)]) / k


def msf(T, x, p, raw):
    g = ns(T, x)
    h = len(x) // 2
    return T.sum(g[h:]) / T.sum(g)


def mle_params(T):
    """The optimiser is arbitrary: it returns any shape t > 0; what it is asked to minimise is recorded."""
    t = T.var("t", lo=0, lo_open=True, hi=50, suggest=Fraction(5, 4))
    st = {}

    class Res:
        x = t
        success = True

    def minimize_scalar(fun, bracket=None, bounds=None, args=(), method=None, **k):
        st["fun"], st["args"], st["bounds"] = fun, args, bounds
        return Res()
    T.hook("scipy.optimize.minimize_scalar", minimize_scalar)
    return {}, dict(t=t, st=st)


def rejg(T, x, p, raw):
    n = len(x)
    y = [T.log(v) for v in x]
    m = [T.log(-T.log(1 - (i - T.const(Fraction("0.3175"))) / (n + T.const(Fraction("0.365"))))) / p["t"] for i in range(1, n + 1)]
    my, mm = mean(T, y), mean(T, m)
    s = T.sum([(u - my) * v for u, v in zip(y, m)]) ** 2 / (ssd(T, y) * ssd(T, m))
    return s * s


def spp(T, x, p, raw):
    """max |r_i - s_i|, both ascending (Coles 1989)."""
    n = len(x)
    t = p["t"]
    # gumbel scale: alpha = ((1/n) sum x^t)^(1/t)
    al = T.sum([T.pow(v, t) for v in x]) / n
    s = [2 / T.pi * arcsin(T, T.sqrt(1 - T.exp(-T.pow(v, t) / al))) for v in x]
    r = [2 / T.pi * arcsin(T, T.sqrt(T.frac(2 * i - 1, 2 * n))) for i in range(1, n + 1)]
    return T.max([T.abs(u - v) for u, v in zip(r, s)])


def arcsin(T, v):
    return T.special("arcsin")(v)


def md(T, x, p, raw):
    n = len(x)
    f = F(T, x, p)
    t1 = T.sum([(T.frac(i, n) - 1) ** 2 * (T.log(f[i]) - T.log(f[i - 1])) for i in range(1, n)])
    t2 = T.sum([(T.frac(i, n) - 1) * (f[i] - f[i - 1]) for i in range(1, n)])
    return n * (t1 + 2 * t2 + T.frac(1, 2))


def ls(T, x, p, raw):
    return toshiyuki(T, F(T, x, p), T.const(1e-10))


def kl(T, x, p, raw):
    n = len(x)
    m = p.get("m") or n // 2
    y = [T.log(v) for v in x]
    h = T.sum([T.log(T.frac(n, 2 * m) * (y[min(n - 1, i + m)] - y[max(0, i - m)])) for i in range(n)]) / n
    return -h - mean(T, y) + mean(T, x)


def lt(kind):
    def ref(T, x, p, raw):
        n = len(x)
        m, a = p.get("m", 100), p.get("a", -5)
        if kind == 2:
            t = [T.frac(-m + i, m) for i in range(m)]
        else:
            lo, hi = T.frac(-5, 2), T.const(0.49)
            t = [lo + (hi - lo) * T.frac(i, m - 1) for i in range(m)]
        g = T.special("gamma")
        tot = []
        for u in t:
            w = T.exp(-T.exp(a * u) + a * u)
            tot.append(w * (g(1 - u) - T.sum([T.exp(-v * u) for v in x]) / n) ** 2)
        return n * T.sum(tot)
    return ref


def cq(T, x, p, raw):
    n = len(x)
    g = T.special("gamma")
    s1, s2, v1, v2, v12 = (T.const(v) for v in (-0.1, 0.02, 1.59, 0.53, 0.91))
    z1 = T.sqrt(T.const(n)) * (T.sum([T.exp(-v * s1) for v in x]) / n - g(1 - s1))
    z2 = T.sqrt(T.const(n)) * (T.sum([T.exp(-v * s2) for v in x]) / n - g(1 - s2))
    return (v2 * z1 * z1 - 2 * z1 * z2 * v12 + v1 * z2 * z2) / (v1 * v2 - v12 ** 2)


def spread(T, xs, p):
    T.assume(T.not_(T.and_(*[T.eq(xs[0], y) for y in xs[1:]])))


def distinct(T, xs, p):
    for i, x in enumerate(xs):
        for y in xs[:i]:
            T.assume(T.not_(T.eq(x, y)))


def expo(T, y, p):
    return T.exp(y)


def Q(*a, **k):
    return S(*a, opaque=True, **k)


def E(*a, **k):
    return S(*a, via=expo, **dict(k, dom="real"))


def S(cls, ref, params=None, **k):
    return dict(mod=M, cls=cls + "WeibullGofStatistic", ref=ref, **dict(dict(dom="pos"), **k), params=params or no_params)


def fam(cls, ref, **k):
    k.setdefault("free", (2, 3))
    fr = k.pop("free")
    return [S(cls, ref, params=par(2, 1.5), id=cls + ":2,3/2", free=fr, ordered=(), wide=(), **k),
            S(cls, ref, params=sym, id=cls + ":symbolic", free=(2,), ordered=(3,) if max(fr) > 2 else (), list=False, wide=(), **k),
            S(cls, ref, params=dflt(k.pop("dk", 1)), id=cls + ":default", free=(2,), ordered=(), list=False, wide=(), **k),
            Q(cls, ref, params=par(1, 0.75), id=cls + ":opaque:1,3/4", free=(2,), list=False, **k),
            Q(cls, ref, params=par(2, 0.5), id=cls + ":opaque:2,1/2", free=(2,), ordered=(4,), list=False, wide=(9,), **k)]


SPECS = []
for side in ("two", "plus", "minus"):
    r = (lambda s: lambda T, x, p, raw: ks(T, F(T, x, p), s))(side)
    for nm, pr in (("2,3/2", par(2, 1.5)), ("symbolic", sym)):
        SPECS += [S("KolmogorovSmirnov", r, params=side_params(pr, side), id=f"KS:{nm}:{side}", free=(2,), ordered=(), list=nm == "2,3/2", wide=())]
    SPECS += [Q("KolmogorovSmirnov", r, params=side_params(par(1, 0.75), side), id=f"KS:opaque:1,3/4:{side}", list=False),
              Q("KolmogorovSmirnov", r, params=side_params(par(2, 0.5), side), id=f"KS:opaque:2,1/2:{side}", free=(2,), ordered=(4,), list=False, wide=(9,))]
SPECS += [S("KolmogorovSmirnov", edf(lambda T, f: ks(T, f, "two")), params=dflt(5), id="KS:default", free=(2,), ordered=(), wide=())]
SPECS += fam("Lilliefors", edf(lambda T, f: ks(T, f, "two")), free=(2,)) + fam("CrammerVonMises", edf(cvm)) + fam("Watson", edf(watson))
SPECS += fam("MinToshiyuki", edf(toshiyuki)) + fam("LiaoShimokawa", ls) + fam("MahdiDoostparast", md)
SPECS += [E("AndersonDarling", ad_, params=ad_params, id="AD")]
SPECS += [S("Chi2Pearson", chi2, params=par(2, 1.5), id="Chi2", free=(3,), pre=spread, ordered=(4, 5), wide=(9,)), S("Chi2Pearson", chi2, params=dflt(), id="Chi2:default", free=(), pre=spread, ordered=(4,), list=False, wide=(16,))]
for c, r in (("Sb", sb), ("SB", sb), ("OK", ok), ("ST1", st1), ("ST2", st2)):
    SPECS += [S(c, r, id=c, free=(3,), pre=spread, ordered=(), wide=()), E(c, r, id=c + ":log", free=(3,), pre=spread)]
SPECS += [E("TikuSingh", ts, id="TikuSingh", free=(3, 4), pre=spread), E("LOS", los, id="LOS", free=(3,), ordered=(4,), wide=(), ordered_th=(), pre=distinct),
          E("MSF", msf, id="MSF", free=(3, 4), pre=spread), E("REJG", rejg, params=mle_params, id="REJG", free=(3,), pre=spread, wide=(16,)),
          S("MSF", msf, id="MSF:raw", free=(3,), ordered=(), wide=(), pre=spread), S("TikuSingh", ts, id="TikuSingh:raw", free=(3,), ordered=(), wide=(), pre=spread)]
for m in (None, 1, 2, 3):
    SPECS += [E("KullbackLeibler", kl, id=f"KL:m={m}", kw=(lambda m: lambda T: (({} if m is None else dict(m=m)), dict(m=m)))(m), free=(3,) if m in (None, 1) else (), ordered=(4, 5) if m != 3 else (6,), list=m is None, wide=(), pre=distinct)]
    SPECS += [S("KullbackLeibler", kl, id=f"KL:raw:m={m}", kw=(lambda m: lambda T: (({} if m is None else dict(m=m)), dict(m=m)))(m), free=(3,) if m is None else (), ordered=(), list=False, wide=(9,), pre=distinct)]
for c, k in (("LaplaceTransform2", 2), ("LaplaceTransform3", 3)):
    for m, a in ((2, -5), (3, -2), (6, -5)):
        SPECS += [S(c, lt(k), id=f"{c}:m={m}", kw=(lambda m, a: lambda T: (dict(m=m, a=a), dict(m=m, a=a)))(m, a), free=(2, 3) if m < 6 else (), ordered=(4,), list=m == 2, wide=(9,))]
    SPECS += [S(c, lt(k), id=f"{c}:default", free=(), ordered=(2,), list=False, wide=())]
SPECS += [S("CabanaQuiroz", cq, id="CabanaQuiroz")]


def h_rsb(T, n, order):
    """The probability plot pairs the scores with the order statistics: the value may not depend on the input order."""
    h_value(T, S("RSB", rsb, pre=spread), n, order)


def h_fit(T, n, order):
    """What gumbel_l.fit receives is the sample of logarithms."""
    kw, p = ad_params(T)
    xs = sample(T, n, "pos", order)
    T.get(M, "AndersonDarlingWeibullGofStatistic")().execute_statistic(T.array(xs))
    T.check_all_eq("fitted data", T.sorted(p["st"]["data"]), [T.log(v) for v in T.sorted(xs)])


def h_score(T, n, order, cls):
    """The optimiser minimises the modulus of the likelihood equation of the shape, 1/t + mean(log x) - sum x^t log x / sum x^t."""
    kw, p = mle_params(T)
    xs = sample(T, n, "pos", order)
    T.get(M, cls + "WeibullGofStatistic")().execute_statistic(T.array(xs))
    st = p["st"]
    u = T.var("u", lo=0, lo_open=True, hi=50, suggest=Fraction(7, 8))
    got = st["fun"](u, *st["args"])
    y = [-T.log(v) for v in xs]
    den = T.sum([T.exp(-u * v) for v in y])
    T.check_eq("objective", got, T.abs(1 / u - mean(T, y) + T.sum([v * T.exp(-u * v) for v in y]) / den))
    T.check("bounds", T.and_(T.gt(st["bounds"][0], 0), T.ge(st["bounds"][1], 10)))


def jobs(tier, seed):
    out = table_jobs("C21", SPECS, tier, seed)
    for n in (3, 4, 5):
        out.append(Job("C21", f"RSB:order={''.join(map(str, range(n)))}", h_rsb, dict(n=n, order=tuple(range(n))), seed=seed))
    out.append(Job("C21", "RSB:unsorted", h_rsb, dict(n=3, order=(2, 0, 1)), seed=seed))
    out.append(Job("C21", "AD:fit", h_fit, dict(n=3, order=(2, 0, 1)), seed=seed))
    for c in ("REJG", "SPP"):
        out.append(Job("C21", f"{c}:objective", h_score, dict(n=3, order=(1, 0, 2), cls=c), seed=seed))
    out.append(Job("C21", "SPP:ascending", h_value, dict(spec=S("SPP", spp, params=mle_params, pre=spread), n=3, order=(1, 2, 0)), seed=seed))
    return out
