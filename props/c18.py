"""C18 exponentiality statistics against their published definitions."""
from .gof import *

M = G + "exponent"
ENCODED = ["execute_statistic of every concrete exponentiality statistic except the graph ones (C16)", "KSStatistic, CrammerVonMisesStatistic.do_execute_statistic"]
BOUNDS = "samples of size 2-3 in every order, sizes 4-5 in sampled orders (6-7 thorough), sizes up to 16 (25 thorough) with one observation symbolic and the rest fixed (Kolmogorov-Smirnov: sizes 2-5 only); all real positive values and rates"
OUTSIDE = "samples with non-positive observations, nan, and sizes beyond the bounds"


def S(cls, ref, **k):
    return dict(mod=M, cls=cls + "ExponentialityGofStatistic", ref=ref, dom="pos", **k)


def ep(T, x, p, raw):
    n = len(x)
    m = mean(T, x)
    return T.sqrt(T.const(48 * n)) * T.sum([T.exp(-v / m) - T.frac(1, 2) for v in x]) / n


def ahs(T, x, p, raw):
    n = len(x)
    h = count(T, [T.lt(T.abs(a - b), c) for a in x for b in x for c in x])
    g = count(T, [T.lt(2 * T.min(a, b), c) for a in x for b in x for c in x])
    return (h - g) / n ** 3


def atk(q):
    def ref(T, x, p, raw):
        n = len(x)
        e = T.const(q)
        r = T.pow(mean(T, [T.pow(v, e) for v in raw]), 1 / e) / mean(T, x)
        return T.sqrt(T.const(n)) * T.abs(r - T.pow(T.special("gamma")(1 + e), 1 / e))
    return ref


def co(T, x, p, raw):
    m = mean(T, x)
    return len(x) + T.sum([(1 - v / m) * T.log(v / m) for v in x])


def dsp(b):
    def ref(T, x, p, raw):
        n = len(x)
        bb = T.const(b)
        return count(T, [T.gt(x[i], bb * x[j]) for i in range(n) for j in range(n) if i != j]) / (n * (n - 1))
    return ref


def spacings(T, x):
    n = len(x)
    return [(n - i) * (x[i] - (x[i - 1] if i else 0)) for i in range(n)]


def eps(T, x, p, raw):
    n = len(x)
    d = spacings(T, x)
    return 2 * n * (T.log(T.sum(d) / n) - T.sum([T.log(v) for v in d]) / n) / (1 + T.frac(n + 1, 6 * n))


def fz(T, x, p, raw):
    n = len(x)
    m = mean(T, x)
    return T.sum([T.abs(1 - T.exp(-v / m) - T.frac(2 * i + 1, 2 * n)) for i, v in enumerate(x)]) / T.sqrt(T.const(n))


def gini(T, x, p, raw):
    # mean absolute difference over twice the mean: sum_{i,j}|xi-xj| / (2 n (n-1) mean)
    n = len(x)
    return T.sum([x[j] - x[i] for i in range(n) for j in range(i + 1, n)]) / ((n - 1) * T.sum(x))


def gd(r=None):
    def ref(T, x, p, raw):
        n = len(x)
        k = round(n / 2) if r is None else r
        d = spacings(T, x)
        return (T.sum(d[:k]) / k) / (T.sum(d[k:]) / (n - k))
    return ref


def hm(r=None):
    def ref(T, x, p, raw):
        n = len(x)
        k = round(n / 4) if r is None else r
        d = spacings(T, x)
        return ((T.sum(d[:k]) + T.sum(d[n - k:])) / (2 * k)) / (T.sum(d[k:n - k]) / (n - 2 * k))
    return ref


def hg(power):
    def ref(T, x, p, raw):
        n = len(x)
        d = [v + T.log(1 - T.frac(i + 1, n + 1)) for i, v in enumerate(x)]
        return T.sum([T.abs(v) if power == 1 else v * v for v in d]) / n
    return ref


def hp(T, x, p, raw):
    n = len(x)
    c = count(T, [T.gt(x[i], x[j] + x[k]) for i in range(n) for j in range(n) for k in range(j + 1, n) if i != j and i != k])
    return 2 * c / (n * (n - 1) * (n - 2))


def km(T, x, p, raw):
    n = len(x)
    m = mean(T, x)
    asin = T.special("arcsin")
    s = [2 / T.pi * asin(T.sqrt(1 - T.exp(-v / m))) for v in x]
    r = [2 / T.pi * asin(T.sqrt(T.frac(2 * i + 1, 2 * n))) for i in range(n)]
    return T.max([T.abs(a - b) for a, b in zip(r, s)])


def kc(T, x, p, raw):
    n = len(x)
    tot = []
    for i, v in enumerate(x):
        u = T.frac(i + 1, n + 1)
        tot.append((2 * (1 - u) * (1 - T.log(1 - u)) - 1) * v)
    return T.sqrt(T.frac(108 * n, 17)) * T.sum(tot) / T.sum(x)


def lz(q):
    def ref(T, x, p, raw):
        return T.sum(x[:int(len(x) * q)]) / T.sum(x)
    return ref


def mn(T, x, p, raw):
    m = mean(T, x)
    return -T.special("digamma")(T.const(1)) + T.sum([T.log(v / m) for v in x]) / len(x)


def pt(T, x, p, raw):
    m = mean(T, x)
    return T.sum([T.abs(v - m) for v in x]) / (2 * len(x) * m)


def sw(T, x, p, raw):
    n = len(x)
    m = mean(T, x)
    return n * (m - x[0]) ** 2 / ((n - 1) * ssd(T, x))


def rs(T, x, p, raw):
    n = len(x)
    # middle minus smallest of every triple, minimum of every pair
    h = count(T, [T.lt(x[j] - x[i], x[m]) for m in range(n) for i in range(n) for j in range(i + 1, n) for k in range(j + 1, n)])
    g = count(T, [T.lt(x[i], x[m]) for m in range(n) for i in range(n) for j in range(i + 1, n)])
    return (6 * h / (n * (n - 1) * (n - 2)) - 2 * g / (n * (n - 1))) / n


def we(T, x, p, raw):
    n = len(x)
    m = mean(T, x)
    return (n - 1) * (ssd(T, x) / n) / (n * n * m * m)


def ww(T, x, p, raw):
    return x[-1] / x[0]


def lam(T):
    v = T.var("lam", lo=0, lo_open=True, suggest=lambda r: Fraction(r.randint(1, 24), 8))
    return dict(lam=v), dict(lam=v)


def expF(T, x, p):
    return [1 - T.exp(-p["lam"] * v) for v in x]


SPECS = [
    S("EppsPulley", ep), S("Ahsanullah", ahs, wide=(6, 9), ordered=(4,)),
    S("Atkinson", atk(0.99)), S("Atkinson", atk(0.5), id="Atkinson:p=0.5", kw=lambda T: (dict(p=0.5), {}), list=False, wide=(9,)),
    S("CoxOakes", co), S("Deshpande", dsp(0.44)),
    S("Deshpande", dsp(0.25), id="Deshpande:b=0.25", kw=lambda T: (dict(b=0.25), {}), list=False, wide=(9,)),
    S("Epstein", eps), S("Frozini", fz), S("Gini", gini),
    S("Gnedenko", gd(), wide=(9, 14, 16)), S("Gnedenko", gd(1), id="Gnedenko:r=1", kw=lambda T: (dict(r=1), {}), list=False, wide=(9,)),
    S("Harris", hm(), free=(3,), wide=(9, 14, 16)), S("Harris", hm(1), id="Harris:r=1", kw=lambda T: (dict(r=1), {}), free=(3,), list=False, wide=(9,)),
    S("HegazyGreen1", hg(1)), S("HegazyGreen2", hg(2)), S("HollanderProshan", hp, free=(3,), wide=(6, 9)),
    S("KimberMichael", km), S("Kochar", kc), S("Lorenz", lz(0.5)),
    S("Lorenz", lz(0.25), id="Lorenz:p=0.25", kw=lambda T: (dict(p=0.25), {}), list=False, wide=(9,)),
    S("Moran", mn), S("Pietra", pt), S("ShapiroWilk", sw), S("Rossberg", rs, free=(3,), wide=(6, 9)), S("We", we), S("WongWong", ww),
]

SPECS += [S("KolmogorovSmirnov", lambda T, x, p, raw: ks(T, expF(T, x, p), p["side"]), id="KolmogorovSmirnov:" + sd, params=side_params(lam, sd),
            list=sd == "two", wide=()) for sd in ("two", "plus", "minus")]
SPECS += [S("CramerVonMises", lambda T, x, p, raw: cvm(T, expF(T, x, p)), params=lam)]


def jobs(tier, seed):
    return table_jobs("C18", SPECS, tier, seed)
