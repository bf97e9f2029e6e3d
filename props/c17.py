"""C17 normality statistics against their published definitions."""
from math import comb, factorial

from .gof import *

M = G + "normal"
ENCODED = ["execute_statistic of every concrete normality statistic except the graph ones (C16)"]
BOUNDS = ("sizes 2-4 in every or sampled orders and 4-6 sorted (7+ thorough) with all observations (and mean and variance where the statistic takes "
          "them) symbolic; sizes 8, 9, 16 (Hosking 25, 26, 50, 51) with one observation symbolic and the rest fixed; Martinez-Iglewicz, d'Agostino "
          "skewness/kurtosis, DAP, Doornik-Hansen, Bontemps-Meddahi 2 and Cabana-Cabana only in that second form; one observation up to 100 away; Brys-Hubert-Struyf: sizes 4-9 (12 thorough) with one observation symbolic, "
          "with ties at the median")
OUTSIDE = "for the Brys-Hubert-Struyf statistic samples with several symbolic values or values closer than 2**-16, samples whose variance (or other denominator) is zero, nan, sizes beyond the bounds"


def S(cls, ref, **k):
    k.setdefault("free", (2, 3))
    return dict(mod=M, cls=cls + "NormalityGofStatistic", ref=ref, dom="real", **k)


def var(T, x, ddof):
    return ssd(T, x) / (len(x) - ddof)


def mom(T, x, k, m=None):
    m = mean(T, x) if m is None else m
    return T.sum([(v - m) ** k for v in x]) / len(x)


def zs(T, x, ddof=1):
    m, s = mean(T, x), T.sqrt(var(T, x, ddof))
    return [(v - m) / s for v in x]


def N(T):
    return T.dist("norm")


def q(T, a, b=1):
    return N(T).ppf(T.frac(a, b)) if isinstance(a, int) else N(T).ppf(a)


def std_ad(T, x, p, raw):
    z = zs(T, x)
    return ad(T, [N(T).logcdf(v) for v in z], [N(T).logsf(v) for v in z])


def ks_ref(T, x, p, raw):
    s = T.sqrt(p["var"])
    return ks(T, [N(T).cdf((v - p["mean"]) / s) for v in x], p["side"])


def cvm_ref(T, x, p, raw):
    s = T.sqrt(p["var"])
    return cvm(T, [N(T).cdf((v - p["mean"]) / s) for v in x])


def lillie(T, x, p, raw):
    return ks(T, [N(T).cdf(v) for v in zs(T, x)], "two")


def kspar(side):
    def f(T):
        a = T.get("statistics.alternative", "AlternativeType")
        mu, va = T.var("mu", lo=-3, hi=3, suggest=Fraction(1, 2)), T.var("var", lo=0, lo_open=True, hi=9, suggest=4)
        return dict(alternative_type={"two": a.TWO_TAILED, "plus": a.RIGHT, "minus": a.LEFT}[side], mean=mu, var=va), dict(side=side, mean=mu, var=va)
    return f


def ks01(T):
    return {}, dict(side="two", mean=T.const(0), var=T.const(1))


def mv(T):
    mu, va = T.var("mu", lo=-3, hi=3, suggest=Fraction(1, 2)), T.var("var", lo=0, lo_open=True, hi=9, suggest=4)
    return dict(mean=mu, var=va), dict(mean=mu, var=va)


def sw(T, x, p, raw):
    n = len(x)
    if n == 3:
        a = [-T.sqrt(T.frac(1, 2)), T.const(0), T.sqrt(T.frac(1, 2))]
    else:
        m = [q(T, 8 * i - 3, 8 * n + 2) for i in range(1, n + 1)]
        mm = T.sum([v * v for v in m])
        u = 1 / T.sqrt(T.const(n))
        pol = lambda cs: T.sum([T.const(c) * u ** (k + 1) for k, c in enumerate(cs)])
        an = m[-1] / T.sqrt(mm) + pol([0.221157, -0.147981, -2.07119, 4.434685, -2.706056])
        an1 = m[-2] / T.sqrt(mm) + pol([0.042981, -0.293762, -1.752461, 5.682633, -3.582633])
        if n <= 5:
            phi = (mm - 2 * m[-1] ** 2) / (1 - 2 * an ** 2)
            a = [-an] + [v / T.sqrt(phi) for v in m[1:-1]] + [an]
        else:
            phi = (mm - 2 * m[-1] ** 2 - 2 * m[-2] ** 2) / (1 - 2 * an ** 2 - 2 * an1 ** 2)
            a = [-an, -an1] + [v / T.sqrt(phi) for v in m[2:-2]] + [an1, an]
    return T.sum([u * v for u, v in zip(a, x)]) ** 2 / ssd(T, x)


def jb(T, x, p, raw):
    n = len(x)
    m2, m3, m4 = (mom(T, x, k) for k in (2, 3, 4))
    return T.frac(n, 6) * (m3 ** 2 / m2 ** 3 + (m4 / m2 ** 2 - 3) ** 2 / 4)


def skew_z(T, x, p, raw):
    n = len(x)
    m2, m3 = mom(T, x, 2), mom(T, x, 3)
    g1 = m3 / (m2 * T.sqrt(m2))
    y = g1 * T.sqrt(T.frac((n + 1) * (n + 3), 6 * (n - 2)))
    b2 = T.frac(3 * (n * n + 27 * n - 70) * (n + 1) * (n + 3), (n - 2) * (n + 5) * (n + 7) * (n + 9))
    w2 = T.sqrt(2 * (b2 - 1)) - 1
    d = 1 / T.sqrt(T.log(w2) / 2)
    t = y / T.sqrt(2 / (w2 - 1))
    return d * T.log(t + T.sqrt(t * t + 1))


def asym(T, xs, p):
    # scipy's (and this) implementation special-cases a sample skewness of exactly zero
    T.assume(T.not_(T.eq(mom(T, xs, 3), 0)))


def kurt_z(T, x, p, raw, sign=1):
    n = len(x)
    b2 = mom(T, x, 4) / mom(T, x, 2) ** 2
    e = T.frac(3 * (n - 1), n + 1)
    v = T.frac(24 * n * (n - 2) * (n - 3), (n + 1) ** 2 * (n + 3) * (n + 5))
    xx = (b2 - e) / T.sqrt(v)
    sb = T.frac(6 * (n * n - 5 * n + 2), (n + 7) * (n + 9)) * T.sqrt(T.frac(6 * (n + 3) * (n + 5), n * (n - 2) * (n - 3)))
    a = 6 + 8 / sb * (2 / sb + T.sqrt(1 + 4 / sb ** 2))
    den = 1 + xx * T.sqrt(2 / (a - 4))
    root = T.pow((1 - 2 / a) / (den * sign), T.frac(1, 3)) * sign
    return (1 - 2 / (9 * a) - root) / T.sqrt(2 / (9 * a))


def kden(T, xs, p, sign=1):
    n = len(xs)
    b2 = mom(T, xs, 4) / mom(T, xs, 2) ** 2
    e = T.frac(3 * (n - 1), n + 1)
    v = T.frac(24 * n * (n - 2) * (n - 3), (n + 1) ** 2 * (n + 3) * (n + 5))
    sb = T.frac(6 * (n * n - 5 * n + 2), (n + 7) * (n + 9)) * T.sqrt(T.frac(6 * (n + 3) * (n + 5), n * (n - 2) * (n - 3)))
    a = 6 + 8 / sb * (2 / sb + T.sqrt(1 + 4 / sb ** 2))
    den = 1 + (b2 - e) / T.sqrt(v) * T.sqrt(2 / (a - 4))
    T.assume(T.gt(den * sign, 0))


def kden_neg(T, xs, p):
    kden(T, xs, p, -1)


def kurt_neg(T, x, p, raw):
    return kurt_z(T, x, p, raw, -1)




def both(T, xs, p):
    asym(T, xs, p)
    kden(T, xs, p)


def dap(T, x, p, raw):
    return skew_z(T, x, p, raw) ** 2 + kurt_z(T, x, p, raw) ** 2


def corr(T, a, b):
    ma, mb = mean(T, a), mean(T, b)
    return T.sum([(u - ma) * (v - mb) for u, v in zip(a, b)]) / (T.sqrt(ssd(T, a)) * T.sqrt(ssd(T, b)))


def filli(T, x, p, raw):
    n = len(x)
    h = T.pow(T.frac(1, 2), T.frac(1, n))
    u = [T.const(Fraction(10000 * i - 3175, 10000 * n + 3650)) if not T.real else (i - 0.3175) / (n + 0.365) for i in range(1, n + 1)]
    u[0], u[-1] = 1 - h, h
    return corr(T, x, [q(T, v) for v in u])


def lg(al):
    al = Fraction(al)

    def ref(T, x, p, raw):
        n = len(x)
        u = [(i - al) / (n - 2 * al + 1) for i in range(1, n + 1)]
        return corr(T, x, [q(T, v.numerator, v.denominator) for v in u])
    return ref


def varied(T, xs, p):
    T.assume(T.not_(T.and_(*[T.eq(xs[0], x) for x in xs[1:]])))


def lgw(al):
    """Plotting positions averaged over ties."""
    al = Fraction(al)

    def ref(T, x, p, raw):
        n = len(x)
        u = [(i - al) / (n - 2 * al + 1) for i in range(1, n + 1)]
        out = []
        for i in range(n):
            g = [j for j in range(n) if j == i or T.branch(T.eq(x[i], x[j]))]
            out.append(sum(u[j] for j in g) / len(g))
        return corr(T, x, [q(T, v.numerator, v.denominator) for v in out])
    return ref


def sf(T, x, p, raw):
    n = len(x)
    e = [q(T, 8 * i - 3, 8 * n + 2) for i in range(1, n + 1)]
    return T.sum([a * b for a, b in zip(e, x)]) ** 2 / (ssd(T, x) * T.sum([a * a for a in e]))


def ep(T, x, p, raw):
    n = len(x)
    m, m2 = mean(T, x), mom(T, x, 2)
    s1 = T.sum([T.exp(-(x[j] - x[k]) ** 2 / (2 * m2)) for k in range(n) for j in range(k)])
    s2 = T.sum([T.exp(-(v - m) ** 2 / (4 * m2)) for v in x])
    return 1 + n / T.sqrt(T.const(3)) + T.frac(2, n) * s1 - T.sqrt(T.const(2)) * s2


# trimmed L-moments: lambda_r = 1/r sum_k (-1)^k C(r-1,k) E[X_{r+t-k : r+2t}], estimated over all subsamples
def tl(T, x, r, t):
    n, m = len(x), r + 2 * t
    tot = []
    for i in range(1, n + 1):
        w = sum((-1) ** k * comb(r - 1, k) * comb(i - 1, r + t - k - 1) * comb(n - i, m - (r + t - k)) for k in range(r))
        if w:
            tot.append(T.frac(w, r * comb(n, m)) * x[i - 1])
    return T.sum(tot)


HOSK = {0: [(0.12383, 0.0088038, 0.0049295), (0.12321, 0.0040493, 0.0020802), (0.12291, 0.0019434, 0.00095785)],
        1: [(0.067077, 0.0081391, 0.0042752), (0.064456, 0.0034657, 0.0015699), (0.063424, 0.0016064, 0.000681)],
        2: [(0.044174, 0.008657, 0.0042066), (0.040389, 0.0033818, 0.0013301), (0.03903, 0.001512, 0.00054207)],
        3: [(0.03318, 0.0095765, 0.0044609), (0.028224, 0.0033813, 0.0011823), (0.026645, 0.0014547, 0.00045107)]}


def hosk(t):
    def ref(T, x, p, raw):
        n = len(x)
        l2, l3, l4 = (tl(T, x, r, t) for r in (2, 3, 4))
        mu, v3, v4 = (T.const(c) for c in HOSK[t][0 if n <= 25 else 1 if n <= 50 else 2])
        return (l3 / l2) ** 2 / v3 + (l4 / l2 - mu) ** 2 / v4
    return ref


def phis(T, x):
    return [N(T).cdf(v) for v in zs(T, x)]


def zwc(T, x, p, raw):
    n = len(x)
    return T.sum([T.log((1 / f - 1) / (T.const(Fraction(4 * n - 2, 4 * i - 3)) - 1)) ** 2 for i, f in enumerate(phis(T, x), 1)])


def zwa(T, x, p, raw):
    n = len(x)
    za = -T.sum([T.log(f) / T.frac(2 * (n - i) + 1, 2) + T.log(1 - f) / T.frac(2 * i - 1, 2) for i, f in enumerate(phis(T, x), 1)])
    return 10 * za - 32


def glb(T, x, p, raw):
    n = len(x)
    b = T.sorted([T.dist("beta").cdf(f, i, n - i + 1) for i, f in enumerate(phis(T, x), 1)])
    return -n - T.sum([(2 * n + 1 - 2 * i) * T.log(f) + (2 * i - 1) * T.log(1 - f) for i, f in enumerate(b, 1)]) / n


def dh(T, x, p, raw):
    n = len(x)
    m2, m3, m4 = (mom(T, x, k) for k in (2, 3, 4))
    s = m3 / (m2 * T.sqrt(m2))
    b1, b2 = m3 ** 2 / m2 ** 3, m4 / m2 ** 2
    be = T.frac(3 * (n * n + 27 * n - 70) * (n + 1) * (n + 3), (n - 2) * (n + 5) * (n + 7) * (n + 9))
    w2 = T.sqrt(2 * (be - 1)) - 1
    de = 1 / T.sqrt(T.log(w2) / 2)
    y = s * T.sqrt((w2 - 1) / 2 * T.frac((n + 1) * (n + 3), 6 * (n - 2)))
    z1 = de * T.log(y + T.sqrt(y * y + 1))
    d = (n - 3) * (n + 1) * (n * n + 15 * n - 4)
    a = T.frac((n - 2) * (n + 5) * (n + 7) * (n * n + 27 * n - 70), 6 * d)
    c = T.frac((n - 7) * (n + 5) * (n + 7) * (n * n + 2 * n - 5), 6 * d)
    k = T.frac((n + 5) * (n + 7) * (n ** 3 + 37 * n * n + 11 * n - 313), 12 * d)
    al = a + b1 * c
    T.assume(T.gt(al, 0))
    chi = (b2 - 1 - b1) * 2 * k
    T.assume(T.gt(chi, 0))
    z2 = (T.pow(chi / (2 * al), T.frac(1, 3)) - 1 + 1 / (9 * al)) * T.sqrt(9 * al)
    return z1 ** 2 + z2 ** 2


def med(T, x):
    n = len(x)
    return x[n // 2] if n % 2 else (x[n // 2 - 1] + x[n // 2]) / 2


def rjb(T, x, p, raw):
    n = len(x)
    m = med(T, x)
    j = T.sqrt(T.pi / 2) * T.sum([T.abs(v - m) for v in x]) / n
    return T.frac(n, 6) * (mom(T, x, 3) / j ** 3) ** 2 + T.frac(n, 64) * (mom(T, x, 4) / j ** 4 - 3) ** 2


def herm(T, z, k):
    # orthonormal Hermite polynomials (probabilists')
    h = [1, z]
    for j in range(1, k):
        h.append(z * h[j] - j * h[j - 1])
    return h[k] / T.sqrt(T.const(factorial(k)))


def bm(ks_):
    def ref(T, x, p, raw):
        z = zs(T, x)
        return T.sum([T.sum([herm(T, v, k) for v in z]) ** 2 for k in ks_]) / len(x)
    return ref


def bs(T, x, p, raw):
    n = len(x)
    m = mean(T, x)
    s = T.sqrt(mom(T, x, 2, m))
    tau = T.sum([T.abs(v - m) for v in x]) / n
    om = T.const(13.29) * (T.log(s) - T.log(tau))
    return T.sqrt(T.const(n + 2)) * (om - 3) / T.const(3.54)


def mi(T, x, p, raw):
    n = len(x)
    m = med(T, x)
    a = 9 * med(T, T.sorted([T.abs(v - m) for v in x]))
    T.assume(T.gt(a, 0))
    z = [(v - m) / a for v in x]
    inside = [T.branch(T.lt(T.abs(v - m), a)) for v in x]
    t1 = T.sum([(v - m) ** 2 * (1 - u * u) ** 4 for v, u, k in zip(x, z, inside) if k])
    t2 = T.sum([(1 - u * u) * (1 - 5 * u * u) for u, k in zip(z, inside) if k])
    return T.sum([(v - m) ** 2 for v in x]) / (n - 1) / (n * t1 / t2 ** 2)


def cc1(T, x, p, raw):
    n = len(x)
    z = zs(T, x)
    H = {k: T.sum([herm(T, v, k) for v in z]) / T.sqrt(T.const(n)) for k in range(3, 9)}
    out = []
    for v in z:
        s = T.sum([herm(T, v, j - 1) * H[j + 3] / T.sqrt(T.const(j)) for j in range(1, 6)])
        out.append(T.abs(N(T).cdf(v) * H[3] - N(T).pdf(v) * s))
    return T.max(out)


def cc2(T, x, p, raw):
    n = len(x)
    z = zs(T, x)
    H = {k: T.sum([herm(T, v, k) for v in z]) / T.sqrt(T.const(n)) for k in range(3, 9)}
    out = []
    for v in z:
        # (the values pinned by the repository's tests count the last term twice, as the PoweR package does)
        s = T.sum([(2 if j == 5 else 1) * (T.sqrt(T.frac(j, j - 1)) * herm(T, v, j - 2) + herm(T, v, j)) * H[j + 3] for j in range(2, 6)])
        ph = N(T).pdf(v)
        out.append(T.abs(-ph * H[3] + (N(T).cdf(v) - v * ph) * H[4] - ph * s))
    return T.max(out)


def cs(T, x, p, raw):
    n = len(x)
    m = [q(T, 8 * i - 3, 8 * n + 2) for i in range(1, n + 1)]
    s = T.sum([(x[i + 1] - x[i]) / (m[i + 1] - m[i]) for i in range(n - 1)]) / ((n - 1) * T.sqrt(var(T, x, 1)))
    return T.sqrt(T.const(n)) * (1 - s)


def zq(rev):
    def ref(T, x, p, raw):
        n = len(x)
        u = [q(T, 8 * i - 3, 8 * n + 2) for i in range(1, n + 1)]
        y = [-v for v in reversed(x)] if rev else x
        q1 = T.sum([(y[i] - y[0]) / (u[i] - u[0]) for i in range(1, n)]) / (n - 1)
        q2 = T.sum([(y[i] - y[i + 4]) / (u[i] - u[i + 4]) for i in range(n - 4)]) / (n - 4)
        return T.log(q1 / q2)
    return ref


def dago(T, x, p, raw):
    n = len(x)
    t = T.sum([T.frac(2 * i - n - 1, 2) * v for i, v in enumerate(x, 1)])
    d = t / (n * n * T.sqrt(mom(T, x, 2)))
    return T.sqrt(T.const(n)) * (d - T.const(0.28209479)) / T.const(0.02998598)


def swrg(T, x, p, raw):
    n = len(x)
    m = [q(T, i, n + 1) for i in range(1, n + 1)]
    f = [N(T).pdf(v) for v in m]
    g = [T.const(0)] + [a * b for a, b in zip(m, f)] + [T.const(0)]
    a = [-(n + 1) * (n + 2) * f[i] * (g[i] - 2 * g[i + 1] + g[i + 2]) for i in range(n)]
    return T.sum([u * v for u, v in zip(a, x)]) ** 2 / (T.sum([u * u for u in a]) * ssd(T, x))


def gmg(T, x, p, raw):
    n = len(x)
    m = med(T, x)
    return T.sqrt(mom(T, x, 2)) / (T.sqrt(T.pi / 2) * T.sum([T.abs(v - m) for v in x]) / n)


def sh(T, x, p, raw):
    n = len(x)
    m = mean(T, x)
    s = T.sqrt(var(T, x, 1))
    u = (x[-1] - x[0]) / s
    g = T.sum([T.abs(v - m) for v in x]) / (s * T.sqrt(T.const(n * (n - 1))))
    c = T.pow(T.const(factorial(n)), T.frac(1, n - 1)) / (2 * n)
    return T.pow(T.pow(c * u, T.const(-(n - 1))) + T.pow(g, T.const(-(n - 1))), T.frac(1, n - 1))


def royston(T, n):
    """Expected normal order statistics, largest first, by Royston's approximation (AS 177)."""
    D = lambda *v: [Fraction(x) for x in v]
    eps, g = D("0.419885", "0.450536", "0.456936", "0.468488"), D("0.474798", "0.469051", "0.208597", "0.259784")
    d1, d2 = D("0.112063", "0.12177", "0.239299", "0.215159"), D("0.080122", "0.111348", "-0.211867", "-0.115049")
    lam = D("0.282765", "0.304856", "0.407708", "0.414093")
    c1, c2 = D("9.5", "28.7", "1.9", "0", "-7", "-6.2", "-1.6"), D("-6195", "-9569", "-6728", "-17614", "-8278", "-3570", "1075")
    c3 = D("93380", "175160", "410400", "2157600", "2376000", "2065000", "2065000")
    out = []
    for i in range(1, n // 2 + 1):
        k = min(i, 4) - 1
        e1 = (i - eps[k]) / (n + g[k])
        ex = lam[k] if i < 4 else lam[3] + Fraction("-0.283833") / (i - Fraction("0.106136"))
        e2 = T.pow(T.const(e1), T.const(ex))
        if i * n == 4:
            c = Fraction("0.000019")
        elif i > 7 or n > (40 if i == 4 else 20):
            c = Fraction(0)
        else:
            an = Fraction(1, n * n)
            c = (c1[i - 1] + an * (c2[i - 1] + an * c3[i - 1])) / 10 ** 6
        out.append(-N(T).ppf(T.const(e1) + e2 * (T.const(d1[k]) + e2 * T.const(d2[k])) / n - T.const(c)))
    return out


def coin(T, x, p, raw):
    n = len(x)
    s = royston(T, n)
    a = [-v for v in s] + ([T.const(0)] if n % 2 else []) + list(reversed(s))
    z = zs(T, x)
    # regression of z on a and a^3: squared coefficient of the cubic term
    S = lambda k: T.sum([v ** k for v in a])
    b1, b3 = T.sum([u * v for u, v in zip(a, z)]), T.sum([u ** 3 * v for u, v in zip(a, z)])
    return ((S(2) * b3 - S(4) * b1) / (S(2) * S(6) - S(4) ** 2)) ** 2


def nonzero(T, xs, p):
    m = mean(T, xs)
    for v in xs:
        T.assume(T.not_(T.eq(v, m)))


def dl(T, x, p, raw):
    n = len(x)
    y = [T.abs(v) for v in zs(T, x, 0)]
    r1 = T.const(Fraction("0.18240929")) - T.sum([v * v * T.log(v) for v in y]) / (2 * n)
    r2 = T.const(Fraction("0.5348223")) - T.sum([T.log(1 + v) for v in y]) / n
    r3 = T.const(Fraction("0.20981558")) - T.sum([T.log(T.log(T.const(Fraction("2.71828182846")) + v)) for v in y]) / n
    D = lambda v: T.const(Fraction(v))
    return n * ((r1 * D("1259.04213344") - r2 * D("32040.69569026") + r3 * D("85065.77739473")) * r1
                + (-r1 * D("32040.6956903") + r2 * D("918649.9005906") - r3 * D("2425883.3443201")) * r2
                + (r1 * D("85065.7773947") - r2 * D("2425883.3443201") + r3 * D("6407749.8211208")) * r3)


WD = dict(free=(), ordered=(), wide=(8, 9, 16), list=False)
R4 = dict(free=(4,), ordered=(5,))
SPECS = [
    S("KolmogorovSmirnov", ks_ref, params=kspar("two"), id="KS:two"), S("KolmogorovSmirnov", ks_ref, params=kspar("plus"), id="KS:right"),
    S("KolmogorovSmirnov", ks_ref, params=kspar("minus"), id="KS:left"), S("KolmogorovSmirnov", ks_ref, params=ks01, id="KS:default", wide=(9,)),
    S("CramerVonMise", cvm_ref, params=mv), S("AndersonDarling", std_ad), S("Lilliefors", lillie),
    S("ShapiroWilk", sw, free=(3,), ordered=(4, 5, 6)), S("JB", jb, two=(12,)), S("Skew", skew_z, pre=asym, **WD, two=(9, 20)), S("Kurtosis", kurt_z, pre=kden, **WD, two=(9, 20)), S("Kurtosis", kurt_neg, pre=kden_neg, id="Kurtosis:light", free=(), ordered=(), wide=(), list=False, two=(50, 61)),
    S("DAP", dap, pre=both, **WD, two=(9, 20)), S("Filli", filli), S("LooneyGulledge", lg("3/8")),
    S("RyanJoiner", lg("3/8")), S("RyanJoiner", lg("1/2"), id="RyanJoiner:1/2", params=lambda T: (dict(cte_alpha="1/2"), {}), wide=(9,)),
    S("RyanJoiner", lg("0"), id="RyanJoiner:0", params=lambda T: (dict(cte_alpha="0"), {}), wide=(9,)),
    *[S("RyanJoiner", lgw(a), id=f"RyanJoiner:weighted:{a}", pre=varied, params=lambda T, a=a: (dict(weighted=True, cte_alpha=a), {}), free=(2, 3), ordered=(4,), wide=(9,), two=(7,))
      for a in ("3/8", "1/2", "0")],
    S("SF", sf), S("EppsPulley", ep),
    S("Hosking1", hosk(0), **R4, wide=(9, 25, 26, 50, 51)), S("Hosking2", hosk(1), free=(), ordered=(6, 7), wide=(9, 25, 26, 50, 51)),
    S("Hosking3", hosk(2), free=(), ordered=(8,), wide=(9, 25, 26, 50, 51)), S("Hosking4", hosk(3), free=(), ordered=(10,), wide=(11, 25, 26, 50, 51)),
    S("ZhangWuC", zwc, **R4), S("ZhangWuA", zwa, **R4), S("GlenLeemisBarr", glb, free=(), ordered=(4,), wide=()), S("DoornikHansen", dh, **WD),
    S("RobustJarqueBera", rjb), S("BontempsMeddahi1", bm((3, 4)), free=(), ordered=(4,), list_n=4, wide=(8, 9, 16)), S("BontempsMeddahi2", bm((3, 4, 5, 6)), **WD), S("BonettSeier", bs, **R4),
    S("MartinezIglewicz", mi, free=(), ordered=(), list=False, far=(9, 16), wide_k=lambda n: {0, n - 1} | ({4} if n == 9 else set())), S("CabanaCabana1", cc1, **WD), S("CabanaCabana2", cc2, **WD), S("ChenShapiro", cs, **R4),
    S("ZhangQ", zq(False), free=(), ordered=(8, 9)), S("ZhangQStar", zq(True), free=(), ordered=(8, 9)), S("Dagostino", dago, **R4),
    S("SWRG", swrg, **R4), S("GMG", gmg, **R4), S("Spiegelhalter", sh, free=(), ordered=(4, 5), list_n=4),
    S("Coin", coin, free=(), ordered=(4, 5), list_n=4, wide=(9,)), S("DesgagneLafaye", dl, pre=nonzero, free=(), ordered=(), list_n=4, wide=(9,), wide_k=lambda n: (6,)),
]


def medcouple(T, z):
    """z ascending: the (count//2+1)-th largest of the kernel values of the observations around the median."""
    n = len(z)
    if n < 3:
        return T.const(0)
    med = z[n // 2] if n % 2 else (z[n // 2 - 1] + z[n // 2]) / 2
    up = [v for v in z if T.branch(T.gt(v, med))]
    lo = [v for v in z if T.branch(T.lt(v, med))]
    k = n - len(up) - len(lo)
    h = [(a - med - (med - b)) / (a - b) for a in up for b in lo]
    h += [T.const(1)] * (len(up) * k) + [T.const(-1)] * (len(lo) * k)          # one of the pair at the median
    h += [T.const(1)] * (k * (k - 1) // 2) + [T.const(0)] * k + [T.const(-1)] * (k * (k - 1) // 2)
    return T.sorted(h)[len(h) - 1 - len(h) // 2]


INV = [["0.8571890822945882", "-0.1051268907484579", "0.1051268907484580"], ["-0.1051268907484579", "0.3944817329840534", "-0.01109532299714422"],
       ["0.1051268907484579", "-0.01109532299714422", "0.3944817329840535"]]


def h_bhs(T, n, k, ties=0, rot=0):
    """Brys, Hubert and Struyf: medcouples of the sample and of its halves; all values fixed but the k-th."""
    b = background(n, "real")
    for i in range(ties):                       # some values at the median (odd n)
        b[n // 2 - (i + 1) // 2 if i % 2 else n // 2 + (i + 1) // 2] = b[n // 2]
    gap = Fraction(1, 2 ** 16)
    lo, hi = (b[k - 1] if k else b[0] - 4), (b[k + 1] if k + 1 < n else b[-1] + 6)
    x = T.var("x", lo=lo + gap, hi=hi - gap, suggest=lambda r: lo + (hi - lo) * Fraction(r.randrange(8, 56), 64))
    z = [x if i == k else T.frac(v.numerator, v.denominator) for i, v in enumerate(b)]
    got = T.get("statistics.goodness_of_fit.normal", "BHSNormalityGofStatistic")().execute_statistic(T.array(z[rot:] + z[:rot]))
    m = n // 2 + n % 2
    w = [medcouple(T, z), -medcouple(T, z[:m]) - T.const(Fraction("0.198828")), medcouple(T, z[m:]) - T.const(Fraction("0.198828"))]
    want = n * T.sum([T.const(Fraction(INV[i][j])) * w[i] * w[j] for i in range(3) for j in range(3)])
    T.check("statistic", T.lt(T.abs(got - want), T.frac(1, 10 ** 9)))


def bhs_jobs(tier, seed):
    kw = dict(seed=seed, max_paths=4000, budget_s=120, obl_timeout=8000)
    ns = (4, 5, 6, 7, 8, 9) + ((10, 11, 12) if tier == "thorough" else ())
    out = [Job("C17", f"BHS:n={n}:{k}", h_bhs, dict(n=n, k=k, rot=n // 3), **kw) for n in ns for k in sorted({0, n // 2 - 1, n - 1})
           if n != 8 or k != 3 or tier == "thorough"]
    return out + [Job("C17", f"BHS:ties={t}:n={n}:{k}", h_bhs, dict(n=n, k=k, ties=t, rot=1), **kw) for t, n, k in ((2, 5, 0), (2, 7, 6), (3, 7, 0), (3, 9, 8))]


def jobs(tier, seed):
    return table_jobs("C17", SPECS, tier, seed) + bhs_jobs(tier, seed)
