"""C19 uniformity statistics against their published definitions."""
import math
from math import comb

from .gof import *

M = G + "uniform"
ENCODED = ["execute_statistic and _validate_input of every uniformity statistic (graph statistics: C16)"]
BOUNDS = ("size 2-3 in every order and sizes 4-5 in sampled orders (6-7 thorough) with all observations, a and b symbolic; sizes up to 33 with one "
          "observation symbolic and the rest fixed; closed interval [a,b] where the statistic is finite there; Neyman orders 1-4 and 6; Bickel-Rosenblatt "
          "size 2 with bandwidth 1/4; censored statistic sizes 3 and 9 without ties")
OUTSIDE = "nan observations, sizes beyond the bounds, the 'auto' bin rule and automatic bandwidth with a symbolic standard deviation"


def ab(T):
    a = T.var("a", lo=-5, hi=5, suggest=Fraction(-1, 2))
    w = T.var("width", lo=0, hi=9, lo_open=True, suggest=Fraction(5, 2))
    return dict(a=a, b=a + w), dict(a=a, b=a + w)


def a01(T):
    return {}, dict(a=T.const(0), b=T.const(1), plain=(0, 1))


def a25(T):
    return dict(a=2, b=5), dict(a=T.const(2), b=T.const(5), plain=(2, 5))


def more(params, **kw):
    def f(T):
        k, p = params(T)
        return dict(k, **kw), dict(p, **kw)
    return f


def alt(params, name):
    def f(T):
        k, p = params(T)
        a = T.get("statistics.alternative", "AlternativeType")
        return dict(k, alternative_type={"two": a.TWO_TAILED, "plus": a.RIGHT, "minus": a.LEFT}[name]), dict(p, side=name)
    return f


def inside(T, p):
    return p.get("plain") or (p["a"], p["b"])


def closed(T, p):
    return (p["plain"] + ("closed",)) if "plain" in p else (p["a"], p["b"])


def u(T, x, p):
    return [(v - p["a"]) / (p["b"] - p["a"]) for v in x]


def ks_(T, x, p, raw):
    return ks(T, u(T, x, p), p.get("side", "two"))


def ad_(T, x, p, raw):
    f = u(T, x, p)
    return ad(T, [T.log(v) for v in f], [T.log(1 - v) for v in f])


def cvm_(T, x, p, raw):
    return cvm(T, u(T, x, p))


def wat(T, x, p, raw):
    return watson(T, u(T, x, p))


def kui(T, x, p, raw):
    return kuiper(T, u(T, x, p))


def gaps(T, f):
    e = [T.const(0)] + list(f) + [T.const(1)]
    return [b - a for a, b in zip(e, e[1:])]


def green(T, x, p, raw):
    return T.sum([d * d for d in gaps(T, u(T, x, p))])


def zha(T, x, p, raw):
    n = len(x)
    return -T.sum([T.log(f) / T.frac(2 * (n - i) + 1, 2) + T.log(1 - f) / T.frac(2 * i - 1, 2) for i, f in enumerate(u(T, x, p), 1)])


def zhc(T, x, p, raw):
    n = len(x)
    return T.sum([T.log((1 / f - 1) / (T.const(Fraction(4 * n - 2, 4 * i - 3)) - 1)) ** 2 for i, f in enumerate(u(T, x, p), 1)])


def zhk(T, x, p, raw):
    n = len(x)
    h = lambda i: T.frac(2 * i - 1, 2)
    return T.max([h(i) * T.log(h(i) / (n * f)) + (n - h(i)) * T.log((n - h(i)) / (n * (1 - f))) for i, f in enumerate(u(T, x, p), 1)])


def stein(T, x, p, raw):
    f = u(T, x, p)
    n = len(f)
    h = lambda a, b: T.max(a, b) - a - b + (a * a + b * b) / 2
    return T.sum([h(f[i], f[j]) for i in range(n) for j in range(i + 1, n)]) * 2 / (n * (n - 1))


def legendre(T, j, y):
    """Shifted Legendre polynomial of degree j on [0,1]."""
    return T.sum([(-1) ** (j + k) * comb(j, k) * comb(j + k, k) * y ** k for k in range(j + 1)])


def ney(T, x, p, raw):
    f = u(T, x, p)
    return T.sum([(2 * j + 1) * T.sum([legendre(T, j, v) for v in f]) ** 2 for j in range(1, p.get("k", 4) + 1)]) / len(x)


def edges(T, x, p):
    e = [p["a"]] + list(x) + [p["b"]]
    return [b - a for a, b in zip(e, e[1:])]


def sher(T, x, p, raw):
    d = edges(T, x, p)
    return T.sum([T.abs(v - (p["b"] - p["a"]) / len(d)) for v in d]) / 2


def qm(T, x, p, raw):
    d = edges(T, x, p)
    return T.sum([v * v for v in d]) + T.sum([v * w for v, w in zip(d, d[1:])])


def chi2(T, x, p, raw):
    n = len(x)
    b = p.get("bins", "sturges")
    m = {"sturges": math.ceil(math.log2(n) + 1), "sqrt": math.ceil(math.sqrt(n))}.get(b, 10) if isinstance(b, str) else b
    m = max(2, m)
    f = u(T, x, p)
    lam = p.get("lambda_", 1)
    tot = []
    for k in range(m):
        lo, hi = T.frac(k, m), T.frac(k + 1, m)
        o = count(T, [T.and_(T.ge(v, lo), T.le(v, hi) if k == m - 1 else T.lt(v, hi)) for v in f])
        e = T.frac(n, m)
        if lam == 1:
            tot.append((o - e) ** 2 / e)
        elif lam == 0:
            tot.append(T.sum([T.ite(T.eq(o, j), 2 * j * T.log(T.frac(j, 1) / e), T.const(0)) for j in range(1, n + 1)]))
        else:
            tot.append(o * (T.pow(o / e, T.const(lam)) - 1) * 2 / (lam * (lam + 1)))
    return T.sum(tot)


def bick(T, x, p, raw):
    n, h = len(x), T.const(p["bandwidth"])
    f = u(T, x, p)
    pdf = T.dist("norm").pdf
    tot = []
    for g in range(1000):
        k = T.sum([pdf((T.frac(g, 999) - v) / h) for v in f]) / (n * h)
        tot.append((k - 1) ** 2)
    return T.sum(tot) / 999


def cens(T, x, p, raw):
    n = len(x)
    f = u(T, raw, p)
    d = p["delta"]
    # survival curve of the censoring times
    def surv(t):
        s = T.const(1)
        for j in range(n):
            if d[j]:
                risk = n - count(T, [T.lt(f[k], f[j]) for k in range(n)])
                s = s * T.ite(T.le(f[j], t), 1 - 1 / risk, T.const(1))
        return T.max(s, T.const(Fraction(1, 10 ** 10)))
    live = [j for j in range(n) if not d[j]]
    h = lambda a, b: T.max(a, b) - a - b + (a * a + b * b) / 2
    prs = [(i, j) for k, i in enumerate(live) for j in live[k + 1:]]
    if not prs:
        return T.const(0)
    return 2 * T.sum([h(f[i], f[j]) / (surv(f[i]) * surv(f[j])) for i, j in prs]) / len(prs)


CLOSED = ("CrammerVonMises", "LillieforsTest", "Watson", "Kuiper", "GreenwoodTest", "Stein", "CensoredStein", "Sherman", "QuesenberryMiller",
          "NeymanSmoothTest", "KolmogorovSmirnov", "Chi2Pearson")


def S(cls, ref, params=ab, **k):
    k.setdefault("wide", (9, 16))
    return dict(mod=M, cls=cls + "UniformGofStatistic", ref=ref, dom=closed if cls in CLOSED else inside, params=params, **k)


SPECS = []
for c, r in [("AndersonDarling", ad_), ("CrammerVonMises", cvm_), ("LillieforsTest", ks_), ("Watson", wat), ("Kuiper", kui), ("GreenwoodTest", green),
             ("Stein", stein), ("CensoredStein", stein), ("Sherman", sher), ("QuesenberryMiller", qm), ("NeymanSmoothTest", ney)]:
    SPECS += [S(c, r, id=c, wide=()), S(c, r, params=a01, id=c + ":01", free=(2,), ordered=(4,), list=False),
              S(c, r, params=a25, id=c + ":25", free=(), ordered=(), list=False, wide=(9, 16, 33))]
for side in ("two", "plus", "minus"):
    SPECS += [S("KolmogorovSmirnov", ks_, params=alt(ab, side), id=f"KS:{side}", wide=()),
              S("KolmogorovSmirnov", ks_, params=alt(a01, side), id=f"KS:{side}:01", free=(2,), ordered=(4,), list=False)]
for t, r in (("A", zha), ("C", zhc), ("K", zhk)):
    SPECS += [S("ZhangTests", r, params=more(ab, test_type=t), id=f"Zhang:{t}", wide=()),
              S("ZhangTests", r, params=more(a01, test_type=t), id=f"Zhang:{t}:01", free=(2,), ordered=(4,), list=False)]
for k in (1, 2, 3, 6):
    SPECS += [S("NeymanSmoothTest", ney, params=more(a01, k=k), id=f"Neyman:k={k}", free=(2,), ordered=(), list=False, wide=(9,))]
for b in ("sturges", "sqrt", "ten", 3):
    SPECS += [S("Chi2Pearson", chi2, params=more(ab, bins=b), id=f"Chi2:{b}", ordered=(4,), wide=()),
              S("Chi2Pearson", chi2, params=more(a25, bins=b), id=f"Chi2:{b}:25", free=(), ordered=(), list=False, wide=(8, 9, 17, 33))]
SPECS += [S("Chi2Pearson", chi2, params=more(a01, bins=3, lambda_=0), id="Chi2:G", free=(3,), ordered=(), list=False, wide=()),
          S("Chi2Pearson", chi2, params=more(a01, bins=2, lambda_=2), id="Chi2:lambda=2", free=(3,), ordered=(), list=False, wide=()),
          S("BickelRosenblatt", bick, params=more(a01, bandwidth=0.25), id="Bickel:h=1/4", free=(), ordered=(), list=False, wide=(2,))]


def distinct(T, xs, p):
    for i, x in enumerate(xs):
        for y in xs[:i]:
            T.assume(T.not_(T.eq(x, y)))


def cens_kw(delta, arr=True):
    def f(T):
        return dict(censoring_indices=T.array(list(delta)) if arr else list(delta)), dict(delta=delta)
    return f


for d in ((1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 0)):
    SPECS += [S("CensoredStein", cens if any(d) else stein, params=a01, kw=cens_kw(d), pre=distinct, id="Censored:" + "".join(map(str, d)), free=(3,), ordered=(), list=False, wide=())]
SPECS += [S("CensoredStein", stein, params=a01, kw=cens_kw((0, 0, 0), False), id="Censored:list", free=(3,), ordered=(), list=False, wide=()),
          S("CensoredStein", cens, params=a25, kw=cens_kw((0, 1, 0, 1, 0, 0, 1, 0, 0)), id="Censored:9", free=(), ordered=(), list=False, wide=(9,))]


def h_range(T, cls, kw, n):
    """Values outside [a,b] are refused, values inside accepted."""
    k, p = ab(T)
    st = T.get(M, cls)(**k, **kw)
    xs = [T.var(f"x{i}", lo=-20, hi=20, suggest=(lambda r: Fraction(r.randrange(-64, 128), 16))) for i in range(n)]
    out = T.or_(*[T.or_(T.lt(v, p["a"]), T.gt(v, p["b"])) for v in xs])
    res = T.raises(lambda: st.execute_statistic(T.array(xs)), ValueError)
    T.check("refused iff outside", T.iff(out, T.truth(res)))


def jobs(tier, seed):
    out = table_jobs("C19", SPECS, tier, seed)
    for cls, kw in [(c, {}) for c in CLOSED + ("AndersonDarling", "ZhangTests", "BickelRosenblatt")]:
        out.append(Job("C19", f"range:{cls}", h_range, dict(cls=cls + "UniformGofStatistic", kw=kw, n=2), max_paths=2000, seed=seed))
    return out
