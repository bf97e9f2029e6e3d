"""C23 lognormal statistics: the normality statistic of the standardised logarithms, and the direct ones against their definitions."""
from . import c17
from .gof import *

M = G + "log_normal"
ENCODED = ["execute_statistic of every generated lognormal class and of the Kolmogorov-Smirnov, Cramer-von Mises and Quesenberry-Miller ones",
           "execute_statistic of the normality classes they call", "AbstractLogNormalGofStatistic.__init__", "hypothesis"]
BOUNDS = ("logarithms of all observations, shape s and scale symbolic at sizes 2-5; sizes 8, 9 and 16 with one observation symbolic; "
          "one observation at most zero: sizes 2-3, every position")
OUTSIDE = "the Kullback-Leibler supremum and integral statistics (a 1000 point grid of powers, and numerical quadrature), nan, sizes beyond the bounds"


def ss(T):
    s = T.var("s", lo=0, lo_open=True, hi=9, suggest=Fraction(3, 2))
    c = T.var("scale", lo=0, lo_open=True, hi=9, suggest=Fraction(5, 4))
    return dict(s=s, scale=c), dict(s=s, scale=c)


def s23(T):
    return dict(s=2, scale=3), dict(s=T.const(2), scale=T.const(3))


def s21(T):
    return dict(s=2), dict(s=T.const(2), scale=T.const(1))


def default(T):
    return {}, dict(s=T.const(1), scale=T.const(1))


def via(T, y, p):
    return T.exp(y)


def z(T, x, p):
    return [(T.log(v) - T.log(p["scale"])) / p["s"] for v in x]


def derived(base, params):
    def ref(T, x, p, raw):
        return base["ref"](T, z(T, x, p), p, z(T, raw, p))

    pre = None
    if base.get("pre"):
        def pre(T, ys, p):
            base["pre"](T, [(v - T.log(p["scale"])) / p["s"] for v in ys], p)
    return dict(mod=M, cls=base["cls"].replace("Normality", "LogNormal"), ref=ref, dom="real", via=via, params=params, pre=pre)


def F(T, x, p):
    return [T.dist("lognorm").cdf(v / p["scale"], p["s"]) for v in x]


def D(cls, ref, params, **k):
    return dict(mod=M, cls=cls + "LogNormalGofStatistic", ref=ref, dom="pos", params=params, **k)


def distinct(T, xs, p):
    for i, x in enumerate(xs):
        for y in xs[:i]:
            T.assume(T.not_(T.eq(x, y)))


SPECS = []
DERIVED = []
for b in c17.SPECS:
    if b.get("params") or b.get("id") == "Kurtosis:light" or b["cls"] in ("KolmogorovSmirnovNormalityGofStatistic", "CramerVonMiseNormalityGofStatistic"):
        continue
    nm = b.get("id", b["cls"].replace("NormalityGofStatistic", ""))
    DERIVED.append(b["cls"].replace("Normality", "LogNormal"))
    fr, od, wd = b.get("free", ()), b.get("ordered", (4, 5)), b.get("wide", (9, 16))
    heavy = not fr and not od
    if not heavy:
        n = (fr or od)[0]
        SPECS += [dict(derived(b, ss), id=nm, free=fr[:1], ordered=() if fr else od[:1], wide=(), list=True, list_n=n),
                  dict(derived(b, default), id=nm + ":default", free=(), ordered=(n,), wide=(), list=False)]
    if wd or heavy:
        m = 9 if 9 in wd else wd[0] if wd else 9
        SPECS.append(dict(derived(b, s23), id=nm + ":23", free=(), ordered=(), list=False, wide=(m,), wide_k=b.get("wide_k") if "Desgagne" in b["cls"] else (lambda m: lambda n: (0, n - 1))(m)))
for side in ("two", "plus", "minus"):
    r = (lambda s: lambda T, x, p, raw: ks(T, F(T, x, p), s))(side)
    SPECS += [D("KolmogorovSmirnov", r, side_params(ss, side), id="KS:" + side, wide=()),
              D("KolmogorovSmirnov", r, side_params(s21, side), id="KS:21:" + side, free=(), ordered=(), list=False)]
for c, f in (("KolmogorovSmirnov", lambda T, F_: ks(T, F_, "two")), ("CramerVonMise", cvm), ("QuesenberryMiller", quesenberry)):
    r = (lambda f: lambda T, x, p, raw: f(T, F(T, x, p)))(f)
    if c != "KolmogorovSmirnov":
        SPECS += [D(c, r, ss, id=c, wide=()), D(c, r, s21, id=c + ":21", free=(), ordered=(), list=False)]
    SPECS += [D(c, r, default, id=c + ":default", free=(), ordered=(4,), list=False, wide=())]


def h_nonpos(T, cls, n, k):
    """An observation that is zero or negative makes the statistic infinite, whatever the others are."""
    xs = [T.var(f"x{i}", lo=-5, hi=9, suggest=(lambda r: Fraction(r.randrange(1, 64), 8))) for i in range(n)]
    T.assume(T.le(xs[k], 0))
    kw, p = ss(T)
    got = T.get(M, cls)(**kw).execute_statistic(T.array(xs))
    T.check("infinite", got == float("inf"))


def h_params(T, cls):
    s = T.var("s", lo=-3, hi=9, suggest=Fraction(3, 2))
    c = T.var("scale", lo=-3, hi=9, suggest=Fraction(5, 4))
    bad = T.or_(T.le(s, 0), T.le(c, 0))
    kind, st = T.run(lambda: T.get(M, cls)(s=s, scale=c))
    T.check("refused iff not positive", T.iff(bad, T.truth(kind == "ValueError" or isinstance(st, ValueError))))
    if kind == "ok":
        h = st.hypothesis().parameters()
        T.check("number of parameters", T.truth(len(h) == 2))
        T.check_all_eq("hypothesis", h, [s, c])


def jobs(tier, seed):
    out = table_jobs("C23", SPECS, tier, seed)
    for c in DERIVED:
        for n, k in ((2, 0), (3, 2)) if tier != "thorough" else [(n, k) for n in (2, 3, 4) for k in range(n)]:
            out.append(Job("C23", f"nonpositive:{c}:n={n}:{k}", h_nonpos, dict(cls=c, n=n, k=k), seed=seed))
    for c in ("KolmogorovSmirnovLogNormalGofStatistic", "CramerVonMiseLogNormalGofStatistic", "QuesenberryMillerLogNormalGofStatistic",
              "ShapiroWilkLogNormalGofStatistic", "AndersonDarlingLogNormalGofStatistic"):
        out.append(Job("C23", f"parameters:{c}", h_params, dict(cls=c), seed=seed))
    return out
