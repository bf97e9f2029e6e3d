"""C24 Student-t goodness-of-fit statistics against their published definitions."""
from .gof import *

M = G + "student"
ENCODED = ["execute_statistic and constructors of every Student goodness-of-fit statistic"]
BOUNDS = ("size 2-3 in every order, 4-5 in sampled orders (6-7 thorough), with observations, degrees of freedom, location and scale symbolic; sizes up "
          "to 16 with one observation symbolic; chi-squared with 2-4 cells, sizes up to 9 (one observation symbolic)")
OUTSIDE = "nan and infinite observations, sizes and cell counts beyond the bounds, observations in the clipped tails (cdf below 1e-10 or above 1-1e-10) for ZhangZa and ZhangZc"


def par(T):
    d = T.var("df", lo=0, lo_open=True, hi=30, suggest=Fraction(5, 2))
    m = T.var("loc", lo=-5, hi=5, suggest=Fraction(1, 4))
    s = T.var("scale", lo=0, lo_open=True, hi=9, suggest=Fraction(3, 2))
    return dict(df=d, loc=m, scale=s), dict(df=d, loc=m, scale=s)


def fixed(T):
    return dict(df=4, loc=0.5, scale=2), dict(df=T.const(4), loc=T.frac(1, 2), scale=T.const(2))


def default(T):
    return {}, dict(df=T.const(1), loc=T.const(0), scale=T.const(1))


def only_df(T):
    d = T.var("df", lo=0, lo_open=True, hi=30, suggest=Fraction(5, 2))
    return dict(df=d), dict(df=d, loc=T.const(0), scale=T.const(1))


def z(x, p):
    return [(v - p["loc"]) / p["scale"] for v in x]


def F(T, x, p):
    return [T.dist("t").cdf(v, p["df"]) for v in z(x, p)]


def edf(f):
    return lambda T, x, p, raw: f(T, F(T, x, p))


def ad_(T, x, p, raw):
    t = T.dist("t")
    return ad(T, [t.logcdf(v, p["df"]) for v in z(x, p)], [t.logsf(v, p["df"]) for v in z(x, p)])


def body(T, xs, p):
    e = T.const(Fraction(1, 10 ** 10))
    for f in F(T, xs, p):
        T.assume(T.and_(T.gt(f, e), T.lt(f, 1 - e)))


def cells(T, x, p, raw):
    m = p["n_bins"]
    e = [T.dist("t").ppf(T.frac(k, m), p["df"]) for k in range(1, m)]
    return binned(T, z(x, p), e, [T.frac(len(x), m)] * m)


def place(T, xs, p):
    for k in range(1, p["n_bins"]):
        e = T.dist("t").ppf(T.frac(k, p["n_bins"]), p["df"])
        for v in z(xs, p):
            T.branch(T.lt(v, e))


def S(cls, ref, params=par, **k):
    return dict(mod=M, cls=cls + "StudentGofStatistic", ref=ref, dom="real", params=params, **k)


SPECS = []
for side in ("two", "plus", "minus"):
    r = (lambda s: lambda T, x, p, raw: ks(T, F(T, x, p), s))(side)
    SPECS += [S("KolmogorovSmirnov", r, side_params(par, side), id="KS:" + side, wide=()),
              S("KolmogorovSmirnov", r, side_params(fixed, side), id="KS:fixed:" + side, free=(), ordered=(), list=False)]
SPECS += [S("KolmogorovSmirnov", edf(lambda T, f: ks(T, f, "two")), default, id="KS:default", wide=())]
for c, r, pre in (("AndersonDarling", ad_, None), ("CramerVonMises", edf(cvm), None), ("Kuiper", edf(kuiper), None), ("Watson", edf(watson), None),
                  ("ZhangZc", edf(zhang_c), body), ("ZhangZa", edf(zhang_a), body)):
    SPECS += [S(c, r, id=c, wide=(), pre=pre), S(c, r, fixed, id=c + ":fixed", free=(), ordered=(), list=False, pre=pre),
              S(c, r, default, id=c + ":default", free=(), ordered=(4,), list=False, wide=(), pre=pre)]
SPECS += [S("Lilliefors", edf(lambda T, f: ks(T, f, "two")), only_df, id="Lilliefors", wide=()),
          S("Lilliefors", edf(lambda T, f: ks(T, f, "two")), default, id="Lilliefors:default", free=(), ordered=(4,), list=False)]
for m in (2, 3, 4):
    SPECS += [S("ChiSquare", cells, with_kw(fixed, n_bins=m), id=f"Chi2:bins={m}", free=(2, 3), ordered=(), list=m == 2, wide=(9,), wide_k=lambda n: (0, 4), pre=place)]
SPECS += [S("ChiSquare", cells, with_kw(par, n_bins=2), id="Chi2:symbolic", free=(2,), ordered=(), list=False, wide=(), pre=place),
          S("ChiSquare", lambda T, x, p, raw: cells(T, x, dict(p, n_bins=10), raw), default, id="Chi2:default", free=(), ordered=(), list=False, wide=(9,))]


def h_tail(T, cls, hi):
    """Observations far in a tail count as the clipping constant, so the value stays finite and stops growing."""
    kw, p = default(T)
    e = T.const(Fraction(1, 10 ** 10))
    xs = [T.var("x0", lo=-3, hi=3, suggest=Fraction(1, 2)), T.var("x1", suggest=Fraction(10 ** 12 if hi else -10 ** 12))]
    f = F(T, xs, p)
    T.assume(T.and_(T.gt(f[0], e), T.lt(f[0], 1 - e)))
    if T.real:        # the float comparison with 1 - 1e-10 is within the replay tolerance
        T.assume(T.gt(T.abs(xs[1]), 10 ** 11))
    else:
        T.assume(T.gt(f[1], 1 - e) if hi else T.lt(f[1], e))
    G_ = [f[0], 1 - e] if hi else [e, f[0]]
    got = T.get(M, cls + "StudentGofStatistic")().execute_statistic(T.array(xs))
    T.check_eq("statistic", got, (zhang_a if cls == "ZhangZa" else zhang_c)(T, G_))


def h_params(T, cls):
    """Non-positive degrees of freedom or scale are refused, others accepted."""
    d = T.var("df", lo=-5, hi=5, suggest=(lambda r: Fraction(r.randrange(-16, 64), 16)))
    s = T.var("scale", lo=-5, hi=5, suggest=(lambda r: Fraction(r.randrange(-16, 64), 16)))
    C = T.get(M, cls + "StudentGofStatistic")
    lil = cls == "Lilliefors"
    kind, st = T.run(lambda: C(df=d) if lil else C(df=d, scale=s))
    ok = T.gt(d, 0) if lil else T.and_(T.gt(d, 0), T.gt(s, 0))
    T.check("accepted iff valid", T.iff(ok, T.truth(kind == "ok")))
    if kind == "ok":
        T.check_eq("df", st.hypothesis().parameters()[0], d)
    else:
        T.check("ValueError", isinstance(st, ValueError))


def jobs(tier, seed):
    out = table_jobs("C24", SPECS, tier, seed)
    for c in ("ZhangZa", "ZhangZc"):
        out += [Job("C24", f"tail:{c}:{h}", h_tail, dict(cls=c, hi=h), seed=seed) for h in (False, True)]
    for c in ("KolmogorovSmirnov", "AndersonDarling", "CramerVonMises", "Kuiper", "Watson", "ZhangZc", "ZhangZa", "Lilliefors", "ChiSquare"):
        out.append(Job("C24", f"parameters:{c}", h_params, dict(cls=c), seed=seed))
    return out
