"""C37 statistics refuse parameters outside their family and samples outside its support."""
from .c07 import classes
from .common import *

ENCODED = ["constructors and hypothesis() of every concrete beta, gamma, uniform, lognormal and Student statistic", "_validate_rvs / _validate_input and execute_statistic "
           "of every concrete beta and uniform statistic", "execute_statistic of the gamma Lilliefors, Watson, Kuiper, Moran, PPCC, binned and graph statistics"]
BOUNDS = ("every real parameter value (pairs and triples at once); samples of 1..3 (4 thorough) symbolic values of which one, at any position, lies outside the interval, "
          "as array and as list; gamma Moran and Lilliefors: 2..3 arbitrary reals")
OUTSIDE = "nan; values that are not numbers; larger samples; samples on which other statistics are undefined"
G = "statistics.goodness_of_fit."

PAR = {"beta": ("alpha", "beta"), "gamma": ("alpha", "beta"), "uniform": ("a", "b"), "log_normal": ("s", "scale"), "student": ("df", "loc", "scale")}


def anything(r):
    return Fraction(r.randrange(-64, 129), 32)


def valid(T, fam, cls, p):
    if fam == "uniform":
        return T.lt(p["a"], p["b"])
    floor = 1 if cls.startswith("ModeBeta") else 0
    return T.and_(T.truth(True), *[T.gt(v, floor) for k, v in p.items() if k != "loc"])


def h_ctor(T, fam, cls, takes, extra):
    C = T.get(G + fam, cls)
    p = {k: T.var(k, suggest=anything) for k in PAR[fam] if k in takes}
    kw = dict(extra)
    if "alternative_type" in kw:
        kw["alternative_type"] = getattr(T.get("statistics.alternative", "AlternativeType"), kw["alternative_type"])
    ok = valid(T, fam, cls, p)
    refused = T.raises(lambda: C(**p, **kw), ValueError)
    T.check("refused exactly outside the family", T.iff(T.truth(refused), T.not_(ok)))
    if not refused:
        h = T.last.hypothesis().params
        # a Student hypothesis states location and scale only when they are not 0 and 1
        got = [h.get(k, T.const(0 if k == "loc" else 1)) for k in PAR[fam]] if fam == "student" else list(h.values())
        want = [p.get(k, T.const(1 if k != "loc" else 0)) for k in PAR[fam]]
        T.check("as many hypothesised parameters", T.truth(len(got) == len(want)))
        T.check_all_eq("the parameters hypothesised", got, want)


def h_outside(T, fam, cls, n, k, as_list, given):
    C = T.get(G + fam, cls)
    if fam == "uniform" and given:
        a = T.var("a", suggest=lambda r: Fraction(r.randrange(-16, 8), 8))
        w = T.var("w", lo=0, lo_open=True, suggest=lambda r: Fraction(r.randrange(1, 24), 8))
        st = C(a=a, b=a + w)
        lo, hi = a, a + w
    else:
        st, lo, hi = C(), T.const(0), T.const(1)
    xs = []
    for i in range(n):
        if i == k:
            x = T.var(f"x{i}", suggest=lambda r: Fraction(r.choice([-1, 1]) * r.randrange(1, 40), 8) + r.choice([0, 3]))
            T.assume(T.or_(T.lt(x, lo), T.gt(x, hi)))
        else:
            t = T.var(f"x{i}", lo=0, hi=1, suggest=lambda r: Fraction(r.randrange(1, 64), 64))
            x = lo + (hi - lo) * t
        xs.append(x)
    T.check("a sample with a value outside is refused", T.truth(T.raises(lambda: st.execute_statistic(list(xs) if as_list else T.array(xs)), ValueError)))


def h_empty(T, cls, n, as_list):
    st = T.get(G + "gamma", cls)()
    xs = [T.var(f"x{i}", lo=0, lo_open=True) for i in range(n)]
    T.check("too few observations are refused", T.truth(T.raises(lambda: st.execute_statistic(xs if as_list else T.array(xs)), ValueError)))


def h_moran(T, n):
    st = T.get(G + "gamma", "MoranGammaGofStatistic")()
    xs = [T.var(f"x{i}", suggest=lambda r: Fraction(r.randrange(-4, 13), 4)) for i in range(n)]
    bad = T.or_(*[T.le(x, 0) for x in xs], *[T.eq(xs[i], xs[j]) for i in range(n) for j in range(i)])
    T.check("refused exactly with ties or without support", T.iff(T.truth(T.raises(lambda: st.execute_statistic(T.array(xs)), ValueError)), bad))


def h_lilliefors(T, n):
    st = T.get(G + "gamma", "LillieforsGammaGofStatistic")()
    xs = [T.var(f"x{i}", suggest=lambda r: Fraction(r.randrange(-4, 13), 4)) for i in range(n)]
    bad = T.or_(T.le(T.sum(xs), 0), T.and_(*[T.eq(x, xs[0]) for x in xs[1:]]))
    T.check("refused exactly without a positive mean and variance", T.iff(T.truth(T.raises(lambda: st.execute_statistic(T.array(xs)), ValueError)), bad))


def h_bins(T):
    C = T.get(G + "gamma", "Chi2PearsonGammaGofStatistic")
    b = T.choose("bins", [-1, 0, 1, 2, 3])
    a = T.var("alpha", suggest=anything)
    refused = T.raises(lambda: C(bins=b, alpha=a), ValueError)
    T.check("refused exactly with fewer than two bins or a bad shape", T.iff(T.truth(refused), T.or_(T.truth(b < 2), T.le(a, 0))))


def jobs(tier, seed):
    th = tier == "thorough"
    out = []
    for fam in PAR:
        for cls, takes in classes(fam):
            extras = [{}]
            if "alternative_type" in takes:
                extras += [dict(alternative_type="LEFT"), dict(alternative_type="RIGHT")]
            if "bins" in takes and fam == "gamma":
                extras += [dict(bins=2), dict(bins=5)]
            if "k" in takes:
                extras += [dict(k=2)]
            if "test_type" in takes:
                extras += [dict(test_type="C"), dict(test_type="K")]
            for e in extras:
                t = ":".join(f"{k}={v}" for k, v in e.items())
                out.append(Job("C37", f"build:{fam}:{cls}{':' + t if t else ''}", h_ctor, dict(fam=fam, cls=cls, takes=takes, extra=e), seed=seed, budget_s=60))
    for fam in ("beta", "uniform"):
        for cls, takes in classes(fam):
            for n in (1, 2, 3, 4) if th else (1, 3):
                for k in range(n):
                    for as_list in (False, True):
                        if not th and as_list != (k == 1):
                            continue
                        given = (k + n) % 2 == 0 or n == 1
                        out.append(Job("C37", f"sample:{fam}:{cls}:n={n}:{k}:{'list' if as_list else 'array'}", h_outside,
                                       dict(fam=fam, cls=cls, n=n, k=k, as_list=as_list, given=given), seed=seed, budget_s=60))
    for cls, few in [("LillieforsGammaGofStatistic", 1), ("WatsonGammaGofStatistic", 1), ("KuiperGammaGofStatistic", 1), ("MoranGammaGofStatistic", 1),
                     ("ProbabilityPlotCorrelationGammaGofStatistic", 2), ("Chi2PearsonGammaGofStatistic", 1), ("LikelihoodRatioGammaGofStatistic", 1),
                     ("CressieReadGammaGofStatistic", 1), ("GraphEdgesNumberGammaGofStatistic", 1), ("GraphMaxDegreeGammaGofStatistic", 1),
                     ("GraphAverageDegreeGammaGofStatistic", 1), ("GraphConnectedComponentsGammaGofStatistic", 1), ("GraphIndependenceNumberGammaGofStatistic", 1),
                     ("GraphCliqueNumberGammaGofStatistic", 1)]:
        for n in range(few):
            for as_list in (False, True):
                out.append(Job("C37", f"few:{cls}:n={n}:{'list' if as_list else 'array'}", h_empty, dict(cls=cls, n=n, as_list=as_list), seed=seed, budget_s=60))
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        out.append(Job("C37", f"moran:n={n}", h_moran, dict(n=n), seed=seed, budget_s=60))
        if n > 1:
            out.append(Job("C37", f"lilliefors:n={n}", h_lilliefors, dict(n=n), seed=seed, budget_s=60))
    out.append(Job("C37", "bins", h_bins, {}, seed=seed))
    return out
