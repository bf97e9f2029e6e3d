"""C05 end-to-end decisions of a goodness-of-fit test."""
from .common import *
from .c03 import ref_p
from .c04 import quantile

ENCODED = ["GoodnessOfFitTest.test", "PValueDecisionMethod.decide", "CriticalValueDecisionMethod.decide",
           "LeftCriticalArea.contains", "RightCriticalArea.contains", "TwoSidedCriticalArea.contains",
           "AbstractAlternativeFactory.get_concrete_factory", "Left/Right/TwoSided p-value and critical-value calculators"]
BOUNDS = ("reference samples of 1..4 (quick) / 1..5 (thorough) arbitrary reals in any order with ties; any real statistic value; all "
          "significance levels in [0,1]; all three alternatives; samples of 0..4 observations")
OUTSIDE = "larger reference samples; nan values; the reference sample itself (C06) and the calculators' larger sizes (C03, C04)"
ASSUMPTIONS = ["the reference source and the statistic are stand-ins returning arbitrary values; everything between them is the real code"]
GOF = "hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test"


def fake(T, side, value, ld, log):
    alt = T.mod("statistics.alternative")
    A = {"left": alt.LeftAlternative, "right": alt.RightAlternative, "two": alt.TwoSidedAlternative}[side]
    Base = T.get("statistics.statistic", "AbstractGoodnessOfFitStatistic")
    Res = T.get("hypothesis_testing.limit_distribution.base", "AbstractLimitDistributionResolver")

    class S(Base):
        def hypothesis(self):
            raise AssertionError("hypothesis not needed")

        def alternative(self):
            return A()

        @staticmethod
        def short_code():
            return "S"

        @staticmethod
        def distribution():
            return None

        def execute_statistic(self, rvs):
            log.append(("execute", rvs))
            return value

    class R(Res):
        def resolve(self, statistic, sample_size):
            log.append(("resolve", statistic, sample_size))
            return None if ld is None else list(ld)

    return S(), R()


def setup(T, side, n, order=None):
    ld = free(T, n, "r") if order is None else perm(ascending(T, n, "r"), order)
    s = T.var("s", suggest=lambda r: Fraction(r.randrange(-512, 768), 256))
    a = T.var("alpha", lo=0, hi=1, suggest=lambda r: Fraction(r.randrange(1, 255), 256))
    return ld, s, a


def same(T, label, cond):
    T.check(label, T.truth(bool(cond)))


def h_pvalue(T, side, n, m, order=None):
    ld, s, a = setup(T, side, n, order)
    log = []
    stat, res = fake(T, side, s, ld, log)
    G = T.mod(GOF)
    sample = observed(T, m)
    r = G.GoodnessOfFitTest(stat).test(sample, a, G.PValueDecisionMethod(res))
    p = ref_p(T, side, ld, s)
    T.check_eq("reported statistic", r.statistic, s)
    T.check_eq("reported level", r.significance_level, a)
    T.check_eq("reported p-value", r.p_value, p)
    same(T, "no critical value reported", r.critical_value is None)
    T.check("rejected iff p <= level", T.iff(T.truth(r.rejected), T.le(p, a)))
    calls(T, log, stat, sample, m)


def observed(T, m):
    """An arbitrary sample; the last observation repeats the first."""
    xs = free(T, m, "x")
    return xs if m < 2 else xs[:-1] + xs[:1]


def calls(T, log, stat, sample, m):
    ex = [e for e in log if e[0] == "execute"]
    rs = [e for e in log if e[0] == "resolve"]
    same(T, "statistic computed on the sample", len(ex) >= 1 and all(e[1] is sample or list(e[1]) == sample for e in ex))
    same(T, "reference asked for this statistic and sample size", len(rs) >= 1 and all(e[1] is stat and e[2] == m for e in rs))


def h_cv(T, side, n, m, order=None):
    ld, s, a = setup(T, side, n, order)
    log = []
    stat, res = fake(T, side, s, ld, log)
    G = T.mod(GOF)
    sample = observed(T, m)
    r = G.GoodnessOfFitTest(stat).test(sample, a, G.CriticalValueDecisionMethod(res))
    xs = T.sorted(ld)
    T.check_eq("reported statistic", r.statistic, s)
    T.check_eq("reported level", r.significance_level, a)
    same(T, "no p-value reported", r.p_value is None)
    if side == "two":
        lo, hi = quantile(T, xs, a / 2), quantile(T, xs, 1 - a / 2)
        T.check_eq("lower critical value", r.critical_value[0], lo)
        T.check_eq("upper critical value", r.critical_value[1], hi)
        want = T.or_(T.lt(s, lo), T.gt(s, hi))
    elif side == "left":
        c = quantile(T, xs, a)
        T.check_eq("critical value", r.critical_value, c)
        want = T.lt(s, c)
    else:
        c = quantile(T, xs, 1 - a)
        T.check_eq("critical value", r.critical_value, c)
        want = T.gt(s, c)
    T.check("rejected iff beyond the critical value", T.iff(T.truth(r.rejected), want))
    calls(T, log, stat, sample, m)


def h_area(T, side):
    M = T.mod("hypothesis_testing.critical_values.critical_area.critical_areas")
    v = T.var("v")
    c = T.var("c")
    if side == "two":
        d = T.var("d")
        T.assume(T.le(c, d))
        alt = T.get("statistics.alternative", "AlternativeType").TWO_TAILED
        F = T.get("hypothesis_testing.alternative_factory.alternative_factories", "AbstractAlternativeFactory").get_concrete_factory(alt)
        for area in (M.TwoSidedCriticalArea(c, d), F.get_critical_area((c, d))):
            T.check("inside", T.iff(T.truth(area.contains(v)), T.and_(T.le(c, v), T.le(v, d))))
            T.check("lower border", T.truth(area.contains(c)))
            T.check("upper border", T.truth(area.contains(d)))
        return
    at = T.get("statistics.alternative", "AlternativeType")
    F = T.get("hypothesis_testing.alternative_factory.alternative_factories", "AbstractAlternativeFactory")
    f = F.get_concrete_factory(at.LEFT if side == "left" else at.RIGHT)
    for area in ((M.LeftCriticalArea if side == "left" else M.RightCriticalArea)(c), f.get_critical_area(c)):
        T.check("inside", T.iff(T.truth(area.contains(v)), T.ge(v, c) if side == "left" else T.le(v, c)))
        T.check("border", T.truth(area.contains(c)))


def h_none(T, side, method):
    s = T.var("s")
    a = T.var("alpha", lo=0, hi=1)
    stat, res = fake(T, side, s, None, [])
    G = T.mod(GOF)
    M = G.PValueDecisionMethod(res) if method == "p" else G.CriticalValueDecisionMethod(res)
    same(T, "missing reference sample is reported",
         T.raises(lambda: G.GoodnessOfFitTest(stat).test([T.frac(1), T.frac(2)], a, M), ValueError))


def h_agree(T, side, n):
    """Rejection is monotone in the level, and a p-value rejection at level a is a rejection at every higher level."""
    ld, s, a = setup(T, side, n)
    b = T.var("beta", lo=0, hi=1, suggest=lambda r: Fraction(r.randrange(1, 255), 256))
    T.assume(T.le(a, b))
    stat, res = fake(T, side, s, ld, [])
    G = T.mod(GOF)
    for m in (G.PValueDecisionMethod(res), G.CriticalValueDecisionMethod(res)):
        ra = G.GoodnessOfFitTest(stat).test([T.frac(1)], a, m)
        rb = G.GoodnessOfFitTest(stat).test([T.frac(1)], b, m)
        T.check("rejection is monotone in the level", T.implies(T.truth(ra.rejected), T.truth(rb.rejected)))


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    kw = dict(seed=seed, max_paths=20000, budget_s=1800 if th else 150)
    for side in ("left", "right", "two"):
        for n in range(1, 6 if th else 4):
            out.append(Job("C05", f"p:{side}:n={n}", h_pvalue, dict(side=side, n=n, m=n), **kw))
        for n in range(1, 5 if th else 3):
            out.append(Job("C05", f"cv:{side}:n={n}", h_cv, dict(side=side, n=n, m=n + 1), **kw))
        for n in ((4, 5) if th else (4,)):
            for o in perms(n, 3):
                t = "".join(map(str, o))
                out.append(Job("C05", f"p:{side}:order={t}", h_pvalue, dict(side=side, n=n, m=2, order=o), **kw))
                out.append(Job("C05", f"cv:{side}:order={t}", h_cv, dict(side=side, n=n, m=3, order=o), **kw))
        out.append(Job("C05", f"area:{side}", h_area, dict(side=side), **kw))
        for m in ("p", "cv"):
            out.append(Job("C05", f"none:{side}:{m}", h_none, dict(side=side, method=m), **kw))
        for n in range(1, 4 if th else 3):
            out.append(Job("C05", f"monotone:{side}:n={n}", h_agree, dict(side=side, n=n), **kw))
    return out
