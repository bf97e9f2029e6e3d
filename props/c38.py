"""C38 side of rejection: a worse fit is never weaker evidence."""
from .c05 import GOF
from .common import *

ENCODED = ["alternative() of every statistic named below", "AbstractAlternativeFactory.get_concrete_factory", "PValueDecisionMethod.decide", "CriticalValueDecisionMethod.decide",
           "p-value and critical-value calculators", "critical areas"]
BOUNDS = ("reference samples of 1..3 (quick) / 1..4 (thorough) arbitrary reals, in ascending order, with ties; every pair of statistic values; every level in [0,1]; "
          "every distance-type and correlation-type statistic of every family, KS statistics with each direction")
OUTSIDE = "statistics with two-sided or family-specific evidence (moments ratios, spacings, entropy, likelihood ratio of spacings, graph invariants); larger reference samples"
ASSUMPTIONS = ["the reference sample is a stand-in returning arbitrary values; statistics, alternatives and decisions are the real code"]

G = "statistics.goodness_of_fit."
KS = {"normal": "KolmogorovSmirnovNormality", "exponent": "KolmogorovSmirnovExponentiality", "uniform": "KolmogorovSmirnovUniform", "gamma": "KolmogorovSmirnovGamma",
      "weibull": "KolmogorovSmirnovWeibull", "beta": "KolmogorovSmirnovBeta", "log_normal": "KolmogorovSmirnovLogNormal", "student": "KolmogorovSmirnovStudent"}
# distances between the sample and the law: large values are evidence
LARGE = {
    "normal": "AndersonDarlingNormality CramerVonMiseNormality LillieforsNormality JBNormality DAPNormality RobustJarqueBeraNormality Hosking1Normality Hosking2Normality "
              "Hosking3Normality Hosking4Normality EppsPulleyNormality ZhangWuANormality ZhangWuCNormality CabanaCabana1Normality CabanaCabana2Normality DoornikHansenNormality "
              "BontempsMeddahi1Normality BontempsMeddahi2Normality",
    "exponent": "CramerVonMisesExponentiality FroziniExponentiality HegazyGreen1Exponentiality HegazyGreen2Exponentiality KimberMichaelExponentiality AtkinsonExponentiality",
    "uniform": "AndersonDarlingUniform CrammerVonMisesUniform LillieforsTestUniform Chi2PearsonUniform WatsonUniform KuiperUniform BickelRosenblattUniform ZhangTestsUniform "
               "NeymanSmoothTestUniform ShermanUniform SteinUniform GreenwoodTestUniform",
    "gamma": "AndersonDarlingGamma CramerVonMisesGamma LillieforsGamma Chi2PearsonGamma LikelihoodRatioGamma CressieReadGamma WatsonGamma KuiperGamma MinToshiyukiGamma "
             "ProbabilityPlotCorrelationGamma GreenwoodGamma MoranGamma",
    "weibull": "AndersonDarlingWeibull CrammerVonMisesWeibull LillieforsWeibull Chi2PearsonWeibull WatsonWeibull MinToshiyukiWeibull LiaoShimokawaWeibull SPPWeibull "
               "MahdiDoostparastWeibull RSBWeibull LaplaceTransform2Weibull LaplaceTransform3Weibull CabanaQuirozWeibull ST1Weibull ST2Weibull",
    "beta": "AndersonDarlingBeta CrammerVonMisesBeta LillieforsTestBeta Chi2PearsonBeta WatsonBeta KuiperBeta MomentBasedBeta SkewnessKurtosisBeta RatioBeta EntropyBeta ModeBeta",
    "log_normal": "CramerVonMiseLogNormal AndersonDarlingLogNormal LillieforsLogNormal JBLogNormal DAPLogNormal RobustJarqueBeraLogNormal Hosking1LogNormal Hosking2LogNormal "
                  "Hosking3LogNormal Hosking4LogNormal EppsPulleyLogNormal CabanaCabana1LogNormal CabanaCabana2LogNormal DoornikHansenLogNormal",
    "student": "AndersonDarlingStudent CramerVonMisesStudent LillieforsStudent ChiSquareStudent WatsonStudent KuiperStudent ZhangZcStudent ZhangZaStudent",
}
# correlations of the sample with the law's quantiles: small values are evidence
SMALL = {
    "normal": "ShapiroWilkNormality SFNormality FilliNormality LooneyGulledgeNormality RyanJoinerNormality",
    "weibull": "REJGWeibull",
    "log_normal": "ShapiroWilkLogNormal SFLogNormal FilliLogNormal LooneyGulledgeLogNormal RyanJoinerLogNormal",
}


def make(T, mod, cls, direction=None):
    C = T.get(G + mod, cls + "GofStatistic")
    if direction is None:
        return C()
    return C(alternative_type=getattr(T.get("statistics.alternative", "AlternativeType"), direction))


def h_side(T, mod, cls, side, n, direction=None):
    st = make(T, mod, cls, direction)
    Res = T.get("hypothesis_testing.limit_distribution.base", "AbstractLimitDistributionResolver")
    ld = ascending(T, n, "r")

    class R(Res):
        def resolve(self, statistic, sample_size):
            return list(ld)

    M = T.mod(GOF)
    v = T.var("v", suggest=lambda r: Fraction(r.randrange(-512, 768), 256))
    w = T.var("w", suggest=lambda r: Fraction(r.randrange(-512, 1024), 256))
    a = T.var("alpha", lo=0, hi=1, suggest=lambda r: Fraction(r.randrange(1, 255), 256))
    T.assume(T.le(v, w) if side == "large" else T.le(w, v))
    P, C = M.PValueDecisionMethod(R()), M.CriticalValueDecisionMethod(R())
    pv, pw = P.decide(st, v, a, 10), P.decide(st, w, a, 10)
    T.check("a worse fit never has a larger p-value", T.le(pw.p_value, pv.p_value))
    T.check("a worse fit is rejected by its p-value whenever the better one is", T.implies(T.truth(pv.rejected), T.truth(pw.rejected)))
    cv, cw = C.decide(st, v, a, 10), C.decide(st, w, a, 10)
    T.check("a worse fit is beyond the critical value whenever the better one is", T.implies(T.truth(cv.rejected), T.truth(cw.rejected)))


def jobs(tier, seed):
    th = tier == "thorough"
    kw = dict(seed=seed, max_paths=20000, budget_s=900 if th else 120)
    out = []
    for mod, c in KS.items():
        for d in ("TWO_TAILED", "LEFT", "RIGHT"):
            for n in ((1, 2, 3) if th else (2,)):
                out.append(Job("C38", f"{mod}:{c}:{d}:n={n}", h_side, dict(mod=mod, cls=c, side="large", n=n, direction=d), **kw))
    for side, tab in (("large", LARGE), ("small", SMALL)):
        for mod, cs in tab.items():
            for c in cs.split():
                for n in ((1, 2, 3, 4) if th else (1, 3) if c in ("AndersonDarlingNormality", "ShapiroWilkNormality") else (2,)):
                    out.append(Job("C38", f"{mod}:{c}:n={n}", h_side, dict(mod=mod, cls=c, side=side, n=n), **kw))
    return out
