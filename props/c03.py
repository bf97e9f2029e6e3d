"""C03 empirical p-values."""
from .common import *

ENCODED = ["LeftPValueCalculator.calculate", "RightPValueCalculator.calculate", "TwoSidedPValueCalculator.calculate",
           "AbstractAlternativeFactory.get_concrete_factory"]
BOUNDS = "reference samples of 1..8 arbitrary reals in any order, ties allowed; any real statistic value; all three alternatives"
OUTSIDE = "longer reference samples; nan values"
MOD = "hypothesis_testing.p_value.calculator.p_value_calculator"
CLS = {"left": "LeftPValueCalculator", "right": "RightPValueCalculator", "two": "TwoSidedPValueCalculator"}


def ref_p(T, side, ld, s):
    n = len(ld)
    le = T.sum([T.ite(T.le(v, s), T.const(1), T.const(0)) for v in ld]) / n
    if side == "left":
        return le
    if side == "right":
        return 1 - le
    return 2 * T.min(le, 1 - le)


def h_p(T, side, n, route, sort=None, as_array=False):
    if route == "direct":
        calc = T.get(MOD, CLS[side])()
    else:
        alt = T.get("statistics.alternative", "AlternativeType")
        t = {"left": alt.LEFT, "right": alt.RIGHT, "two": alt.TWO_TAILED}[side]
        calc = T.get("hypothesis_testing.alternative_factory.alternative_factories",
                     "AbstractAlternativeFactory").get_concrete_factory(t).get_p_value_calculator()
    ld = free(T, n, "r") if sort is None else perm(ascending(T, n, "r"), sort)
    s = T.var("s", suggest=lambda r: Fraction(r.randrange(-512, 768), 256))
    given = T.array(ld) if as_array else list(ld)
    got = calc.calculate(given, s)
    T.check_eq("p-value", got, ref_p(T, side, ld, s))
    T.check("p-value within [0,1]", T.and_(T.le(0, got), T.le(got, 1)))
    T.check_all_eq("reference sample unchanged", T.values(given), ld)


def h_tie(T, side, n):
    """The statistic equals a reference value (possibly repeated)."""
    calc = T.get(MOD, CLS[side])()
    ld = ascending(T, n, "r")
    k = T.choose("at", range(n))
    got = calc.calculate(list(ld), ld[k])
    T.check_eq("p-value", got, ref_p(T, side, ld, ld[k]))


def jobs(tier, seed):
    out = []
    ns = (1, 2, 3, 4, 5, 6) if tier == "quick" else range(1, 9)
    for side in CLS:
        for n in ns:
            out.append(Job("C03", f"{side}:n={n}", h_p, dict(side=side, n=n, route="direct"), seed=seed, max_paths=5000, budget_s=120))
        out.append(Job("C03", f"{side}:factory", h_p, dict(side=side, n=3, route="factory"), seed=seed, max_paths=5000, budget_s=120))
        out.append(Job("C03", f"{side}:array", h_p, dict(side=side, n=3, route="direct", as_array=True), seed=seed, max_paths=5000, budget_s=120))
        for o in perms(8, 3):
            out.append(Job("C03", f"{side}:order={''.join(map(str, o))}", h_p, dict(side=side, n=8, route="direct", sort=o),
                           seed=seed, max_paths=5000, budget_s=120))
        out.append(Job("C03", f"{side}:tie", h_tie, dict(side=side, n=4), seed=seed, max_paths=5000, budget_s=120))
    return out
