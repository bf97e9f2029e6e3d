"""C04 empirical critical values."""
from .common import *

ENCODED = ["LeftCriticalValueCalculator.calculate", "RightCriticalValueCalculator.calculate",
           "TwoSidedCriticalValueCalculator.calculate", "AbstractAlternativeFactory.get_concrete_factory"]
BOUNDS = "reference samples of 1..4 arbitrary reals in any order with ties, 5..7 in fixed order patterns with ties; all significance levels in [0,1]"
OUTSIDE = "longer reference samples; nan values"
MOD = "hypothesis_testing.critical_values.calculator.critical_value_calculator"
CLS = {"left": "LeftCriticalValueCalculator", "right": "RightCriticalValueCalculator", "two": "TwoSidedCriticalValueCalculator"}


def quantile(T, xs, q):
    """Linear interpolation between order statistics (position q*(n-1))."""
    n = len(xs)
    h = q * (n - 1)
    for k in range(n - 1):
        if k == n - 2 or T.branch(T.le(h, k + 1)):
            return xs[k] + (h - k) * (xs[k + 1] - xs[k])
    return xs[0]


def h_cv(T, side, n, route="direct", order=None, ties=None):
    if route == "direct":
        calc = T.get(MOD, CLS[side])()
    else:
        alt = T.get("statistics.alternative", "AlternativeType")
        t = {"left": alt.LEFT, "right": alt.RIGHT, "two": alt.TWO_TAILED}[side]
        calc = T.get("hypothesis_testing.alternative_factory.alternative_factories",
                     "AbstractAlternativeFactory").get_concrete_factory(t).get_critical_value_calculator()
    if ties is not None:
        base = ascending(T, max(ties) + 1, "r", strict=True)
        ld = [base[i] for i in ties]
        xs = sorted(ties)
        xs = [base[i] for i in xs]
    elif order is not None:
        xs = ascending(T, n, "r", strict=True)
        ld = perm(xs, order)
    else:
        ld = free(T, n, "r")
        xs = None
    a = T.var("alpha", lo=0, hi=1, suggest=lambda r: Fraction(r.randrange(1, 255), 256))
    got = calc.calculate(list(ld), a)
    if xs is None:
        xs = T.sorted(ld)
    if side == "left":
        T.check_eq("critical value", got, quantile(T, xs, a))
    elif side == "right":
        T.check_eq("critical value", got, quantile(T, xs, 1 - a))
    else:
        lo, hi = got
        T.check_eq("lower critical value", lo, quantile(T, xs, a / 2))
        T.check_eq("upper critical value", hi, quantile(T, xs, 1 - a / 2))


TIES = [(0, 0), (0, 0, 1), (0, 1, 1), (1, 0, 1, 0), (0, 0, 0, 1), (2, 0, 0, 1, 2), (1, 1, 1, 0, 2), (0, 0, 0, 0, 0, 1)]


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    for side in CLS:
        for n in ((1, 2, 3, 4) if th else (1, 2, 3)):
            out.append(Job("C04", f"{side}:n={n}", h_cv, dict(side=side, n=n), seed=seed, max_paths=20000, budget_s=1500 if th else 120))
        out.append(Job("C04", f"{side}:factory", h_cv, dict(side=side, n=2, route="factory"), seed=seed, max_paths=5000, budget_s=120))
        for n in ((4, 5, 6, 7) if th else (4, 5)):
            for o in perms(n, 4):
                out.append(Job("C04", f"{side}:order={''.join(map(str, o))}", h_cv, dict(side=side, n=n, order=o), seed=seed,
                               max_paths=5000, budget_s=120))
        for t in TIES:
            out.append(Job("C04", f"{side}:ties={''.join(map(str, t))}", h_cv, dict(side=side, n=len(t), ties=t), seed=seed,
                           max_paths=5000, budget_s=120))
    return out
