"""C01 adjusted p-values of the multiple-testing procedures."""
from .common import *

ENCODED = ["BonferroniMultipleTesting.adjust", "SidakMultipleTesting.adjust", "Holm.adjust", "SidakHolm.adjust",
           "BenjaminiYekutieli.adjust"]
BOUNDS = ("all real p-values in [0,1]; list lengths 1..4 in any order and 5..7 with a fixed order pattern (quick); "
          "lengths to 5 any order, 6..9 patterned (thorough); Benjamini-Yekutieli also at length 10000 and 10001 with 3 free p-values")
OUTSIDE = "longer lists (the per-rank factor is only exercised at the lengths above)"
PKG = "hypothesis_testing.multiple_testing."
CLS = {
    "bonferroni": (PKG + "fwer", "BonferroniMultipleTesting"),
    "sidak": (PKG + "fwer", "SidakMultipleTesting"),
    "holm": (PKG + "fwer", "Holm"),
    "sidak_holm": (PKG + "fwer", "SidakHolm"),
    "by": (PKG + "fdr", "BenjaminiYekutieli"),
}


def harmonic(T, n):
    from fractions import Fraction
    if n > 10000:
        return T.log(n) + T.const(0.5772156649015329)
    h = sum((Fraction(1, i) for i in range(1, n + 1)), Fraction(0)) if n <= 200 else None
    if h is None:
        num = _harm(n)
        h = num
    return T.frac(h.numerator, h.denominator)


_cache = {}


def _harm(n):
    if n not in _cache:
        def rec(a, b):
            if b - a == 1:
                return 1, a
            m = (a + b) // 2
            p, q = rec(a, m)
            r, s = rec(m, b)
            return p * s + r * q, q * s
        _cache[n] = Fraction(*rec(1, n + 1))
    return _cache[n]


def expected(T, name, ps):
    n = len(ps)
    if name == "bonferroni":
        return [T.min(p * n, T.const(1)) for p in ps]
    if name in ("sidak", "sidak_holm"):
        return [1 - T.pow(1 - p, n) for p in ps]
    order = T.argsort(ps)
    c = harmonic(T, n) if name == "by" else None
    out = [None] * n
    run = None
    for i in range(n - 1, -1, -1):
        j = order[i]
        f = ps[j] * n * c / (i + 1) if name == "by" else ps[j] * (n - i)
        f = T.min(f, T.const(1))
        run = f if run is None else T.min(f, run)
        out[j] = run
    return out


def h_def(T, name, n, order=None):
    cls = T.get(*CLS[name])
    if order is None:
        ps = free(T, n, "p", 0, 1)
    else:
        ps = perm(ascending(T, n, "p", 0, 1, strict=n > 4), order)
    given = list(ps)
    got = cls.adjust(given)
    want = expected(T, name, ps)
    T.check_all_eq("adjusted", got, want)
    T.check_all_eq("input list unchanged", given, ps)
    vals = T.values(got)
    for i in range(n):
        T.check("adjusted p-value not below the raw one", T.le(ps[i], vals[i]))
        T.check("adjusted p-value at most 1", T.le(vals[i], 1))


def h_again(T, name):
    """A second call is unaffected by a first one on other data."""
    cls = T.get(*CLS[name])
    a = ascending(T, 3, "a", 0, 1)
    b = ascending(T, 2, "b", 0, 1)
    cls.adjust(list(a))
    T.check_all_eq("second call", cls.adjust(list(b)), expected(T, name, b))
    T.check_all_eq("third call", cls.adjust([a[2], a[0], a[1]]), expected(T, name, [a[2], a[0], a[1]]))


def h_empty(T, name):
    cls = T.get(*CLS[name])
    T.check("empty list", len(T.values(cls.adjust([]))) == 0)


def h_large(T, n, name):
    """Few free p-values inside a long list of ones."""
    cls = T.get(*CLS[name])
    ps = free(T, 2, "p", 0, 1, slo=0, shi=Fraction(1, 16))
    T.assume(T.le(ps[0], ps[1]))
    full = [T.const(1)] * (n // 2) + [ps[1]] + [T.const(1)] * (n - n // 2 - 2) + [ps[0]]
    got = T.values(cls.adjust(full))
    T.check("length", len(got) == n)
    if name == "by":
        c = harmonic(T, n)
        f0, f1 = T.min(ps[0] * n * c, T.const(1)), T.min(ps[1] * n * c / 2, T.const(1))
    else:
        f0, f1 = T.min(ps[0] * n, T.const(1)), T.min(ps[1] * (n - 1), T.const(1))
    T.check_eq("second smallest", got[n // 2], f1)
    T.check_eq("smallest", got[n - 1], T.min(f0, f1))
    T.check_eq("ones stay one", got[0], T.const(1))


def jobs(tier, seed):
    out = []
    thorough = tier == "thorough"
    for name in CLS:
        rank = name in ("holm", "by")
        out.append(Job("C01", f"{name}:empty", h_empty, dict(name=name), seed=seed))
        for n in range(1, (6 if thorough else 5)):
            out.append(Job("C01", f"{name}:n={n}", h_def, dict(name=name, n=n), seed=seed, max_paths=20000,
                           budget_s=3000 if thorough else 150))
        for n in ((6, 7, 8, 9) if thorough else (5, 6, 7)):
            if rank:
                for o in perms(n, 2) if n <= 8 else [tuple(range(n)), tuple(reversed(range(n)))]:
                    out.append(Job("C01", f"{name}:n={n}:order={''.join(map(str, o))}", h_def,
                                   dict(name=name, n=n, order=o), seed=seed, max_paths=2000, budget_s=900 if thorough else 90))
            else:
                out.append(Job("C01", f"{name}:n={n}", h_def, dict(name=name, n=n), seed=seed, budget_s=300))
        out.append(Job("C01", f"{name}:repeat", h_again, dict(name=name), seed=seed, budget_s=90))
        if rank:
            for n in ((30, 200, 10000, 10001) if name == "by" else (30, 200)):
                out.append(Job("C01", f"{name}:len={n}", h_large, dict(name=name, n=n), seed=seed, budget_s=200))
    return out
