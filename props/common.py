"""Helpers shared by the property harnesses."""
from fractions import Fraction
from itertools import permutations

from symx.harness import Job


def spaced(i, n, lo=Fraction(-2), hi=Fraction(3)):
    """Suggestion for the i-th element of an ascending sample (dyadic, well separated)."""
    step = (hi - lo) / n

    def s(r):
        v = lo + step * i + step * Fraction(r.randrange(4, 28), 32)
        return Fraction(round(v * 256), 256)
    return s


def ascending(T, n, name="x", lo=None, hi=None, strict=False, lo_open=False, hi_open=False, slo=None, shi=None):
    """x1 <= x2 <= ... <= xn, arbitrary otherwise."""
    a = Fraction(slo if slo is not None else (lo if lo is not None else -2))
    b = Fraction(shi if shi is not None else (hi if hi is not None else a + 5))
    xs = []
    for i in range(n):
        x = T.var(f"{name}{i}", lo=lo, hi=hi, lo_open=lo_open, hi_open=hi_open, suggest=spaced(i, n, a, b))
        if xs:
            T.assume(T.lt(xs[-1], x) if strict else T.le(xs[-1], x))
        xs.append(x)
    return xs


def free(T, n, name="x", lo=None, hi=None, slo=None, shi=None, **k):
    a = Fraction(slo if slo is not None else (lo if lo is not None else -2))
    b = Fraction(shi if shi is not None else (hi if hi is not None else a + 5))
    out = []
    for i in range(n):
        def s(r, a=a, b=b):
            return Fraction(round((a + (b - a) * Fraction(r.randrange(1, 255), 256)) * 256), 256)
        out.append(T.var(f"{name}{i}", lo=lo, hi=hi, suggest=s, **k))
    return out


def perm(xs, p):
    return [xs[i] for i in p]


def perms(n, limit=None):
    ps = list(permutations(range(n)))
    if limit is not None and len(ps) > limit:
        # identity, reversal, rotations and evenly spread others
        step = max(1, len(ps) // limit)
        sel = [ps[0], ps[-1]] + ps[step // 2::step]
        out = []
        for q in sel:
            if q not in out:
                out.append(q)
        ps = out[:limit]
    return ps


def concrete(values):
    return [Fraction(v) for v in values]
