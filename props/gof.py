"""Generic harnesses for goodness-of-fit statistics: value against an independent definition."""
from .common import *

G = "statistics.goodness_of_fit."


def sugg(dom, i, n):
    lo, hi = {"real": (-2, 3), "pos": (Fraction(1, 8), 4), "unit": (0, 1)}[dom] if isinstance(dom, str) else dom
    return spaced(i, n, Fraction(lo), Fraction(hi))


def _plain(v):
    return isinstance(v, (int, Fraction))


def sample(T, n, dom="real", order=None, strict=True, name="x"):
    """order None: unconstrained order; otherwise the ascending sample is permuted by it.
    An interval domain (lo, hi[, "closed"]) may have symbolic ends: the values are then placed by their relative position."""
    if not isinstance(dom, str) and not (_plain(dom[0]) and _plain(dom[1])):
        ts = sample(T, n, "unit", order, strict, name)
        return [dom[0] + (dom[1] - dom[0]) * t for t in ts]
    closed = not isinstance(dom, str) and len(dom) > 2
    lo, hi, lo_o, hi_o = {"real": (None, None, False, False), "pos": (0, None, True, False), "unit": (0, 1, True, True)}[dom] \
        if isinstance(dom, str) else (dom[0], dom[1], not closed, not closed)
    xs = []
    for i in range(n):
        s = sugg(dom if isinstance(dom, str) else dom[:2], i if order is not None else 0, n if order is not None else 1)
        x = T.var(f"{name}{i}", lo=lo, hi=hi, lo_open=lo_o, hi_open=hi_o, suggest=s)
        if order is not None and xs:
            T.assume(T.lt(xs[-1], x) if strict else T.le(xs[-1], x))
        xs.append(x)
    return xs if order is None else perm(xs, order)


# spread-out, irregular rational sample used by the "wide" harnesses
def background(n, dom):
    out = []
    for i in range(n):
        u = Fraction(2 * i + 1, 2 * n) + Fraction((i * 7) % 5 - 2, 16 * n)
        if dom == "real":
            out.append(Fraction(round((5 * u - 2 + u * u * u) * 1024), 1024))
        elif dom == "pos":
            out.append(Fraction(round((Fraction(1, 16) + 3 * u * u + u) * 1024), 1024))
        else:
            out.append(Fraction(round(u * 4096), 4096))
    return out


def wide(T, n, dom, k, shift=0, far=0):
    """n values, all fixed except the k-th smallest, which is anywhere between its neighbours (far: or that far outside)."""
    if not isinstance(dom, str):
        xs = wide(T, n, "unit", k, shift)
        return [dom[0] + (dom[1] - dom[0]) * v for v in xs]
    b = background(n, dom)
    lo = b[k - 1] if k > 0 else (b[0] - 1 if dom == "real" else (b[0] / 4 if dom == "pos" else b[0] / 4))
    hi = b[k + 1] if k + 1 < n else (b[-1] + 2 if dom != "unit" else (b[-1] + 1) / 2)
    if far and k == 0:
        lo -= far
    if far and k == n - 1:
        hi += far
    x = T.var("x", lo=lo, hi=hi, lo_open=True, hi_open=True,
              suggest=lambda r: lo + (hi - lo) * Fraction(r.randrange(8, 56), 64))
    xs = [T.frac(v.numerator, v.denominator) if i != k else x for i, v in enumerate(b)]
    if shift:
        xs = xs[shift:] + xs[:shift]
    return xs


def clusters(T, n, dom):
    """n values, all at two points except one, which is anywhere at or above the lower point."""
    a, b = {"real": (-1, 1), "pos": (Fraction(1, 2), 2), "unit": (Fraction(1, 4), Fraction(3, 4))}[dom]
    x = T.var("x", lo=a, hi=b if dom == "unit" else b + 8, suggest=lambda r: a + (b - a) * Fraction(r.randrange(0, 65), 64))
    ends = [T.frac(Fraction(v).numerator, Fraction(v).denominator) for v in (a, b)]
    xs = [ends[i % 2] for i in range(n - 1)]
    return xs[:3] + [x] + xs[3:]


def build(T, spec):
    kw, p = spec["params"](T) if spec.get("params") else ({}, {})
    cls = T.get(spec["mod"], spec["cls"])
    return cls(**kw), p


def h_value(T, spec, n, order=None, how="free", k=0, as_list=False):
    if spec.get("opaque"):
        T.opaque()
    st, p = build(T, spec)
    dom = spec.get("dom", "real")
    if callable(dom):
        dom = dom(T, p)
    if how in ("wide", "far"):
        xs = wide(T, n, dom, k, shift=order or 0, far=100 if how == "far" else 0)
    elif how == "two":
        xs = clusters(T, n, dom)
    else:
        xs = sample(T, n, dom, order)
    if spec.get("pre"):
        spec["pre"](T, xs, p)
    via = spec.get("via")        # an increasing map from the drawn values to the observations
    raw = [via(T, x, p) for x in xs] if via else xs
    given = list(raw) if as_list else T.array(raw)
    kw = spec.get("kw", lambda T: ({}, {}))(T)
    got = st.execute_statistic(given, **kw[0])
    p = dict(p, **kw[1])
    srt = T.sorted(xs)
    want = spec["ref"](T, [via(T, x, p) for x in srt] if via else srt, p, raw)
    T.check_eq("statistic", got, want)


def table_jobs(prop, specs, tier, seed, budget=120):
    th = tier == "thorough"
    out = []
    for s in specs:
        nm = s.get("id", s["cls"])
        bud = s.get("budget", budget) * (8 if th else 1)
        kw = dict(seed=seed, max_paths=s.get("max_paths", 4000) * (4 if th else 1), budget_s=bud, obl_timeout=s.get("obl_timeout", 8000))
        for n in s.get("free", (2, 3)) + (s.get("free_th", ()) if th else ()):
            out.append(Job(prop, f"{nm}:n={n}", h_value, dict(spec=s, n=n), **kw))
        if s.get("list", True):
            n = s.get("list_n", (s.get("free", (2, 3)) or s.get("ordered", (4,)) or (0,))[0])
            out.append(Job(prop, f"{nm}:list:n={n}", h_value, dict(spec=s, n=n, order=tuple(reversed(range(n))), as_list=True), **kw))
        for n in s.get("ordered", (4, 5)) + (s.get("ordered_th", (6, 7)) if th else ()):
            for o in perms(n, 3 if th else 2):
                out.append(Job(prop, f"{nm}:order={''.join(map(str, o))}", h_value, dict(spec=s, n=n, order=o), **kw))
        for n in s.get("wide", (9, 16)) + (s.get("wide_th", (25,)) if th else ()):
            for k in sorted({0, n // 2, n - 1} if s.get("wide_k") is None else set(s["wide_k"](n))):
                out.append(Job(prop, f"{nm}:wide={n}:{k}", h_value, dict(spec=s, n=n, how="wide", k=k, order=n // 3), **kw))
        for n in s.get("two", ()):
            out.append(Job(prop, f"{nm}:two={n}", h_value, dict(spec=s, n=n, how="two"), **kw))
        for n in s.get("far", ()):
            for k in (0, n - 1):
                out.append(Job(prop, f"{nm}:far={n}:{k}", h_value, dict(spec=s, n=n, how="far", k=k, order=n // 3), **kw))
    return out


# ---- shared reference definitions
def mean(T, x):
    return T.sum(x) / len(x)


def ssd(T, x, m=None):
    m = mean(T, x) if m is None else m
    return T.sum([(v - m) * (v - m) for v in x])


def count(T, conds):
    return T.sum([T.ite(c, T.const(1), T.const(0)) for c in conds])


def ks(T, F, side):
    n = len(F)
    dp = T.max([T.frac(i + 1, n) - f for i, f in enumerate(F)])
    dm = T.max([f - T.frac(i, n) for i, f in enumerate(F)])
    return dp if side == "plus" else dm if side == "minus" else T.max(dp, dm)


def ad(T, logF, logS):
    n = len(logF)
    return -n - T.sum([T.frac(2 * i + 1, n) * (logF[i] + logS[n - 1 - i]) for i in range(n)])


def cvm(T, F):
    n = len(F)
    return T.frac(1, 12 * n) + T.sum([(T.frac(2 * i + 1, 2 * n) - f) ** 2 for i, f in enumerate(F)])


def watson(T, F):
    n = len(F)
    return cvm(T, F) - n * (mean(T, F) - T.frac(1, 2)) ** 2


def kuiper(T, F):
    return ks(T, F, "plus") + ks(T, F, "minus")


def greenwood(T, F):
    e = [T.const(0)] + list(F) + [T.const(1)]
    return T.sum([(b - a) ** 2 for a, b in zip(e, e[1:])])


def moran(T, F):
    n = len(F)
    e = [T.const(0)] + list(F) + [T.const(1)]
    return -T.sum([T.log(n * (b - a)) for a, b in zip(e, e[1:])])


def quesenberry(T, F):
    e = [T.const(0)] + list(F) + [T.const(1)]
    d = [b - a for a, b in zip(e, e[1:])]
    return T.sum([v * v for v in d]) + T.sum([v * w for v, w in zip(d, d[1:])])


def dmax(T, F):
    n = len(F)
    return [T.max(T.frac(i + 1, n) - f, f - T.frac(i, n)) for i, f in enumerate(F)]


def toshiyuki(T, F, eps=None):
    n = len(F)
    return T.sum([d / T.sqrt(f * (1 - f + (eps or 0))) for d, f in zip(dmax(T, F), F)]) / T.sqrt(T.const(n))


def zhang_a(T, F):
    n = len(F)
    return -T.sum([T.log(f) / T.frac(2 * (n - i) + 1, 2) + T.log(1 - f) / T.frac(2 * i - 1, 2) for i, f in enumerate(F, 1)])


def zhang_c(T, F):
    n = len(F)
    return T.sum([T.log((1 / f - 1) / (T.const(Fraction(4 * n - 2, 4 * i - 3)) - 1)) ** 2 for i, f in enumerate(F, 1)])


def binned(T, xs, edges, expected, lam=1):
    """Power divergence over the cells cut by the inner edges (each cell includes its left end, the last one both)."""
    m = len(edges) + 1
    tot = []
    n = len(xs)
    for k in range(m):
        cs = [T.and_(*([T.ge(v, edges[k - 1])] if k else []), *([T.lt(v, edges[k])] if k < m - 1 else [])) for v in xs]
        o = count(T, cs)
        e = expected[k]
        if lam == 1:
            tot.append((o - e) ** 2 / e)
        elif lam == 0:
            tot.append(T.sum([T.ite(T.eq(o, j), 2 * j * T.log(T.const(j) / e), T.const(0)) for j in range(1, n + 1)]))
        else:
            lam_ = T.const(lam)
            tot.append(o * (T.pow(o / e, lam_) - 1) * 2 / (lam_ * (lam_ + 1)))
    return T.sum(tot)


def side_params(params, side):
    def f(T):
        k, p = params(T)
        a = T.get("statistics.alternative", "AlternativeType")
        return dict(k, alternative_type={"two": a.TWO_TAILED, "plus": a.RIGHT, "minus": a.LEFT}[side]), dict(p, side=side)
    return f


def with_kw(params, **kw):
    def f(T):
        k, p = params(T)
        return dict(k, **kw), dict(p, **kw)
    return f


def no_params(T):
    return {}, {}
