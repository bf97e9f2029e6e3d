"""C16 graph statistics: invariants of the proximity graph of the sample."""
from itertools import combinations

from .gof import *

KINDS = ("EdgesNumber", "MaxDegree", "AverageDegree", "ConnectedComponents", "CliqueNumber", "IndependenceNumber")
ENCODED = ["AbstractGraphTestStatistic.execute_statistic, _compute_dist, _make_adjacency_list and the six get_graph_stat / execute_statistic "
           "implementations", "the normality, exponentiality and gamma subclasses with their distance and transform"]
BOUNDS = ("the six generic statistics: all observations symbolic, size 2-4 in every order, 5 in sampled orders (6 thorough); their normality, exponentiality "
          "and gamma versions: size 2-3 in every order with all observations symbolic (gamma: size 4 in sampled orders, shape and rate symbolic too), "
          "normality and exponentiality at sizes 5 and 8 with one or two observations symbolic")
OUTSIDE = "sizes beyond the bounds, nan, samples whose values are all equal (clique number only), exponential samples with mean zero"


def dist_(T, fam, x):
    d = (x[-1] - x[0]) / 10
    if fam == "normal":
        v = ssd(T, x) / len(x)
        return d / v
    if fam == "exponent":
        return d / mean(T, x)
    return d


def value(T, kind, x, d):
    """x ascending; vertices i < j are adjacent iff x[j] - x[i] < d."""
    n = len(x)
    # one case split per pair: nothing below depends on anything but the adjacency matrix
    adj = {(i, j): T.branch(T.lt(x[j] - x[i], d)) for i, j in combinations(range(n), 2)}
    deg = [sum(e for k, e in adj.items() if i in k) for i in range(n)]
    if kind == "EdgesNumber":
        return T.const(sum(adj.values()))
    if kind == "MaxDegree":
        return T.const(max(deg))
    if kind == "AverageDegree":
        return T.frac(sum(deg), n)
    if kind == "ConnectedComponents":
        lab = list(range(n))
        for (i, j), e in adj.items():
            if e and lab[i] != lab[j]:
                lab = [lab[i] if v == lab[j] else v for v in lab]
        return T.const(len(set(lab)))
    if n <= 7:
        want = kind == "CliqueNumber"
        for k in range(n, 0, -1):
            for s in combinations(range(n), k):
                if all(adj[p] == want for p in combinations(s, 2)):
                    return T.const(k)
    if kind == "CliqueNumber":          # intervals: a clique is a window
        return T.const(max(sum(1 for j in range(i, n) if j == i or adj[i, j]) for i in range(n)))
    best, last = 0, None                # intervals: taking the leftmost admissible point is optimal
    for i in range(n):
        if last is None or not adj[last, i]:
            best, last = best + 1, i
    return T.const(best)


def generic(T, kind):
    """The generic statistic, made concrete."""
    C = T.get(G + "graph_goodness_of_fit", "Graph" + kind + "TestStatistic")
    return type("G" + kind, (C,), {n: (lambda self: None) for n in C.__abstractmethods__})


def h(T, fam, kind, n, order=None, params=None, as_list=False, k=None):
    mod = fam
    cls = "Graph" + kind + {"normal": "Normality", "exponent": "Exponentiality", "gamma": "Gamma", "generic": ""}[fam] + "GofStatistic"
    C = generic(T, kind) if fam == "generic" else T.get(G + mod, cls)
    dom = "real" if fam in ("normal", "generic") else "pos"
    if k is None:
        xs = sample(T, n, dom, order, strict=False)
    else:
        # a background whose gaps are near the distance threshold, and one or two observations anywhere
        step = dict(normal=Fraction(1, 4), exponent=Fraction(1, 16), gamma=Fraction(1, 8), generic=Fraction(1, 8))[fam]
        lo = [1 + i * step + Fraction(i * i, 40) for i in range(n - len(k))]
        xs = [T.const(v) for v in lo]
        for j, pos in enumerate(k):
            x = T.var(f"x{j}", lo=Fraction(1, 2), hi=lo[-1] + 1, suggest=lambda r: Fraction(r.randrange(32, 64 * int(lo[-1] + 1)), 64))
            xs.insert(pos, x)
    if fam == "normal" or kind == "CliqueNumber":
        T.assume(T.or_(*[T.not_(T.eq(xs[0], v)) for v in xs[1:]]))
    kw, p = {}, {}
    if fam == "gamma" and params is None:
        kw, p = dict(alpha=2.5, beta=0.75), dict(a=T.frac(5, 2), b=T.frac(3, 4))
    elif fam == "gamma" and params:
        a = T.var("alpha", lo=0, lo_open=True, hi=20, suggest=Fraction(5, 2))
        b = T.var("beta", lo=0, lo_open=True, hi=20, suggest=Fraction(3, 4))
        kw, p = dict(alpha=a, beta=b), dict(a=a, b=b)
    got = C(**kw).execute_statistic(list(xs) if as_list else T.array(xs))
    y = T.sorted(xs)
    if fam == "gamma":
        g = T.dist("gamma")
        y = [g.cdf(v * p.get("b", 1), p.get("a", T.const(1))) for v in y]
    T.check_eq("statistic", got, value(T, kind, y, dist_(T, fam, y)))


def h_empty(T, kind):
    C = T.get(G + "gamma", "Graph" + kind + "GammaGofStatistic")
    T.check("refused", T.raises(lambda: C().execute_statistic(T.array([])), ValueError))


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    for fam in ("generic", "normal", "exponent", "gamma"):
        for kind in KINDS:
            def add(nm, **kw):
                out.append(Job("C16", f"{fam}:{kind}:{nm}", h, dict(fam=fam, kind=kind, **kw), max_paths=6000, budget_s=120 * (8 if th else 1), seed=seed))
            for n in (2, 3):
                add(f"n={n}", n=n)
            add("list", n=3, order=(2, 0, 1), as_list=True)
            if fam == "generic":
                for n in (4, 5) + ((6,) if th else ()):
                    for o in perms(n, 5 if th else 24 if n == 4 else 1):
                        add(f"order={''.join(map(str, o))}", n=n, order=o)
            if fam == "gamma":
                for o in perms(4, 4 if th else 1):
                    add(f"order={''.join(map(str, o))}", n=4, order=o)
                add("params", n=3, order=(1, 2, 0), params=True)
                add("params4", n=4, order=(1, 2, 0, 3), params=True)
                out.append(Job("C16", f"gamma:{kind}:empty", h_empty, dict(kind=kind), seed=seed))
                add("default", n=2, params=False)
            if fam != "gamma":
                add("wide5", n=5, k=(2,))
                add("wide8", n=8, k=(7,))
            if th or fam == "generic" or fam == "exponent" and kind in ("CliqueNumber", "EdgesNumber", "IndependenceNumber"):
                add("two5", n=5, k=(0, 3))
    return out
