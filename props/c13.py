"""C13 evaluating a statistic leaves the sample and the statistic as they were."""
from . import c17, c18, c19, c20, c21, c22, c23, c24
from .c16 import KINDS
from .gof import *

ENCODED = ["execute_statistic of every goodness-of-fit statistic of C16-C24 (same configurations), with everything it calls"]
BOUNDS = ("the two smallest symbolic sample sizes of each configuration of C16-C24 (quick: the smallest as a list, the next as an array), observations in descending order with all values symbolic, given as an "
          "array and, where the statistic takes them, as a list; between the two evaluations the same object evaluates two other (fixed) samples, one larger and one smaller by one observation")
OUTSIDE = "larger samples (beyond one case of 8 or more observations where the statistic needs them); concurrent evaluation; the statistics C16-C24 exclude"
ASSUMPTIONS = ["the special functions of a configuration that is opaque in C16-C24 are opaque here"]


def other(T, dom, n):
    b = background(n, dom if isinstance(dom, str) else "unit")
    if not isinstance(dom, str):
        return [dom[0] + (dom[1] - dom[0]) * T.frac(v.numerator, v.denominator) for v in b]
    return [T.frac(v.numerator, v.denominator) for v in b]


def h_pure(T, spec, n, as_list, wide_=False, second=True):
    if spec.get("opaque"):
        T.opaque()
    st, p = build(T, spec)
    dom = spec.get("dom", "real")
    if callable(dom):
        dom = dom(T, p)
    if wide_:
        xs = wide(T, n, dom, n // 2, shift=n // 3)
    else:
        xs = sample(T, n, dom, tuple(reversed(range(n))))
    if spec.get("pre"):
        spec["pre"](T, xs, p)
    via = spec.get("via")
    raw = [via(T, x, p) for x in xs] if via else xs
    kw = spec.get("kw", lambda T: ({}, {}))(T)[0]
    given = list(raw) if as_list else T.array(raw)
    first = st.execute_statistic(given, **kw)
    now = list(given)
    T.check("the sample keeps its length", T.truth(len(now) == len(raw)))
    T.check("the sample keeps its values", T.and_(*[T.eq(a, b) for a, b in zip(now, raw)]))
    if second:
        for m in (n,) if kw or spec["cls"].startswith(("ST1", "ST2")) else (n + 1, n - 1):
            ys = other(T, dom, m)
            ys = [via(T, y, p) for y in ys] if via else ys
            T.run(lambda: st.execute_statistic(list(ys) if as_list else T.array(ys), **kw))
    again = st.execute_statistic(list(raw) if as_list else T.array(raw), **kw)
    T.check("a second evaluation gives the same value", T.eq(first, again))


def graphs():
    for fam, mod, dom in (("Normality", "normal", "real"), ("Exponentiality", "exponent", "pos"), ("Gamma", "gamma", "pos")):
        for k in KINDS:
            yield dict(mod=G + mod, cls=f"Graph{k}{fam}GofStatistic", dom=dom, opaque=fam == "Gamma", free=(2, 3), ordered=(), wide=(), id=f"Graph{k}{fam}")


def jobs(tier, seed):
    th = tier == "thorough"
    out = []
    for prop, specs in (("C16", list(graphs())), ("C17", c17.SPECS), ("C18", c18.SPECS), ("C19", c19.SPECS), ("C20", c20.SPECS), ("C21", c21.SPECS), ("C22", c22.SPECS),
                        ("C23", c23.SPECS), ("C24", c24.SPECS)):
        for s in specs:
            nm = s.get("id", s["cls"])
            if nm == "Kurtosis:light":
                continue
            small = sorted(set(s.get("free", (2, 3))) | set(s.get("ordered", (4, 5))))
            kw = dict(seed=seed, max_paths=s.get("max_paths", 4000), budget_s=s.get("budget", 120) * (4 if th else 1), obl_timeout=s.get("obl_timeout", 8000))
            w = not small
            sizes = small[:2 if th else 1] or sorted(s.get("wide", (9, 16)))[:1]
            lists = s.get("list", True) and nm != "Lilliefors:2,3/2"
            first = small[1:2] if lists and not th and nm not in ("LOS", "GlenLeemisBarr") and not nm.startswith(("KS", "Kolmogorov")) else []
            for n, as_list in [(n, False) for n in first or sizes] + ([(n, True) for n in sizes] if lists else []):
                out.append(Job("C13", f"{prop}:{nm}:{'list' if as_list else 'array'}:n={n}", h_pure, dict(spec=s, n=n, as_list=as_list, wide_=w), **kw))
    return out
