"""C36 the family chosen for a sample is the one under which the sample is likeliest."""
from .common import *

ENCODED = ["maximum_likelihood.find_max_probability_function", "maximum_likelihood.find_result_of_likelihood_function"]
BOUNDS = ("samples of 1-3 values, all symbolic; at each run four of the scores symbolic (any nonnegative values, every choice of four neighbours in the list of "
          "families), the others zero or all at one symbolic value; every case without a positive score")
OUTSIDE = "which of several families with exactly equal best scores is returned; the scores themselves (C35)"
ASSUMPTIONS = ["the scores of the families are stand-ins returning arbitrary nonnegative values, the same for the same sample"]
MOD = "estimation.maximum_likelihood."
FAMS = ("uniform_continuous normal lognormal exponential weibull gamma beta cauchy chi_squared t_distribution fisher rayleigh wigner pareto laplace "
        "discrete_uniform bernoulli poisson geometric").split()


def setup(T, n, free, rest):
    xs = [T.var(f"x{i}", suggest=lambda r, i=i: Fraction(8 * i + r.randrange(1, 8), 8)) for i in range(n)]
    val, seen = {}, []
    if rest:
        low = T.var("rest", lo=0, suggest=Fraction(1, 8))
    for f in FAMS:
        val[f] = T.var("l_" + f, lo=0, suggest=lambda r: Fraction(r.randrange(1, 64), 16)) if f in free else low if rest else T.const(0) if not T.real else 0.0

    def mk(f):
        def score(dataArray):
            seen.append(list(T.values(dataArray)))
            return val[f]
        return score
    sc = {f: mk(f) for f in FAMS}
    for mod in ("function_for_maximum_likelihood", "maximum_likelihood"):
        M = T.mod(MOD + mod)
        for f in FAMS:
            if hasattr(M, "likelihood_function_" + f):
                T.patch(M, "likelihood_function_" + f, sc[f])
    return xs, val, sc, seen


def best(T, fn, val, funcs):
    hit = [f for f in FAMS if funcs[f] is fn]
    T.check("one of the families", T.truth(len(hit) == 1))
    if hit:
        T.check("positive", T.lt(0, val[hit[0]]))
        for f in FAMS:
            T.check("no family scores better", T.le(val[f], val[hit[0]]))
    return hit[0] if hit else None


def h_best(T, n, free, rest, whole):
    xs, val, funcs, seen = setup(T, n, free, rest)
    M = T.mod(MOD + "maximum_likelihood")
    some = T.or_(*[T.lt(0, v) for v in val.values()])
    fn = M.find_result_of_likelihood_function if whole else M.find_max_probability_function
    given = xs if whole else T.array(xs)
    if T.raises(lambda: fn(given), ValueError):
        T.check("refused only without a positive score", T.not_(some))
        return
    T.check("a result only with a positive score", some)
    r = T.last
    if whole:
        T.check("function and score", T.truth(isinstance(r, tuple) and len(r) == 2))
        f = best(T, r[0], val, funcs)
        if f:
            T.check_eq("its score", T.scalar(r[1]), val[f])
    else:
        best(T, r, val, funcs)
    for s in seen[:1] + seen[-1:]:
        T.check_all_eq("the sample is scored as given", s, xs)


def h_bad(T, kind):
    M = T.mod(MOD + "maximum_likelihood")
    bad = {"empty": [], "text": ["a", "b"], "digits": ["1", "2"]}[kind]
    T.check("refused", T.truth(T.raises(lambda: M.find_result_of_likelihood_function(bad), ValueError if kind == "empty" else TypeError)))


def jobs(tier, seed):
    th = tier == "thorough"
    out = []
    w = 5 if th else 4
    for i in range(0, len(FAMS), 2 if not th else 1):
        free = tuple(FAMS[(i + j) % len(FAMS)] for j in range(w))
        for rest in (False, True):
            for whole in (False, True):
                n = 1 + i % 3
                out.append(Job("C36", f"{'result' if whole else 'best'}:{free[0]}..{free[-1]}:{'others equal' if rest else 'others zero'}:n={n}", h_best,
                               dict(n=n, free=free, rest=rest, whole=whole), seed=seed, max_paths=4000))
    for k in ("empty", "text", "digits"):
        out.append(Job("C36", f"refused:{k}", h_bad, dict(kind=k), seed=seed))
    return out
