"""C06 simulated reference samples."""
from .common import *

ENCODED = ["MonteCarloLimitDistributionResolver.__init__/resolve", "StorageLimitDistributionResolver.resolve",
           "get_available_generator", "NormalRVSGenerator/ExponentialRVSGenerator/UniformRVSGenerator.generate",
           "GoodnessOfFitHypothesis.parameters"]
BOUNDS = ("simulation counts 1..6 (quick) / 1..12 (thorough), sample sizes 1..5, arbitrary simulated values; every integer count and "
          "sample size in [-1000, 0] for the validation; stored samples of 0..5 arbitrary values")
OUTSIDE = "larger counts; the distribution of the simulated values themselves (C30)"
ASSUMPTIONS = ["random draws are arbitrary values, the statistic is a stand-in returning an arbitrary value for each simulated sample"]
BASE = "hypothesis_testing.limit_distribution.base"


def size_of(args, kw):
    s = kw.get("size", None)
    if s is None:
        for a in reversed(args):
            if isinstance(a, int) and not isinstance(a, bool):
                return a
    return s


def make_stat(T, dist, params, log, out):
    Base = T.get("statistics.statistic", "AbstractGoodnessOfFitStatistic")
    H = T.get("statistics.hypothesis", "GoodnessOfFitHypothesis")
    alt = T.mod("statistics.alternative")
    D = T.get("distribution.distribution_type", "DistributionType")

    class S(Base):
        def hypothesis(self):
            return H(params)

        def alternative(self):
            return alt.RightAlternative()

        @staticmethod
        def short_code():
            return "S"

        @staticmethod
        def code():
            return "STAT_CODE"

        @staticmethod
        def distribution():
            return getattr(D, dist)

        def execute_statistic(self, rvs):
            log.append(list(T.values(rvs)))
            return out(rvs)

    return S()


CASES = {
    "NORMAL": (lambda T: {"mean": T.var("mean"), "var": T.var("var", lo=0, lo_open=True)}),
    "EXPONENTIAL": (lambda T: {"lam": T.var("lam", lo=0, lo_open=True)}),
    "UNIFORM": (lambda T: {"a": T.var("a", hi=0), "b": T.var("b", lo=1)}),
}


def h_mc(T, dist, count, n):
    params = CASES[dist](T)
    drawn = []
    k = [0]

    def draw(name, args, kw):
        m = size_of(args, kw)
        xs = []
        for _ in range(m):
            xs.append(T.var(f"d{k[0]}", suggest=lambda r: Fraction(r.randrange(-512, 512), 128)))
            k[0] += 1
        drawn.append(xs)
        return T.array(xs)

    T.rng_handler(draw)
    log = []
    vals = []

    def out(rvs):
        # arbitrary value per simulated sample, a different function of its position
        v = T.var(f"s{len(vals)}", suggest=lambda r: Fraction(r.randrange(-512, 512), 128))
        vals.append(v)
        return v
    stat = make_stat(T, dist, params, log, out)
    R = T.get(BASE, "MonteCarloLimitDistributionResolver")(count)
    res = R.resolve(stat, n)
    T.check("a list", T.truth(isinstance(res, list)))
    T.check("as many values as requested", T.truth(len(res) == count))
    T.check("one statistic per simulated sample", T.truth(len(log) == count))
    T.check("every sample is a fresh draw of the requested size", T.truth(len(drawn) == count and all(len(d) == n for d in drawn)))
    for i in range(count):
        T.check_eq(f"value {i}", res[i], vals[i])
        T.check_all_eq(f"sample {i}", log[i], drawn[i])
    # a second request simulates anew
    res2 = R.resolve(stat, n)
    T.check("fresh simulation on every request", T.truth(len(drawn) == 2 * count and len(res2) == count))
    for i in range(count):
        T.check_eq(f"second value {i}", res2[i], vals[count + i])
        T.check_eq(f"first result unchanged {i}", res[i], vals[i])


def h_stat(T, dist, count, n):
    """The value is the statistic of the sample: here a real criterion on the simulated draws."""
    params = {"mean": T.frac(0), "var": T.frac(1)}
    drawn = []
    k = [0]

    def draw(name, args, kw):
        m = size_of(args, kw)
        xs = []
        for _ in range(m):
            xs.append(T.var(f"d{k[0]}", suggest=lambda r: Fraction(r.randrange(-512, 512), 128)))
            k[0] += 1
        drawn.append(xs)
        return T.array(xs)

    T.rng_handler(draw)
    log = []
    stat = make_stat(T, dist, params, log, lambda rvs: sum(x * x for x in T.values(rvs)) + T.values(rvs)[0])
    res = T.get(BASE, "MonteCarloLimitDistributionResolver")(count).resolve(stat, n)
    T.check("count", T.truth(len(res) == count and len(drawn) == count))
    for v, d in zip(res, drawn):
        T.check_eq("statistic of the simulated sample", v, T.sum([x * x for x in d]) + d[0])


def h_count(T):
    c = T.var("count", lo=-1000, hi=0, integer=True, suggest=lambda r: Fraction(-r.randrange(0, 50)))
    R = T.get(BASE, "MonteCarloLimitDistributionResolver")
    T.check("non-positive simulation count refused", T.truth(T.raises(lambda: R(c), ValueError)))


def h_size(T):
    n = T.var("n", lo=-1000, hi=0, integer=True, suggest=lambda r: Fraction(-r.randrange(0, 50)))
    R = T.get(BASE, "MonteCarloLimitDistributionResolver")(3)
    T.rng_handler(lambda name, a, k: (_ for _ in ()).throw(AssertionError("no draw expected")))
    stat = make_stat(T, "NORMAL", {}, [], lambda r: 0)
    T.check("non-positive sample size refused", T.truth(T.raises(lambda: R.resolve(stat, n), ValueError)))


def h_storage(T, m, nparams):
    st = T.mod("persistence.models.limit_distribution")
    stored = free(T, m, "r") if m is not None else None
    pars = {f"p{i}": T.var(f"p{i}") for i in range(nparams)}
    n = T.var("n", lo=1, hi=10 ** 6, integer=True, suggest=lambda r: Fraction(r.randrange(1, 400)))
    asked = []

    class Model:
        results_statistics = stored

    class Storage(st.ILimitDistributionStorage):
        def init(self): pass
        def delete_data(self, q): raise AssertionError("delete")
        def insert_data(self, d): raise AssertionError("insert")
        def get_data_for_cv(self, q): raise AssertionError("cv query")
        def get_bulk_data(self, q): raise AssertionError("bulk query")

        def get_data(self, q):
            asked.append(q)
            return None if stored is None else Model()

    Storage.__abstractmethods__ = frozenset()
    stat = make_stat(T, "NORMAL", pars if nparams else None, [], lambda r: 0)
    res = T.get(BASE, "StorageLimitDistributionResolver")(Storage()).resolve(stat, n)
    T.check("one query", T.truth(len(asked) == 1))
    q = asked[0]
    T.check("criterion", T.truth(q.criterion_code == "STAT_CODE"))
    T.check_all_eq("parameters", q.criterion_parameters, list(pars.values()))
    T.check_eq("sample size", q.sample_size, n)
    if stored is None:
        T.check("nothing stored: no reference", T.truth(res is None))
    else:
        T.check("a new list", T.truth(isinstance(res, list)))
        T.check_all_eq("stored values, in order", res, stored)


def jobs(tier, seed):
    th = tier == "thorough"
    out = []
    kw = dict(seed=seed, max_paths=2000, budget_s=300)
    for dist in CASES:
        for count in (range(1, 13) if th else (1, 2, 3, 6)):
            for n in ((1, 2, 3, 5) if th else (1, 3)):
                out.append(Job("C06", f"mc:{dist}:count={count}:n={n}", h_mc, dict(dist=dist, count=count, n=n), **kw))
    for count in (1, 2, 4):
        out.append(Job("C06", f"stat:count={count}", h_stat, dict(dist="NORMAL", count=count, n=3), **kw))
    out.append(Job("C06", "count", h_count, **kw))
    out.append(Job("C06", "size", h_size, **kw))
    for m in (None, 0, 1, 2, 5):
        for p in (0, 1, 2):
            out.append(Job("C06", f"storage:m={m}:params={p}", h_storage, dict(m=m, nparams=p), **kw))
    return out
