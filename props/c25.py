"""C25 a stored limit distribution is found again, exactly; deleting removes it and nothing else."""
from .common import *
from .sqlsim import World

ENCODED = ["AlchemyLimitDistributionStorage.create_safe/init/insert_data/insert_bulk_data/get_data/delete_data",
           "LimitDistributionORM.from_model/to_model", "CompressedFloatArray.process_bind_param/process_result_value"]
BOUNDS = "up to 3 records (4 thorough) of symbolic experiment, size, count and parameter over two criterion codes, every pattern of equal and unequal keys; one query or one deletion followed by any query; records of 0..3 arbitrary simulated values (0..5 thorough), and of 300 and 70000 values of which three are arbitrary"
OUTSIDE = ("more records, more values and longer histories; simulated values beyond the single-precision range; "
           "parameters are compared as the JSON text they are stored as; concurrent sessions")
ASSUMPTIONS = ["the SQL statements the code builds are interpreted with SQL semantics over symbolic rows (replays run on SQLite)",
               "zstandard's decompression undoes its compression; numpy's binary image of an array reads back as the array in the same format"]
MODELS = "persistence.models.limit_distribution"
STORE = "persistence.sqlalchemy.datastorage"


def small(r):
    return Fraction(r.randrange(1, 4))


class Rec:
    def __init__(self, T, i, code, np_=1, tag="r"):
        self.i = i
        self.code = code
        self.exp = T.var(f"{tag}e{i}", suggest=small)
        self.par = [T.var(f"{tag}p{i}_{j}", suggest=small) for j in range(np_)]
        self.size = T.var(f"{tag}s{i}", lo=1, suggest=small)
        self.mc = T.var(f"{tag}m{i}", lo=1, suggest=small)

    def model(self, T):
        return T.get(MODELS, "LimitDistributionModel")(self.exp, self.code, list(self.par), self.size, self.mc, [float(self.i)])

    def same_pars(self, T, par):
        if len(par) != len(self.par):
            return T.truth(False)
        return T.and_(T.truth(True), *[T.eq(a, b) for a, b in zip(self.par, par)])

    def same_key(self, T, o):
        return T.and_(T.truth(self.code == o.code), T.eq(self.exp, o.exp), self.same_pars(T, o.par), T.eq(self.size, o.size), T.eq(self.mc, o.mc))


def records(T, k, np_=1, tag="r", both=True):
    return [Rec(T, i, T.choose(f"{tag}code{i}", ["A", "B"]) if both and i == k - 1 else "A", np_, tag) for i in range(k)]


def live(T, recs, i):
    """record i has not been overwritten by a later one with the same key"""
    return T.and_(T.truth(True), *[T.not_(recs[i].same_key(T, recs[j])) for j in range(i + 1, len(recs))])


def fresh(T, tag="Database"):
    st = T.get(STORE, "AlchemyLimitDistributionStorage").create_safe("sqlite:///:memory:", tag)
    T.check("the storage opens", T.truth(st is not None))
    return st


def fill(T, st, recs, how):
    ms = [r.model(T) for r in recs]
    if how == "single":
        for m in ms:
            st.insert_data(m)
    elif how == "bulk":
        st.insert_bulk_data(ms)
    else:
        st.insert_bulk_data(ms[:1])
        st.insert_bulk_data([])
        for m in ms[1:]:
            st.insert_data(m)
    for r, m in zip(recs, ms):
        T.check("the caller's record keeps its code and values", T.truth(m.criterion_code == r.code and m.results_statistics == [float(r.i)]))
        T.check_all_eq("the caller's record is unchanged", [m.experiment_id, m.sample_size, m.monte_carlo_count] + list(m.criterion_parameters),
                       [r.exp, r.size, r.mc] + r.par)


def returned(T, res, recs, what="result"):
    """index of the record the storage returned, all of whose fields must be that record's"""
    idx = int(res.results_statistics[0])
    T.check(f"{what}: the values of one record", T.truth(len(res.results_statistics) == 1 and 0 <= idx < len(recs)))
    r = recs[idx]
    T.check(f"{what}: the record's code", T.truth(res.criterion_code == r.code))
    T.check(f"{what}: as many parameters", T.truth(len(res.criterion_parameters) == len(r.par)))
    T.check(f"{what}: the record's fields", T.and_(r.same_pars(T, list(res.criterion_parameters)), T.eq(res.experiment_id, r.exp),
                                                   T.eq(res.sample_size, r.size), T.eq(res.monte_carlo_count, r.mc)))
    return idx


def expect_best(T, res, recs, cand, what):
    """res is None iff no candidate; otherwise a candidate none of the others beats (count, then experiment)"""
    if res is None:
        T.check(f"{what}: nothing found only if nothing matches", T.not_(T.or_(T.truth(False), *cand)))
        return
    i = returned(T, res, recs, what)
    T.check(f"{what}: the record matches", cand[i])
    for j in range(len(recs)):
        if j != i:
            ri, rj = recs[i], recs[j]
            ok = T.or_(T.lt(rj.mc, ri.mc), T.and_(T.eq(rj.mc, ri.mc), T.le(rj.exp, ri.exp)))
            T.check(f"{what}: largest count, then latest experiment", T.implies(cand[j], ok))


class Ask:
    def __init__(self, T, n, np_, count, code):
        self.code = code
        self.par = [T.var(f"{n}p{j}", suggest=small) for j in range(np_)]
        self.size = T.var(f"{n}s", lo=1, suggest=small)
        self.mc = T.var(f"{n}m", lo=1, suggest=small) if count else None

    def query(self, T):
        return T.get(MODELS, "LimitDistributionQuery")(self.code, list(self.par), self.size, self.mc)

    def match(self, T, r):
        c = [T.truth(r.code == self.code), r.same_pars(T, self.par), T.eq(r.size, self.size)]
        if self.mc is not None:
            c.append(T.eq(r.mc, self.mc))
        return T.and_(*c)


def h_get(T, k, how, count, np_=1):
    with World(T):
        recs = records(T, k, np_)
        st = fresh(T)
        fill(T, st, recs, how)
        q = Ask(T, "q", np_, count, T.choose("qcode", ["A", "B"]) if k > 1 else "A")
        res = st.get_data(q.query(T))
        expect_best(T, res, recs, [T.and_(live(T, recs, i), q.match(T, recs[i])) for i in range(k)], "query")


def h_delete(T, k, how, count):
    with World(T):
        recs = records(T, k)
        st = fresh(T)
        fill(T, st, recs, how)
        d = Ask(T, "d", 1, True, "A")
        st.delete_data(d.query(T))
        q = Ask(T, "q", 1, count, T.choose("qcode", ["A", "B"]) if k > 1 else "A")
        res = st.get_data(q.query(T))
        expect_best(T, res, recs, [T.and_(live(T, recs, i), T.not_(d.match(T, recs[i])), q.match(T, recs[i])) for i in range(k)], "after deletion")


def h_lengths(T):
    """parameter lists of different lengths are different keys"""
    with World(T):
        a = T.var("a", suggest=small)
        b = T.var("b", suggest=small)
        recs = []
        for i, par in enumerate([[], [a], [a, b]]):
            r = Rec(T, i, "A", 0)
            r.par, r.exp, r.size, r.mc = par, T.const(1), T.const(5), T.const(100)
            recs.append(r)
        st = fresh(T)
        fill(T, st, recs, "single")
        Q = T.get(MODELS, "LimitDistributionQuery")
        for i, par in enumerate([[], [a], [a, b]]):
            res = st.get_data(Q("A", list(par), T.const(5), T.const(100)))
            T.check("found", T.truth(res is not None))
            T.check("the record of exactly these parameters", T.truth(returned(T, res, recs) == i))
        res = st.get_data(Q("A", [b, a], T.const(5), T.const(100)))
        if res is None:
            T.check("order of parameters matters", T.not_(T.eq(a, b)))
        else:
            T.check("order of parameters matters", T.eq(a, b))


def h_reinsert(T):
    """delete, then insert again: found again with the new values"""
    with World(T):
        recs = records(T, 2, 1, both=False)
        st = fresh(T)
        fill(T, st, recs[:1], "single")
        d = Ask(T, "d", 1, True, "A")
        st.delete_data(d.query(T))
        fill(T, st, recs[1:], "bulk")
        q = Ask(T, "q", 1, False, "A")
        res = st.get_data(q.query(T))
        cand = [T.and_(T.not_(d.match(T, recs[0])), T.not_(recs[0].same_key(T, recs[1])), q.match(T, recs[0])), q.match(T, recs[1])]
        expect_best(T, res, recs, cand, "after delete and insert")


def third(r):
    return Fraction(r.randrange(-999, 1000), 3 * r.randrange(1, 40))


def single(T, v):
    return T.array([v]).astype("float32")[0]


def h_values(T, n, how):
    """the simulated values come back in order, at most rounded to single precision"""
    with World(T):
        vals = [T.var(f"v{i}", suggest=third) for i in range(n)]
        given = list(vals)
        other = [T.var(f"w{i}", suggest=third) for i in range(2)]
        M, Q = T.get(MODELS, "LimitDistributionModel"), T.get(MODELS, "LimitDistributionQuery")
        st = fresh(T)
        ms = [M(1, "A", [2], 10, 100, given), M(1, "B", [2], 10, 100, list(other))]
        if how == "bulk":
            st.insert_bulk_data(ms)
        else:
            for m in ms:
                st.insert_data(m)
        T.check("as many values in the caller's list", T.truth(len(given) == n))
        T.check_all_eq("the caller's list is unchanged", given, vals)
        for code, want in (("A", vals), ("B", other)):
            res = st.get_data(Q(code, [2], 10, 100))
            T.check(f"{code}: found", T.truth(res is not None))
            got = list(res.results_statistics)
            T.check(f"{code}: as many values", T.truth(len(got) == len(want)))
            for i, (g, v) in enumerate(zip(got, want)):
                T.check(f"{code}: value {i}", T.or_(T.eq(g, v), T.eq(g, single(T, v))))


def h_codec(T, n, use32):
    """the column type on its own, in both precisions"""
    with World(T):
        C = T.get("persistence.sqlalchemy.alchemy_decorator", "CompressedFloatArray")
        vals = [T.var(f"v{i}", suggest=third) for i in range(n)]
        a, b = C(use_float32=use32), C(use_float32=not use32)
        data = a.process_bind_param(list(vals), None)
        for reader in (a, b):   # the stored form says which precision it has
            got = list(reader.process_result_value(data, None))
            T.check("as many values", T.truth(len(got) == n))
            for i, (g, v) in enumerate(zip(got, vals)):
                if use32:
                    T.check(f"value {i}", T.or_(T.eq(g, v), T.eq(g, single(T, v))))
                else:
                    T.check_eq(f"value {i}", (g - v) * 2 ** 40, T.const(0))
        T.check("nothing stays nothing", T.truth(a.process_bind_param(None, None) is None and a.process_result_value(None, None) is None))


def h_long(T, n, use32, lib):
    """a long record: all values fixed (and exact in single precision) but three"""
    with World(T):
        at = {0: "first", n // 2: "middle", n - 1: "last"}
        vals = [T.var(at[i], suggest=third) if i in at else T.frac(i % 4096, 8) for i in range(n)]
        if lib:
            M, Q = T.get(MODELS, "LimitDistributionModel"), T.get(MODELS, "LimitDistributionQuery")
            st = fresh(T)
            st.insert_data(M(1, "A", [2], 10, n, list(vals)))
            got = list(st.get_data(Q("A", [2], 10, n)).results_statistics)
        else:
            C = T.get("persistence.sqlalchemy.alchemy_decorator", "CompressedFloatArray")(use_float32=use32)
            got = list(C.process_result_value(C.process_bind_param(list(vals), None), None))
        T.check("as many values", T.truth(len(got) == n))
        for i, nm in at.items():
            if i < len(got):
                T.check(f"{nm} value", T.or_(T.eq(got[i], vals[i]), T.eq(got[i], single(T, vals[i]))))
        T.check("all other values", T.truth(all(i in at or float(T.scalar(g)) == (i % 4096) / 8 if T.real else i in at or T.scalar(g).c == Fraction(i % 4096, 8)
                                                for i, g in enumerate(got))))


def jobs(tier, seed):
    th = tier == "thorough"
    out = [Job("C25", "lengths", h_lengths, {}, seed=seed), Job("C25", "reinsert", h_reinsert, {}, seed=seed)]
    for k in (1, 2, 3, 4) if th else (1, 2, 3):
        for how in ("single", "bulk", "mixed"):
            for count in (False, True):
                if k >= 3 and not th and (how == "mixed") != count and how != "single":
                    continue
                out.append(Job("C25", f"get:{how}:k={k}:{'count' if count else 'any'}", h_get, dict(k=k, how=how, count=count), seed=seed, max_paths=20000, budget_s=1500 if th else 300))
        if k <= (3 if th else 2):
            for count in (False, True):
                out.append(Job("C25", f"delete:k={k}:{'count' if count else 'any'}", h_delete, dict(k=k, how="single" if count else "bulk", count=count), seed=seed, max_paths=20000, budget_s=1500 if th else 300))
    for n in (0, 1, 2, 3, 5) if th else (0, 1, 3):
        for how in ("single", "bulk"):
            out.append(Job("C25", f"values:{how}:n={n}", h_values, dict(n=n, how=how), seed=seed))
        for u in (False, True):
            out.append(Job("C25", f"codec:{32 if u else 64}:n={n}", h_codec, dict(n=n, use32=u), seed=seed))
    for n in (300, 70000):
        for u, lib in ((True, False), (False, False), (True, True)):
            out.append(Job("C25", f"long:{'stored' if lib else 32 if u else 64}:n={n}", h_long, dict(n=n, use32=u, lib=lib), seed=seed))
    out.append(Job("C25", "get:two parameters", h_get, dict(k=2, how="single", count=False, np_=2), seed=seed))
    return out
