"""C26 lookups of stored limit distributions by criterion and sample size (single and bulk)."""
from .c25 import MODELS, Rec, fill, fresh, live, records, returned, small
from .common import *
from .sqlsim import World

ENCODED = ["AlchemyLimitDistributionStorage.get_data_for_cv/get_bulk_data/insert_data/insert_bulk_data", "LimitDistributionORM.from_model/to_model"]
BOUNDS = "up to 3 records (4 thorough) of symbolic size, count, experiment and parameter over two criterion codes; every requested size and every tolerance >= 0; requests for none, one, both or repeated or unknown codes"
OUTSIDE = "more records; which of several records with the same count is returned; concurrent sessions"
ASSUMPTIONS = ["the SQL statements the code builds are interpreted with SQL semantics over symbolic rows (replays run on SQLite)"]


def near(T, r, size, err):
    return T.and_(T.le(r.size, size + err), T.le(size - err, r.size))


def ask(T):
    size = T.var("size", lo=1, suggest=small)
    err = T.var("err", lo=0, suggest=lambda r: Fraction(r.randrange(0, 3)))
    return size, err


def check_best(T, res, recs, cand, what):
    if res is None:
        T.check(f"{what}: nothing found only if nothing is within the tolerance", T.not_(T.or_(T.truth(False), *cand)))
        return
    i = returned(T, res, recs, what)
    T.check(f"{what}: within the tolerance", cand[i])
    for j in range(len(recs)):
        if j != i:
            T.check(f"{what}: the largest simulation count", T.implies(cand[j], T.le(recs[j].mc, recs[i].mc)))


def h_cv(T, k, how, default):
    with World(T):
        recs = records(T, k)
        st = fresh(T)
        fill(T, st, recs, how)
        size, err = ask(T)
        code = T.choose("qcode", ["A", "B"])
        Q = T.get(MODELS, "CriticalValueQuery")
        if default:
            q = Q(code, size)
            err = T.const(0)
        else:
            q = Q(code, size, err)
        res = st.get_data_for_cv(q)
        check_best(T, res, recs, [T.and_(live(T, recs, i), T.truth(r.code == code), near(T, r, size, err)) for i, r in enumerate(recs)], "critical value query")


ASK = {"one": ["A"], "both": ["A", "B"], "reversed": ["B", "A"], "repeated": ["A", "A", "B"], "unknown": ["A", "C"], "none": []}


def h_bulk(T, k, which, default, how="bulk"):
    with World(T):
        recs = records(T, k)
        st = fresh(T)
        fill(T, st, recs, how)
        size, err = ask(T)
        codes = list(ASK[which])
        if default:
            err = T.const(0)
            res = st.get_bulk_data(codes, size)
        else:
            res = st.get_bulk_data(codes, size, err)
        T.check("the caller's list is unchanged", T.truth(codes == ASK[which]))
        got = [m.criterion_code for m in res]
        T.check("one record per criterion, of requested criteria only", T.truth(len(set(got)) == len(got) and all(c in codes for c in got)))
        by = {m.criterion_code: m for m in res}
        for code in sorted(set(codes)):
            check_best(T, by.get(code), recs, [T.and_(live(T, recs, i), T.truth(r.code == code), near(T, r, size, err)) for i, r in enumerate(recs)], f"criterion {code}")


def jobs(tier, seed):
    th = tier == "thorough"
    out = []
    for k in (0, 1, 2, 3, 4) if th else (0, 1, 2, 3):
        for default in (True, False):
            o = dict(seed=seed, max_paths=20000, budget_s=1500 if th else 300)
            t = "exact" if default else "tolerance"
            out.append(Job("C26", f"cv:k={k}:{t}", h_cv, dict(k=k, how="single" if default else "mixed", default=default), **o))
            for which in ASK:
                if k >= 3 and which in ("reversed", "repeated", "none") and not th:
                    continue
                out.append(Job("C26", f"bulk:{which}:k={k}:{t}", h_bulk, dict(k=k, which=which, default=default), **o))
    return out
