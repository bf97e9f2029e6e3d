"""C28 the critical value loader brings missing data into the local storage, and only that."""
import logging

from .c25 import MODELS, Ask, fill, fresh, live, records, small
from .c26 import ASK, ask, near
from .common import *
from .sqlsim import World

ENCODED = ["CriticalValueLoader.__init__/load/load_bulk", "AlchemyLimitDistributionStorage.get_data_for_cv/get_bulk_data/insert_data/insert_bulk_data"]
BOUNDS = "up to 2 local and 2 remote records (3 thorough) of symbolic size, count, experiment and parameter over two criterion codes; every requested size and tolerance >= 0; with and without a remote storage; at most two requests in a row"
OUTSIDE = "a storage that fails in the middle of a request; more records; concurrent loads; the log messages"
ASSUMPTIONS = ["the SQL statements the code builds are interpreted with SQL semantics over symbolic rows (replays run on SQLite)"]
logging.disable(logging.CRITICAL)
LOADER = "hypothesis_testing.critical_values.loader.remote_loader"


class Two:
    def __init__(self, T, nl, nr, remote=True):
        self.T = T
        self.loc = records(T, nl, 1, "l", both=False)
        self.rem = records(T, nr, 1, "r") if remote else []
        for r in self.rem:
            r.i += 10
        self.all = {r.i: r for r in self.loc + self.rem}
        self.local = fresh(T, "local")
        fill(T, self.local, self.loc, "bulk")
        self.remote = None
        if remote:
            self.remote = fresh(T, "remote")
            T.check("two storages", T.truth(self.remote is not self.local))
            fill(T, self.remote, self.rem, "bulk")
        self.loader = T.get(LOADER, "CriticalValueLoader")(self.local, self.remote)

    def has(self, recs, code, size, err):
        T = self.T
        return T.or_(T.truth(False), *[T.and_(live(T, recs, i), T.truth(r.code == code), near(T, r, size, err)) for i, r in enumerate(recs)])

    def find(self, st, code, size, err):
        res = st.get_data_for_cv(self.T.get(MODELS, "CriticalValueQuery")(code, size, err))
        return None if res is None else int(res.results_statistics[0])

    def remote_best(self, i, code, size, err, what):
        T = self.T
        r = self.all[i]
        k = [x.i for x in self.rem].index(i)
        T.check(f"{what}: a matching remote record", T.and_(live(T, self.rem, k), T.truth(r.code == code), near(T, r, size, err)))
        for j, o in enumerate(self.rem):
            if o is not r:
                T.check(f"{what}: the remote record of the largest count", T.implies(
                    T.and_(live(T, self.rem, j), T.truth(o.code == code), near(T, o, size, err)), T.le(o.mc, r.mc)))

    def untouched(self, st, recs, code, q, what, extra=None):
        """an arbitrary exact query still answers from the records that were there before"""
        T = self.T
        res = st.get_data(q.query(T))
        cand = [T.and_(live(T, recs, i), q.match(T, r)) for i, r in enumerate(recs)]
        if res is None:
            T.check(f"{what}: nothing is lost", T.not_(T.or_(T.truth(False), *cand)))
            return
        i = int(res.results_statistics[0])
        k = [r.i for r in recs].index(i) if i in [r.i for r in recs] else None
        T.check(f"{what}: nothing else is added", T.truth(k is not None or i in (extra or [])))
        if k is not None:
            T.check(f"{what}: still the same records", cand[k])


def h_load(T, nl, nr, remote, default):
    with World(T):
        w = Two(T, nl, nr, remote)
        size, err = ask(T)
        code = T.choose("qcode", ["A", "B"])
        if default:
            err = T.const(0)
            ok = w.loader.load(code, size)
        else:
            ok = w.loader.load(code, size, err)
        l, r = w.has(w.loc, code, size, err), w.has(w.rem, code, size, err)
        T.check("true exactly if the local or the remote storage has the data", T.iff(T.truth(bool(ok)), T.or_(l, r)))
        i = w.find(w.local, code, size, err)
        T.check("afterwards the local storage has the data exactly if loading succeeded", T.truth((i is not None) == bool(ok)))
        new = i is not None and i >= 10
        T.check("data already present locally are not replaced", T.implies(l, T.truth(not new)))
        if new:
            w.remote_best(i, code, size, err, "loaded")
        q = Ask(T, "t", 1, False, T.choose("tcode", ["A", "B"]))
        w.untouched(w.local, w.loc, code, q, "local storage", [i] if new else [])


def h_remote(T, nr, bulk):
    """the remote storage is only read"""
    with World(T):
        w = Two(T, 1, nr)
        size, err = ask(T)
        if bulk:
            w.loader.load_bulk(["A", "B"], size, err)
        else:
            w.loader.load("A", size, err)
        q = Ask(T, "t", 1, False, T.choose("tcode", ["A", "B"]))
        w.untouched(w.remote, w.rem, None, q, "remote storage")


def h_twice(T, nr):
    """loading again changes nothing"""
    with World(T):
        w = Two(T, 1, nr)
        size, err = ask(T)
        a = w.loader.load("A", size, err)
        i = w.find(w.local, "A", size, err)
        b = w.loader.load("A", size, err)
        T.check("the same answer", T.truth(bool(a) == bool(b)))
        T.check("the same data", T.truth(w.find(w.local, "A", size, err) == i))


def h_bulk(T, nl, nr, which, remote):
    with World(T):
        w = Two(T, nl, nr, remote)
        size, err = ask(T)
        codes = list(ASK[which])
        out = w.loader.load_bulk(codes, size, err)
        T.check("the caller's list is unchanged", T.truth(codes == ASK[which]))
        T.check("requested count", T.truth(out.requested_count == len(codes)))
        if not remote:
            T.check("without a remote storage nothing is found", T.truth(out.newly_cached_count == 0 and list(out.not_found_codes) == codes))
            return
        after = {c: w.find(w.local, c, size, err) for c in sorted(set(codes))}
        n_new = sum(1 for i in after.values() if i is not None and i >= 10)
        n_old = sum(1 for c in codes if after[c] is not None and after[c] < 10)
        T.check("newly cached count", T.truth(out.newly_cached_count == n_new))
        T.check("already cached count", T.truth(out.already_cached_count == n_old))
        T.check("codes not found", T.truth(list(out.not_found_codes) == [c for c in codes if after[c] is None]))
        for c, i in after.items():
            l, r = w.has(w.loc, c, size, err), w.has(w.rem, c, size, err)
            T.check("afterwards present locally exactly if either storage has it", T.iff(T.truth(i is not None), T.or_(l, r)))
            if i is not None and i >= 10:
                T.check("data already present locally are not replaced", T.not_(l))
                w.remote_best(i, c, size, err, f"criterion {c}")
        q = Ask(T, "t", 1, False, T.choose("tcode", ["A", "B"]))
        w.untouched(w.local, w.loc, None, q, "local storage", [i for i in after.values() if i is not None and i >= 10])


def jobs(tier, seed):
    th = tier == "thorough"
    o = dict(seed=seed, max_paths=20000, budget_s=1500 if th else 300)
    out = []
    for nl in (0, 1, 2):
        out.append(Job("C28", f"load:no remote:l={nl}", h_load, dict(nl=nl, nr=0, remote=False, default=False), **o))
    for nl, nr in [(0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 1)] + ([(2, 2), (1, 3)] if th else []):
        for default in (True, False):
            out.append(Job("C28", f"load:l={nl}:r={nr}:{'exact' if default else 'tolerance'}", h_load, dict(nl=nl, nr=nr, remote=True, default=default), **o))
        for which in ASK:
            if nl + nr >= 3 and which in ("one", "none", "reversed") and not th:
                continue
            out.append(Job("C28", f"bulk:{which}:l={nl}:r={nr}", h_bulk, dict(nl=nl, nr=nr, which=which, remote=True), **o))
    for which in ASK:
        out.append(Job("C28", f"bulk:{which}:no remote", h_bulk, dict(nl=1, nr=0, which=which, remote=False), **o))
    for nr in (1, 2):
        out.append(Job("C28", f"remote:load:r={nr}", h_remote, dict(nr=nr, bulk=False), **o))
        out.append(Job("C28", f"remote:bulk:r={nr}", h_remote, dict(nr=nr, bulk=True), **o))
        out.append(Job("C28", f"twice:r={nr}", h_twice, dict(nr=nr), **o))
    return out
