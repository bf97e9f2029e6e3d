"""C02 multiple-testing decisions and validation."""
from .common import *
from .c01 import CLS, expected

ENCODED = ["AbstractMultipleTesting.test", "AbstractMultipleTesting._validate_p_values", "BonferroniMultipleTesting.test",
           "SidakMultipleTesting.test"]
BOUNDS = "all real p-values (validation) / p-values in [0,1] (decisions), all real thresholds, list lengths 0..3 in any order, 4 in ascending and descending order"
OUTSIDE = "longer lists; nan p-values"


def h_decide(T, name, n, order=None, default=False):
    cls = T.get(*CLS[name])
    ps = free(T, n, "p", 0, 1) if order is None else perm(ascending(T, n, "p", 0, 1, strict=True), order)
    if default:
        thr = T.const(0.05)
        rej, adj = cls.test(list(ps))
    else:
        thr = T.var("threshold", suggest=lambda r: Fraction(r.randrange(1, 255), 256))
        rej, adj = cls.test(list(ps), threshold=thr)
    want = expected(T, name, ps)
    T.check_all_eq("adjusted", adj, want)
    rej = T.values(rej)
    T.check("one decision per hypothesis", len(rej) == n)
    for i in range(n):
        T.check(f"rejected[{i}] exactly when the adjusted p-value is below the threshold",
                T.iff(T.truth(rej[i]), T.lt(want[i], thr)))


def h_valid(T, name, n, method):
    cls = T.get(*CLS[name])
    ps = free(T, n, "p", slo=-1, shi=2)
    bad = T.or_(*[T.or_(T.lt(p, 0), T.gt(p, 1)) for p in ps])
    f = (lambda: cls.test(list(ps))) if method == "test" else (lambda: cls.adjust(list(ps)))
    raised = T.raises(f, ValueError)
    T.observe("raised", raised)
    T.check("ValueError exactly when a p-value lies outside [0,1]", T.iff(T.truth(raised), bad))


def jobs(tier, seed):
    out = []
    th = tier == "thorough"
    for name in CLS:
        for n in range(0, 5 if th else 4):
            out.append(Job("C02", f"{name}:decide:n={n}", h_decide, dict(name=name, n=n), seed=seed, max_paths=20000,
                           budget_s=2000 if th else 150))
        for o in [(0, 1, 2, 3), (3, 2, 1, 0)]:
            out.append(Job("C02", f"{name}:decide:order={''.join(map(str, o))}", h_decide, dict(name=name, n=4, order=o), seed=seed,
                           max_paths=5000, budget_s=150))
        for n in (1, 3):
            out.append(Job("C02", f"{name}:default:n={n}", h_decide, dict(name=name, n=n, default=True), seed=seed,
                           max_paths=5000, budget_s=150))
        for n in (1, 2, 3) + ((4,) if th else ()):
            out.append(Job("C02", f"{name}:validate:n={n}", h_valid, dict(name=name, n=n, method="test"), seed=seed,
                           max_paths=20000, budget_s=150))
            if name in ("bonferroni", "sidak"):
                out.append(Job("C02", f"{name}:validate adjust:n={n}", h_valid, dict(name=name, n=n, method="adjust"), seed=seed,
                               max_paths=20000, budget_s=150))
    return out
