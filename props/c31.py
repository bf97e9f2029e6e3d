"""C31 contaminated-normal generators are two-component mixtures with independent observations."""
from itertools import permutations as _perms

from .c30 import GEN, pos, real
from .common import *
from .draws import Draws

ENCODED = ["LoConNormGenerator, ScConNormGenerator, MixConNormGenerator (generate, parameters)", "generate_lo_con_norm, generate_scale_con_norm, generate_mix_con_norm",
           "get_available_generator"]
BOUNDS = "samples of 1-3 values (4 thorough); every probability in (0,1), every location and scale, every outcome of every component choice and every normal draw"
OUTSIDE = "larger samples; p equal to 0 or 1; the quality of the library's random numbers"
ASSUMPTIONS = ["a component choice may have any outcome; the check compares the weight the code gave to that outcome with the component then used"]


def prob(T):
    return T.var("p", lo=0, hi=1, lo_open=True, hi_open=True, suggest=lambda r: Fraction(r.randint(1, 15), 32))


KINDS = {
    "LoConNormGenerator": ("LO_CON_NORMAL", "lo_con_norm", "generate_lo_con_norm", lambda T: dict(p=prob(T), a=real(T, "a")), lambda p: (p["a"], 1)),
    "ScConNormGenerator": ("SCALE_CON_NORMAL", "scale_con_norm", "generate_scale_con_norm", lambda T: dict(p=prob(T), b=pos(T, "b")), lambda p: (0, p["b"])),
    "MixConNormGenerator": ("MIX_CON_NORMAL", "mix_con_norm", "generate_mix_con_norm", lambda T: dict(p=prob(T), a=real(T, "a"), b=pos(T, "b")),
                            lambda p: (p["a"], p["b"])),
}


def h_mix(T, cls, n, how):
    dist, mod, fn, mk, comp = KINDS[cls]
    p = mk(T)
    loc, scale = comp(p)
    if how == "function":
        f = T.get("core.distributions." + mod, fn)
        gen = lambda m: f(m, **p)
    else:
        D = T.get("distribution.distribution_type", "DistributionType")
        g = T.get(GEN, cls)(**p) if how == "class" else T.get("utils.generator", "get_available_generator")(getattr(D, dist), dict(p))
        T.check("a generator of the requested type", T.truth(type(g).__name__ == cls and type(g).distribution_type() is getattr(D, dist)))
        ps = g.parameters()
        T.check("parameter names", T.truth(set(ps) == set(p)))
        for k in p:
            T.check_eq("parameter " + k, ps[k], p[k])
        gen = g.generate
    d = Draws(T)
    ys = list(T.values(gen(n)))
    T.check("requested size", T.truth(len(ys) == n))
    T.check("no fixed seed", T.truth(not d.other))
    T.check("a component choice for every value", T.truth(len(d.choices) == n or len(d.u) >= 2 * n))
    ppf = T.dist("norm").ppf
    zs = [T.scalar(ppf(u)) for u in d.u]
    w = p["p"]

    def contaminated(i):
        """the choice made for value i has the contaminated component's weight"""
        if len(d.choices) == n:
            return T.eq(d.choices[i], w), T.eq(d.choices[i], 1 - w)
        us = d.u
        return (T.or_(*[T.or_(T.le(u, w), T.ge(u, 1 - w)) for u in us]), T.or_(*[T.or_(T.ge(u, w), T.le(u, 1 - w)) for u in us]))

    opts = []
    cache = {}

    def ok(i, j):
        if (i, j) not in cache:
            c, o = contaminated(i)
            cache[i, j] = T.or_(T.and_(T.eq(ys[i], loc + scale * zs[j]), c), T.and_(T.eq(ys[i], zs[j]), o))
        return cache[i, j]
    for js in _perms(range(len(zs)), n):
        opts.append(T.and_(*[ok(i, j) for i, j in enumerate(js)]))
    T.check("every value is its own normal draw of the component chosen for it", T.or_(*opts))


def jobs(tier, seed):
    out = []
    for cls in KINDS:
        for how in ("class", "lookup", "function"):
            for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                out.append(Job("C31", f"{cls}:{how}:n={n}", h_mix, dict(cls=cls, n=n, how=how), seed=seed, budget_s=120))
    return out
