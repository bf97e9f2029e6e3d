"""Symbolic values, path exploration and solver queries.

A value is a Laurent polynomial with rational coefficients over *atoms*.  Atoms are
inputs (real symbols) or applications of operations that are not polynomial:
sqrt, exp, log, reciprocal of a sum, if-then-else, uninterpreted library functions.
Atoms are hash-consed on the canonical form of their arguments, so that two
computations of the same mathematical quantity share one atom.

Branching on a symbolic condition forks: the function under analysis is re-executed
with a prefix of recorded decisions until every feasible path has been covered.
Feasibility and the final obligations are decided by z3.
"""

from __future__ import annotations

import functools
import math
import os
import pickle
import random
import select
import signal
import time
from fractions import Fraction

import z3

import sys

sys.set_int_max_str_digits(0)
PRIME = (1 << 61) - 1


class Unsupported(Exception):
    """The code under analysis used something the engine has no model for."""


class Budget(Exception):
    """A path or time budget was exhausted (inconclusive, never success)."""


class PathAbort(BaseException):
    """Current path is infeasible."""


CTX = None


def ctx():
    if CTX is None:
        raise RuntimeError("no active symbolic context")
    return CTX


# --------------------------------------------------------------------------- polynomials
# poly: dict[monomial -> Fraction]; monomial: tuple of (atom_id, exp) sorted by atom_id


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def p_add(a, b, sign=1):
    if len(a) < len(b) and sign == 1:
        a, b = b, a
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + (c if sign == 1 else -c)
        if v == 0:
            out.pop(m, None)
        else:
            out[m] = v
    return out


def p_scale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


MAX_TERMS = 60000


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1:
        (m, c), = a.items()
        if not m:
            return p_scale(b, c)
    if len(b) == 1:
        (m, c), = b.items()
        if not m:
            return p_scale(a, c)
    if len(a) * len(b) > 400000:
        raise Unsupported("polynomial too large")
    out = {}
    dirty = False
    cx = CTX
    red = cx.reducible if cx is not None else ()
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            v = out.get(m, 0) + c1 * c2
            if v == 0:
                del out[m]
            else:
                out[m] = v
    if len(out) > MAX_TERMS:
        raise Unsupported("polynomial too large")
    if red:
        for m in out:
            for aid, e in m:
                if aid in red and (e > 1 or e < 0):
                    dirty = True
                    break
            if dirty:
                break
        if dirty:
            out = cx.reduce(out)
    return out


def p_const(a):
    """Return Fraction if constant else None."""
    if not a:
        return Fraction(0)
    if len(a) == 1:
        c = a.get(())
        if c is not None:
            return c
    return None


def p_pow(a, n):
    out = {(): Fraction(1)}
    base = a
    while n:
        if n & 1:
            out = p_mul(out, base)
        n >>= 1
        if n:
            base = p_mul(base, base)
    return out


ONE = {(): Fraction(1)}


# --------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = (
        "id", "kind", "args", "name", "sign", "fp", "z3v", "num", "deps", "axiomatised",
    )

    def __init__(self, id, kind, args, name, sign, fp):
        self.id = id
        self.kind = kind      # 'sym', 'fun', 'sqrt', 'inv', 'ite', 'max'
        self.args = args      # tuple of Sym / SymBool / constants
        self.name = name
        self.sign = sign      # 'pos', 'nonneg', None
        self.fp = fp
        self.z3v = z3.Real(f"{name}!{id}")
        self.deps = None
        self.axiomatised = False

    def __repr__(self):
        return f"{self.name}#{self.id}"


class Ctx:
    """State of one harness run: atoms, assumptions, paths, statistics."""

    def __init__(self, timeout_ms=4000, max_paths=2000, deadline=None):
        self.atoms = []
        self.by_key = {}
        self.reducible = {}       # atom id -> poly value of atom**2 (sqrt atoms)
        self.fpcache = {}
        self.constcache = {}
        self.assumptions = []     # SymBool, global (before run)
        self.timeout_ms = timeout_ms
        self.busy, self.last = False, time.time()          # (watched by the harness: is the code still getting anywhere?)
        self.max_paths = max_paths
        self.deadline = deadline
        # path state
        self.decisions = []
        self.pos = 0
        self.pc = []              # list of SymBool on this path
        self.def_code = {}        # those of them only the code under test (not the reference) relies on
        self.defined = []         # definedness side conditions on this path
        self.known = {}           # cache of decided conditions on this path
        self.frontier = []
        self.forks = 0
        # statistics
        self.queries = 0
        self.solver_s = 0.0
        self.unknowns = 0
        self._opaque = False
        self.depth_sign = 0
        self.paths = 0
        self.inputs = {}          # name -> Sym
        self.log = []
        self._rng = 0x9E3779B97F4A7C15
        self._zcache = {}
        self._memo = {}
        self.notes = set()
        self.assume_defined = True
        self.axiom_hooks = []
        self._lin = z3.Real("one")
        self.suggest = {}         # input atom id -> value suggestion (rng -> Fraction)
        self._pool = None
        self.pool_size = 24
        self.pool_hits = 0
        self._reset_alive()
        self.path_signed, self.path_rad, self._sums, self._orient, self._orient_env = [], {}, {}, {}, None
        self.path_inv = set()

    # -- fingerprints
    def _rand(self):
        x = self._rng
        x ^= (x << 13) & 0xFFFFFFFFFFFFFFFF
        x ^= x >> 7
        x ^= (x << 17) & 0xFFFFFFFFFFFFFFFF
        self._rng = x
        return x % PRIME

    def fp(self, poly):
        tot = 0
        cache = self.fpcache
        for m, c in poly.items():
            k = m
            v = cache.get(k)
            if v is None:
                v = 1
                for aid, e in m:
                    base = self.atoms[aid].fp
                    v = v * pow(base, e % (PRIME - 1), PRIME) % PRIME
                cache[k] = v
            cn = c.numerator % PRIME
            if c.denominator != 1:
                cn = cn * pow(c.denominator % PRIME, PRIME - 2, PRIME) % PRIME
            tot = (tot + cn * v) % PRIME
        return tot

    def new_atom(self, kind, args, name, sign=None, fp=None):
        a = Atom(len(self.atoms), kind, args, name, sign, fp if fp is not None else self._rand())
        self.atoms.append(a)
        return a

    def symbol(self, name, sign=None):
        key = ("sym", name)
        a = self.by_key.get(key)
        if a is None:
            a = self.new_atom("sym", (), name, sign)
            self.by_key[key] = a
            s = Sym({((a.id, 1),): Fraction(1)})
            self.inputs[name] = s
        return self.inputs[name]

    def reduce(self, poly):
        """Bring exponents of sqrt atoms into {0, 1}."""
        red = self.reducible
        while True:
            bad = None
            good = {}
            todo = []
            for m, c in poly.items():
                hit = None
                for aid, e in m:
                    if aid in red and (e > 1 or e < 0):
                        hit = (aid, e)
                        break
                if hit is None:
                    good[m] = c
                else:
                    todo.append((m, c, hit))
            if not todo:
                return poly
            out = good
            for m, c, (aid, e) in todo:
                rest = tuple(x for x in m if x[0] != aid)
                q, r = divmod(e, 2)
                sq = red[aid]
                if r:
                    rest = _mono_mul(rest, ((aid, 1),))
                if q > 0:
                    f = p_pow(sq, q)
                else:
                    f = p_pow(p_inv(sq), -q)
                term = {rest: c}
                # multiply without reduction recursion trouble
                prod = {}
                for m2, c2 in f.items():
                    mm = _mono_mul(rest, m2)
                    v = prod.get(mm, 0) + c * c2
                    if v == 0:
                        prod.pop(mm, None)
                    else:
                        prod[mm] = v
                out = p_add(out, prod)
            poly = out

    # -- lookup or create an application atom
    def app(self, kind, name, args, sign=None, extra=None):
        """args: tuple of Sym (or hashables). Returns atom."""
        keyparts = []
        cargs = []
        for a in args:
            if isinstance(a, Sym):
                a = a.canon()
                cargs.append(a)
                keyparts.append(("p", self.fp(a.p)))
            elif isinstance(a, SymBool):
                cargs.append(a)
                keyparts.append(("b", a.key()))
            else:
                cargs.append(a)
                keyparts.append(("c", a))
        key = (kind, name, tuple(keyparts), extra)
        lst = self.by_key.setdefault(key, [])
        for at in lst:
            same = True
            for x, y in zip(at.args, cargs):
                if isinstance(x, Sym):
                    if x.p != y.p and not p_equal(x.p, y.p):
                        same = False
                        break
            if same:
                return at
        at = self.new_atom(kind, tuple(cargs), name, sign)
        lst.append(at)
        return at

    # -- z3 translation
    def z3atom(self, aid, exp):
        a = self.atoms[aid]
        if exp > 0:
            return a.z3v
        key = ("inv", aid)
        v = self._zcache.get(key)
        if v is None:
            v = z3.Real(f"inv!{aid}")
            self._zcache[key] = v
        return v

    def z3poly(self, poly):
        terms = []
        for m, c in poly.items():
            fs = []
            if self._opaque and (len(m) > 1 or m and m[0][1] != 1):
                v = self._zcache.get(("mono", m))
                if v is None:
                    v = self._zcache[("mono", m)] = z3.Real(f"mono!{len(self._zcache)}")
                k = z3.RealVal(c.numerator) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)
                terms.append(v if c == 1 else k * v)
                continue
            for aid, e in m:
                v = self.z3atom(aid, e)
                if abs(e) > 64:
                    fs.append(v ** z3.RealVal(abs(e)))
                else:
                    fs.extend([v] * abs(e))
            k = z3.RealVal(c.numerator) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)
            if not fs:
                terms.append(k)
            else:
                t = fs[0]
                if len(fs) > 1:
                    t = z3.Product(*fs)
                terms.append(t if c == 1 else k * t)
        if not terms:
            return z3.RealVal(0)
        if len(terms) == 1:
            return terms[0]
        return z3.Sum(*terms)

    def atom_closure(self, polys_bools):
        """All atom ids reachable from the given polys (through atom arguments)."""
        seen = set()
        stack = list(polys_bools)
        inv = set()
        while stack:
            p = stack.pop()
            if isinstance(p, SymBool):
                stack.extend(p.polys())
                continue
            for m in p:
                for aid, e in m:
                    if e < 0 and aid not in inv:
                        inv.add(aid)
                        a = self.atoms[aid]
                        if a.kind == "sum":
                            stack.append(a.args[0].p)
                    if aid not in seen:
                        seen.add(aid)
                        a = self.atoms[aid]
                        for x in a.args:
                            if isinstance(x, Sym):
                                stack.append(x.p)
                            elif isinstance(x, SymBool):
                                stack.extend(x.polys())
                        if aid in self.reducible:
                            stack.append(self.reducible[aid])
                        ex = EXTRA_DEPS.get(a.name)
                        if ex:
                            for q in ex(a):
                                stack.append(q.p)
        return seen, inv

    def _opaque_unsat(self, bools, timeout_ms):
        """Sound quick test: every product, root, quotient and transcendental value is an unconstrained real.
        Only the case distinctions (ite, max, min, abs) keep their meaning; 'unsat' here is 'unsat'."""
        seen = set()
        stack = []
        for b in bools:
            stack.extend(b.polys())
        cases = False
        while stack:
            for m in stack.pop():
                if len(m) != 1 or m[0][1] != 1 or m[0][0] in seen:
                    continue
                aid = m[0][0]
                seen.add(aid)
                a = self.atoms[aid]
                if a.kind in ("ite", "max", "min", "abs", "floor"):
                    cases = True
                    for x in a.args:
                        if isinstance(x, Sym):
                            stack.append(x.p)
                        elif isinstance(x, SymBool):
                            stack.extend(x.polys())
        if not cases:
            return False
        s = z3.Solver()
        s.set("timeout", int(timeout_ms))
        s.set("random_seed", 1)
        self._opaque = True
        try:
            for b in bools:
                s.add(b.z3())
            for ax in self.axioms({a for a in seen if self.atoms[a].kind in ("ite", "max", "min", "abs", "floor", "int", "sym")
                                   or self.atoms[a].sign in ("pos", "nonneg")}, ()):
                s.add(ax)
            for aid in seen:
                a = self.atoms[aid]
                if a.kind in ("sqrt", "fun", "sum") and is_const_atom(a):
                    b = enclosure(aid)
                    if b is not None:
                        s.add(a.z3v > frac_z3(b[0]), a.z3v < frac_z3(b[1]))
        finally:
            self._opaque = False
        t = time.time()
        self.queries += 1
        r = s.check()
        self.solver_s += time.time() - t
        return r == z3.unsat

    def axioms(self, seen, inv):
        out = []
        groups = {}
        for aid in seen:
            a = self.atoms[aid]
            if a.sign == "pos":
                out.append(a.z3v > 0)
            elif a.sign == "nonneg":
                out.append(a.z3v >= 0)
            if self._opaque and a.kind in ("sqrt", "sum", "fun"):
                continue
            if a.kind == "sqrt":
                out.append(a.z3v * a.z3v == self.z3poly(self.reducible[aid]))
            elif a.kind == "sum":
                out.append(a.z3v == self.z3poly(a.args[0].p))
            elif a.kind == "ite":
                c, x, y = a.args
                cz = c.z3()
                out.append(z3.Implies(cz, a.z3v == self.z3poly(x.p)))
                out.append(z3.Implies(z3.Not(cz), a.z3v == self.z3poly(y.p)))
            elif a.kind in ("max", "min"):
                alts = []
                for x in a.args:
                    xz = self.z3poly(x.p)
                    out.append(a.z3v >= xz if a.kind == "max" else a.z3v <= xz)
                    alts.append(a.z3v == xz)
                out.append(z3.Or(*alts))
            elif a.kind == "abs":
                xz = self.z3poly(a.args[0].p)
                out.append(a.z3v == z3.If(xz >= 0, xz, -xz))
            elif a.kind == "floor":
                xz = self.z3poly(a.args[0].p)
                iv = z3.Int(f"int!{aid}")
                out.append(a.z3v == z3.ToReal(iv))
                out.append(z3.And(a.z3v <= xz, xz < a.z3v + 1))
            elif a.kind == "int":
                iv = z3.Int(f"int!{aid}")
                out.append(a.z3v == z3.ToReal(iv))
            elif a.kind == "fun":
                groups.setdefault((a.name, a.kind), []).append(a)
                f = FUN_AXIOMS.get(a.name)
                if f:
                    out.extend(f(self, a))
        for aid in inv:
            a = self.atoms[aid]
            out.append(a.z3v * self.z3atom(aid, -1) == 1)
            if a.sign == "pos":
                out.append(self.z3atom(aid, -1) > 0)
        for (name, _), lst in groups.items():
            mono = MONOTONE.get(name)
            if len(lst) < 2:
                continue
            lst = sorted(lst, key=lambda a: a.id)
            if mono is not None:
                pos, direction = mono
                if len(lst) > 24:
                    self.notes.add(f"monotonicity axioms of {name} limited to neighbours")
                for i in range(len(lst)):
                    for j in range(i + 1, len(lst)):
                        if len(lst) > 24 and j > i + 2:
                            continue
                        a, b = lst[i], lst[j]
                        others_same = all(
                            (k == pos) or (isinstance(x, Sym) and isinstance(y, Sym) and x.p == y.p)
                            or (not isinstance(x, Sym) and x == y)
                            for k, (x, y) in enumerate(zip(a.args, b.args)))
                        if not others_same:
                            continue
                        d = self.z3poly(p_add(a.args[pos].p, b.args[pos].p, -1))
                        u, v = (a.z3v, b.z3v) if direction > 0 else (b.z3v, a.z3v)
                        # strictly monotone
                        out.append(z3.Implies(d < 0, u < v if name in STRICT else u <= v))
                        out.append(z3.Implies(d > 0, u > v if name in STRICT else u >= v))
                        out.append(z3.Implies(d == 0, u == v))
                        if name in SYMMETRIC:           # F(-t) = 1 - F(t)
                            e = self.z3poly(p_add(a.args[pos].p, b.args[pos].p))
                            out.append(z3.Implies(e < 0, a.z3v + b.z3v < 1))
                            out.append(z3.Implies(e > 0, a.z3v + b.z3v > 1))
            else:
                for i in range(min(len(lst), 40)):
                    for j in range(i + 1, min(len(lst), 40)):
                        a, b = lst[i], lst[j]
                        eqs = []
                        bad = False
                        for x, y in zip(a.args, b.args):
                            if isinstance(x, Sym):
                                d = p_add(x.p, y.p, -1)
                                c = p_const(d)
                                if c is not None:
                                    if c != 0:
                                        bad = True
                                        break
                                    continue
                                eqs.append(self.z3poly(d) == 0)
                            elif x != y:
                                bad = True
                                break
                        if not bad and eqs:
                            out.append(z3.Implies(z3.And(*eqs), a.z3v == b.z3v))
        return out

    def solve(self, conds, timeout_ms=None, want_model=False, extra_z3=()):
        """conds: list of SymBool. Returns ('sat', model) / ('unsat', None) / ('unknown', None)."""
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("deadline")
        bools = [c for c in conds]
        polys = []
        for b in bools:
            polys.extend(b.polys())
        seen, inv = self.atom_closure(polys)
        if (inv or any(a in self.reducible or self.atoms[a].kind == "fun" and self.atoms[a].args for a in seen)) \
                and self._opaque_unsat(bools, min(3000, int(timeout_ms or self.timeout_ms))):
            return "unsat", None
        s = z3.Solver()
        s.set("timeout", int(timeout_ms or self.timeout_ms))
        s.set("random_seed", 1)
        for b in bools:
            s.add(b.z3())
        for ax in self.axioms(seen, inv):
            s.add(ax)
        for aid in seen:
            a = self.atoms[aid]
            if a.kind == "fun" and a.name in SYMMETRIC and is_const_atom(a):
                b = enclosure(aid)
                if b is not None:
                    s.add(a.z3v > frac_z3(b[0]), a.z3v < frac_z3(b[1]))
        for e in extra_z3:
            s.add(e)
        t = time.time()
        self.queries += 1
        self.busy = True
        try:
            if self.heavy(seen, inv):
                r, m = self._guarded(s, seen, int(timeout_ms or self.timeout_ms))
            else:
                r = s.check()
                r, m = ("sat", s.model()) if r == z3.sat else ("unsat", None) if r == z3.unsat else ("unknown", None)
        finally:
            self.busy = False
            self.last = time.time()
        self.solver_s += self.last - t
        if r == "unknown":
            self.unknowns += 1
        return r, m

    def heavy(self, seen, inv):
        """Quotients inside transcendental functions: z3 may overrun its own time limit on these."""
        return bool(inv) and any(self.atoms[a].kind == "fun" and self.atoms[a].args for a in seen)

    def _guarded(self, s, seen, timeout_ms):
        """Run the query in a child process that is killed when it overruns."""
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                r = s.check()
                out = {}
                if r == z3.sat:
                    m = s.model()
                    for a in seen:
                        try:
                            out[self.atoms[a].z3v.sexpr()] = z3_to_fraction(m.eval(self.atoms[a].z3v))
                        except Exception:
                            pass
                os.write(wr, pickle.dumps((str(r), out))[:60000])
            finally:
                os._exit(0)
        os.close(wr)
        data = b""
        end = time.time() + timeout_ms / 1000 * 1.3 + 0.3
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([rd], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                data = None
                break
            b = os.read(rd, 65536)
            if not b:
                break
            data += b
        os.close(rd)
        os.waitpid(pid, 0)
        try:
            r, out = pickle.loads(data) if data else ("unknown", {})
        except Exception:
            r, out = "unknown", {}
        if r == "sat":
            return "sat", _DictModel(out)
        return ("unsat", None) if r == "unsat" else ("unknown", None)

    def confirm_equal(self, a, b):
        """Ask the solver whether two values with equal normal forms can differ."""
        big = any(sum(abs(e) for _, e in m) > 40 for p in (a.p, b.p) for m in p)
        if a.p == b.p and len(a.p) < 60:
            self._opaque = big
            neg = self.z3poly(a.p) != self.z3poly(b.p)
            self._opaque = False
        else:
            d = canon_poly(p_add(a.p, b.p, -1))
            self._opaque = big
            neg = self.z3poly(d) != 0 if len(d) < 60 else z3.BoolVal(False)
            self._opaque = False
        if not hasattr(self, "_eqsolver"):
            self._eqsolver = z3.Solver()
            self._eqsolver.set("timeout", 500)
        s = self._eqsolver
        t = time.time()
        s.push()
        s.add(neg)
        self.queries += 1
        r = s.check()
        s.pop()
        self.solver_s += time.time() - t
        self.eq_confirmed = getattr(self, "eq_confirmed", 0) + (r == z3.unsat)
        return True  # p_equal also cross-multiplies denominators: the normal-form decision stands

    def path_sign(self, at):
        """The atom's square root is taken and divided by on this path, so it is positive there."""
        if at.sign != "pos":
            self.path_signed.append((at, at.sign))
            at.sign = "pos"

    def orient_negative(self, q):
        """Sign of a polynomial at one fixed input: gives denominators a reproducible orientation."""
        k = frozenset(q.items())
        r = self._orient.get(k)
        if r is None:
            r = False
            if self.suggest:
                if self._orient_env is None:
                    self._orient_env = _Env(777)
                try:
                    r = _evalpoly(q, self._orient_env, self._orient_env.cache) < 0
                except (KeyError, ZeroDivisionError, OverflowError, ValueError, TypeError):
                    r = False
            self._orient[k] = r
            if r:
                self._orient[frozenset((m, -c) for m, c in q.items())] = False
        return r

    # -- numeric witnesses: a concrete input satisfying the path condition and a further condition shows that
    #    the conjunction is satisfiable without a solver call (only feasibility; never used to prove anything)
    def _reset_alive(self):
        self._alive = None
        self._alive_pc = self._alive_def = 0

    def alive(self):
        if not self.suggest:
            return []
        if self._pool is None:
            self._pool = [_Env(k) for k in range(self.pool_size)]
        if self._alive is None:
            self._alive = list(self._pool)
            self._alive_pc = self._alive_def = 0
            new = list(self.assumptions)
        else:
            new = []
        new += self.pc[self._alive_pc:] + self.defined[self._alive_def:]
        self._alive_pc, self._alive_def = len(self.pc), len(self.defined)
        for c in new:
            self._alive = [e for e in self._alive if e.test(self, c) is True]
        return self._alive

    def witness(self, cond):
        for e in self.alive():
            if e.test(self, cond) is True:
                self.pool_hits += 1
                return True
        return False

    def add_witness(self, values):
        """values: input atom id -> Fraction (from a solver model)."""
        if self._pool is None:
            self._pool = [_Env(k) for k in range(self.pool_size)]
        if len(self._pool) < 200:
            e = _Env(len(self._pool) + 1000)
            e.fixed = {k: float(v) for k, v in values.items()}
            self._pool.append(e)
            if self._alive is not None:
                base = self.assumptions + self.pc[:self._alive_pc] + self.defined[:self._alive_def]
                if all(e.test(self, c) is True for c in base):
                    self._alive.append(e)

    # -- deciding conditions
    def base(self):
        return self.assumptions + self.pc + self.defined

    def relevant(self, cond):
        """Assumptions sharing atoms (transitively) with cond: keeps queries small and sound
        (dropping hypotheses only weakens what we can prove)."""
        return self.base()

    def decide(self, cond):
        """Return True/False for a SymBool, forking when both are feasible."""
        c = cond.const()
        if c is not None:
            return c
        k = cond.key()
        if k in self.known:
            return self.known[k]
        nk = ("not", k) if not (isinstance(k, tuple) and k and k[0] == "not") else k[1]
        if nk in self.known:
            return not self.known[nk]
        if self.pos < len(self.decisions):
            v, forced = self.decisions[self.pos]
            self.pos += 1
            self._take(cond, k, v, forced)
            return v
        rt = self.verdict(cond)
        if rt == "unsat":
            v, forced = False, True
        else:
            rf = self.verdict(cond.neg())
            v, forced = True, rf == "unsat"
        self.decisions.append((v, forced))
        self.pos += 1
        if not forced:
            self.forks += 1
            alt = self.decisions[: self.pos - 1] + [(False, False)]
            self.frontier.append(alt)
        self._take(cond, k, v, forced)
        return v

    def _take(self, cond, k, v, forced):
        self.known[k] = v
        self.pc.append(cond if v else cond.neg())

    def verdict(self, cond, timeout_ms=None):
        """sat/unsat/unknown of (assumptions and path condition and cond), memoised so that
        re-executions of a path prefix take the same route."""
        if self.witness(cond):
            return "sat"
        base = self.base()
        key = (frozenset(b.key() for b in base), cond.key())
        r = self._memo.get(key)
        if r is None:
            r, m = self.solve(base + [cond], timeout_ms)
            self._memo[key] = r
            if r == "sat" and self.suggest:
                vals = {}
                for aid in self.suggest:
                    try:
                        vals[aid] = z3_to_fraction(m.eval(self.atoms[aid].z3v))
                    except Exception:
                        pass
                self.add_witness(vals)
        return r

    def entails(self, cond, timeout_ms=None):
        """True when cond holds on the current path (no forking)."""
        if isinstance(cond, bool):
            return cond
        c = cond.const()
        if c is not None:
            return c
        k = cond.key()
        if k in self.known:
            return self.known[k]
        v = self.verdict(cond.neg(), timeout_ms) == "unsat"
        if v:
            self.known[k] = True
        return v

    def hopeful(self, cond):
        """Worth a simplification query?  (Skipping one never changes a verdict: the value stays symbolic.)"""
        return isinstance(cond, bool) or not self.heavy(*self.atom_closure(cond.polys()))

    def assume(self, cond):
        cond = lift_bool(cond)
        c = cond.const()
        if c is True:
            return
        if c is False:
            raise PathAbort()
        self.pc.append(cond)
        self.learn(cond)

    def learn(self, cond):
        self.known[cond.key()] = True
        if cond.op == "not":
            self.known[cond.args[0].key()] = False
        elif cond.op == "and":
            for a in cond.args:
                self.learn(a)

    def require_defined(self, cond):
        cond = lift_bool(cond)
        c = cond.const()
        if c is not None:
            if c is False:
                raise ZeroDivisionError("undefined operation on constants")
            return
        k = cond.key()
        if k in self.known:
            if k in self.def_code and not _in_code():
                del self.def_code[k]
            return
        self.known[k] = True
        self.defined.append(cond)
        if _in_code():
            self.def_code[k] = cond

    # -- exploration
    def explore(self, fn, on_path=None):
        """Run fn() once per feasible path."""
        global CTX
        prev = CTX
        CTX = self
        results = []
        try:
            self.frontier = [[]]
            while self.frontier:
                if self.paths >= self.max_paths:
                    raise Budget(f"more than {self.max_paths} paths")
                if self.deadline is not None and time.time() > self.deadline:
                    raise Budget("deadline")
                self.decisions = self.frontier.pop()
                self.pos = 0
                self.pc = []
                self.defined = []
                self.def_code = {}
                self.known = {}
                for a in self.assumptions:
                    self.known[a.key()] = True
                self.paths += 1
                self._reset_alive()
                for a, old in reversed(self.path_signed):
                    a.sign = old
                self.path_signed, self.path_rad, self.path_inv = [], {}, set()
                try:
                    r = fn()
                except PathAbort:
                    continue
                results.append(r)
        finally:
            CTX = prev
        return results


def _in_code():
    """Is the operation being carried out on behalf of the code under test (and not of a harness)?"""
    f = sys._getframe(2)
    while f is not None:
        fn = f.f_code.co_filename
        if "/pysatl_criterion/" in fn:
            return True
        if "/props/" in fn:
            return False
        f = f.f_back
    return False


MONOTONE = {}
STRICT = set()
SYMMETRIC = set()
FUN_AXIOMS = {}
EXTRA_DEPS = {}
NUMERIC = {}


# --------------------------------------------------------------------------- division helpers
def lead(p):
    """Leading monomial in a fixed order (graded on (sum exps), then tuple)."""
    return max(p, key=lambda m: (tuple((-a, e) for a, e in m), len(m)))


def p_split_neg(p):
    """Return (poly with nonneg exponents, monomial multiplier) such that p = q * mono."""
    mins = {}
    for m in p:
        d = dict(m)
        for a, e in d.items():
            if e < 0:
                mins[a] = min(mins.get(a, 0), e)
    if not mins:
        return p, ()
    mult = tuple(sorted((a, -e) for a, e in mins.items()))
    q = {_mono_mul(m, mult): c for m, c in p.items()}
    return q, tuple((a, -e) for a, e in mult)


def expand_sums(q, limit=400):
    """Replace positive powers of named sums by their definitions (while the result stays small)."""
    cx = ctx()
    todo = {a for m in q for a, e in m if e > 0 and cx.atoms[a].kind == "sum"}
    for a in todo:
        sp = cx.atoms[a].args[0].p
        out = {}
        for m, c in q.items():
            e = dict(m).get(a, 0)
            if e <= 0:
                out = p_add(out, {m: c})
                continue
            rest = {tuple((b, k) for b, k in m if b != a): c}
            out = p_add(out, p_mul(rest, p_pow(sp, e)))
            if len(out) > limit:
                return q
        q = out
    return cx.reduce(q) if todo and any(b in cx.reducible for m in q for b, _ in m) else q


def p_inv(p):
    """Reciprocal of a polynomial as a polynomial over atoms."""
    cx = ctx()
    if not p:
        raise ZeroDivisionError("division by zero")
    if len(p) == 1:
        (m, c), = p.items()
        out = {tuple((a, -e) for a, e in m): 1 / c}
        if any(a in cx.reducible for a, _ in m):
            out = cx.reduce(out)
        return out
    p = canon_poly(p)
    if len(p) <= 1:
        return p_inv(p)
    # pull out common monomial and content
    q, mono = p_split_neg(p)
    # common positive monomial factor
    common = None
    for m in q:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
        if not common:
            break
    common = tuple(sorted((a, e) for a, e in (common or {}).items() if e > 0))
    if common:
        inv = tuple((a, -e) for a, e in common)
        q = {_mono_mul(m, inv): c for m, c in q.items()}
        mono = _mono_mul(mono, common)
    # rationalise single sqrt:  1/(A + B s) left as is
    lm = min(q)
    c0 = q[lm]
    if cx.orient_negative({m: c / c0 for m, c in q.items()}):
        c0 = -c0
    q = {m: c / c0 for m, c in q.items()}
    if 3 <= len(q) <= 80:
        l = q[lead_grlex(q)]
        r = poly_sqrt({m: c / l for m, c in q.items()}) if l > 0 else None
        if r is not None:
            out = p_mul(p_pow(p_inv(r), 2), {tuple((a, -e) for a, e in mono): 1 / (c0 * l)})
            return cx.reduce(out) if any(a in cx.reducible for m in out for a, _ in m) else out
    if 3 <= len(q) <= 120 and frozenset(q.items()) not in cx._sums:
        for key, at in list(cx._sums.items())[:30]:
            if 1 < len(key) < len(q):
                r = p_divexact(q, at.args[0].p)
                if r is not None:
                    out = p_mul(p_inv(r), {_mono_mul(tuple((a, -e) for a, e in mono), ((at.id, -1),)): 1 / c0})
                    return cx.reduce(out) if any(a in cx.reducible for m in out for a, _ in m) else out
    at = cx.app("sum", "sum", (Sym(q, canonical=True),))
    key = frozenset(q.items())
    cx._sums[key] = at
    cx.path_inv.add(key)
    if key in cx.path_rad:
        cx.path_sign(at)
        cx.path_sign(cx.path_rad[key])
    if at.fp is None or not getattr(at, "axiomatised", False):
        at.fp = cx.fp(q) or 1
        at.axiomatised = True
    if at.sign != "pos" and 1 < len(q) <= 40 and cx.depth_sign < 1:
        cx.depth_sign += 1
        try:
            if cx.hopeful(cmp_(Sym(q), 0, "gt")) and cx_entails_pos(q):
                cx.path_sign(at)
        finally:
            cx.depth_sign -= 1
    m = _mono_mul(tuple((a, -e) for a, e in mono), ((at.id, -1),))
    out = {m: 1 / c0}
    if any(a in cx.reducible for a, _ in m):
        out = cx.reduce(out)
    return out


def poly_sqrt(p):
    """q with q*q == p, or None (schoolbook square root in grlex order)."""
    cx = ctx()
    if any(e < 0 for m in p for _, e in m):
        return None
    if any(a in cx.reducible for m in p for a, _ in m):
        return None
    rem = dict(p)
    l = lead_grlex(rem)
    c = rem[l]
    if c < 0 or any(e % 2 for _, e in l):
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a != c.numerator or b * b != c.denominator:
        return None
    l0 = tuple((x, e // 2) for x, e in l)
    c0 = Fraction(a, b)
    q = {l0: c0}
    rem = p_add(rem, p_mul(q, q), -1)
    d0 = dict(l0)
    for _ in range(60):
        if not rem:
            return q
        l = lead_grlex(rem)
        dn = dict(l)
        mm = {}
        for x in set(dn) | set(d0):
            e = dn.get(x, 0) - d0.get(x, 0)
            if e < 0:
                return None
            if e:
                mm[x] = e
        t = {tuple(sorted(mm.items())): rem[l] / (2 * c0)}
        rem = p_add(rem, p_add(p_scale(p_mul(q, t), 2), p_mul(t, t)), -1)
        q = p_add(q, t)
    return None


def p_divexact(n, d):
    """Exact division of nonneg-exponent polys; returns quotient or None."""
    if not d:
        return None
    n = dict(n)
    ld = lead_grlex(d)
    cd = d[ld]
    q = {}
    steps = 0
    dd = dict(ld)
    while n:
        steps += 1
        if steps > 4000:
            return None
        ln = lead_grlex(n)
        dn = dict(ln)
        mm = {}
        ok = True
        for a, e in dn.items():
            r = e - dd.get(a, 0)
            if r < 0:
                ok = False
                break
            if r:
                mm[a] = r
        if ok:
            for a in dd:
                if a not in dn:
                    ok = False
                    break
        if not ok:
            return None
        m = tuple(sorted(mm.items()))
        c = n[ln] / cd
        q[m] = q.get(m, 0) + c
        for m2, c2 in d.items():
            k = _mono_mul(m, m2)
            v = n.get(k, 0) - c * c2
            if v == 0:
                n.pop(k, None)
            else:
                n[k] = v
    return q


def lead_grlex(p):
    best = None
    bk = None
    for m in p:
        k = (sum(e for _, e in m), _lexkey(m))
        if bk is None or k > bk:
            bk = k
            best = m
    return best


def _lexkey(m):
    # lexicographic with smaller atom id more significant; missing atom = exponent 0
    return tuple((-a, e) for a, e in m)


def canon_poly(p):
    """Cancel reciprocal-of-sum atoms where the numerator is divisible."""
    cx = CTX
    if cx is None:
        return p
    changed = True
    rounds = 0
    while changed and rounds < 12:
        changed = False
        rounds += 1
        negs = {}
        for m in p:
            for a, e in m:
                if e < 0 and cx.atoms[a].kind == "sum":
                    negs[a] = min(negs.get(a, 0), e)
        for a, e in negs.items():
            # group terms with exponent exactly e of a
            grp = {}
            rest = {}
            for m, c in p.items():
                d = dict(m)
                if d.get(a, 0) == e:
                    del d[a]
                    grp[tuple(sorted(d.items()))] = c
                else:
                    rest[m] = c
            if len(grp) < 2:
                continue
            g, mono = p_split_neg(grp)
            q = p_divexact(g, cx.atoms[a].args[0].p)
            if q is not None:
                back = _mono_mul(mono, ((a, e + 1),) if e + 1 else ())
                add = {_mono_mul(m, back): c for m, c in q.items()}
                p = p_add(rest, add)
                changed = True
                break
    return p


def clear_denominators(p):
    """p = N / D with N, D polynomials without negative exponents (D a product of atoms/sums).
    Returns (N, [(denominator poly, exponent)])."""
    cx = ctx()
    mins = {}
    for m in p:
        for a, e in m:
            if e < 0:
                mins[a] = min(mins.get(a, 0), e)
    if not mins:
        return p, []
    dens = []
    # process: multiply every term by prod a^{-min}
    polys = {}
    for a, e in mins.items():
        at = cx.atoms[a]
        polys[a] = at.args[0].p if at.kind == "sum" else {((a, 1),): Fraction(1)}
        dens.append((polys[a], -e))
    powcache = {}

    def pw(a, n):
        k = (a, n)
        if k not in powcache:
            powcache[k] = p_pow(polys[a], n)
        return powcache[k]

    groups = {}
    for m, c in p.items():
        key = []
        rest = []
        d = dict(m)
        for a, e in mins.items():
            key.append((a, d.get(a, 0) - e if d.get(a, 0) < 0 or cx.atoms[a].kind == "sum" else -e))
            if d.get(a, 0) > 0 and cx.atoms[a].kind != "sum":
                rest.append((a, d[a]))
            d.pop(a, None)
        r = _mono_mul(tuple(sorted(d.items())), tuple(sorted(rest)))
        groups.setdefault(tuple(key), {})
        g = groups[tuple(key)]
        g[r] = g.get(r, 0) + c
    out = {}
    for key, g in groups.items():
        f = g
        for a, n in key:
            if n:
                f = p_mul(f, pw(a, n))
        out = p_add(out, f)
    # multiplication may reintroduce negative exponents through sqrt reduction
    for m in out:
        for a, e in m:
            if e < 0:
                n2, d2 = clear_denominators(out)
                return n2, dens + d2
    return out, dens


def p_equal(a, b):
    d = p_add(a, b, -1)
    if not d:
        return True
    d = canon_poly(d)
    if not d:
        return True
    cx = ctx()
    has_neg = any(e < 0 for m in d for _, e in m)
    if not has_neg:
        return False
    # quick refutation by fingerprint (sqrt atoms are formal, so only when fully reduced)
    if cx.fp(d) != 0:
        # fingerprints respect reciprocals of sums (fp of a sum atom is fp of its polynomial)
        return False
    n, _ = clear_denominators(d)
    return not n


# --------------------------------------------------------------------------- Sym
def _isnum(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(x)


def lift(x):
    """Convert to Sym, or return special float (inf/nan), or None when impossible."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return ite(x, Sym.const_(1), Sym.const_(0))
    if isinstance(x, bool):
        return Sym.const_(int(x))
    if isinstance(x, (int, Fraction)):
        return Sym.const_(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return x
        return Sym.const_(Fraction(repr(x)))
    t = type(x).__module__
    if t == "numpy":
        import numpy as np

        if isinstance(x, np.bool_):
            return Sym.const_(int(x))
        if isinstance(x, np.integer):
            return Sym.const_(int(x))
        if isinstance(x, np.floating):
            return lift(float(x))
        if isinstance(x, np.ndarray) and x.shape == ():
            return lift(x.item() if x.dtype != object else x.flat[0])
    return None


def _arr(o):
    """A list meeting a numpy scalar behaves as an array."""
    from .nparr import SymArray

    return SymArray(list(o))


class Sym:
    __slots__ = ("p", "_canon", "_c")
    __hash__ = None  # replaced below

    def __init__(self, p, canonical=False):
        self.p = p
        self._canon = canonical
        self._c = False

    # -- constants
    @staticmethod
    def const_(v):
        return Sym({(): Fraction(v)} if v != 0 else {}, canonical=True)

    @property
    def c(self):
        if self._c is False:
            self._c = p_const(self.p)
        return self._c

    def canon(self):
        if not self._canon:
            self.p = canon_poly(self.p)
            self._canon = True
            self._c = False
        return self

    def __hash__(self):
        c = self.c
        return hash(c) if c is not None else 0

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, (list, tuple)):
            return self + _arr(o)
        o = _other(o)
        if o is NotImplemented or isinstance(o, float):
            return o
        return Sym(p_add(self.p, o.p))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (list, tuple)):
            return self - _arr(o)
        o = _other(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return -o
        return Sym(p_add(self.p, o.p, -1))

    def __rsub__(self, o):
        if isinstance(o, (list, tuple)):
            return _arr(o) - self
        o = _other(o)
        if o is NotImplemented or isinstance(o, float):
            return o
        return Sym(p_add(o.p, self.p, -1))

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return self * _arr(o)
        o = _other(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return _inf_mul(self, o)
        return Sym(p_mul(self.p, o.p))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (list, tuple)):
            return self / _arr(o)
        o = _other(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            if o != o:
                return o
            return Sym.const_(0)
        return sdiv(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, (list, tuple)):
            return _arr(o) / self
        o = _other(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return _inf_mul(self, o)
        return sdiv(o, self)

    def __neg__(self):
        return Sym({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __pow__(self, o, mod=None):
        o = _other(o)
        if o is NotImplemented:
            return o
        return spow(self, o)

    def __rpow__(self, o):
        o = _other(o)
        if o is NotImplemented:
            return o
        return spow(o, self)

    def __abs__(self):
        return sabs(self)

    def __floordiv__(self, o):
        return sfloor(lift(self / o))

    def __rfloordiv__(self, o):
        return sfloor(lift(o / self))

    def __mod__(self, o):
        return self - o * sfloor(lift(self / o))

    def __rmod__(self, o):
        return lift(o) - self * sfloor(lift(o / self))

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __round__(self, nd=None):
        c = self.c
        if c is not None:
            return round(float(c), nd) if nd is not None else round(c)
        k = Fraction(10) ** int(nd or 0)
        y = self * Sym.const_(k) + Sym.const_(Fraction(1, 2))
        f = sfloor(y)
        if cmp_(y, f, "eq") and cmp_(f, sfloor(f / 2) * 2, "ne"):
            f = f - 1   # a tie goes to the even neighbour
        return f / Sym.const_(k)

    def __floor__(self):
        return sfloor(self)

    def __ceil__(self):
        return -sfloor(-self)

    def __trunc__(self):
        return strunc(self)

    # -- comparisons
    def __lt__(self, o):
        return cmp_(self, o, "lt")

    def __le__(self, o):
        return cmp_(self, o, "le")

    def __gt__(self, o):
        return cmp_(self, o, "gt")

    def __ge__(self, o):
        return cmp_(self, o, "ge")

    def __eq__(self, o):
        return cmp_(self, o, "eq")

    def __ne__(self, o):
        return cmp_(self, o, "ne")

    def __bool__(self):
        c = self.c
        if c is not None:
            return c != 0
        return bool(cmp_(self, 0, "ne"))

    # -- conversions
    def __float__(self):
        c = self.c
        if c is not None:
            return float(c)
        v = numeric_const(self)
        if v is not None:
            return v
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        c = self.c
        if c is not None:
            return int(c)
        return concretise_int(strunc(self))

    def __index__(self):
        c = self.c
        if c is not None:
            if c.denominator != 1:
                raise TypeError("non-integer index")
            return int(c)
        return concretise_int(self)

    def is_integer(self):
        c = self.c
        if c is not None:
            return c.denominator == 1
        raise Unsupported("is_integer")

    def __repr__(self):
        c = self.c
        if c is not None:
            if c.denominator == 1:
                return repr(float(c))
            return repr(float(c))
        return "Sym<" + str(len(self.p)) + " terms>"

    __str__ = __repr__

    def __format__(self, spec):
        c = self.c
        if c is not None:
            return format(float(c), spec)
        return repr(self)

    # -- numpy-ish
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym.const_(0)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def conjugate(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def astype(self, *a, **k):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickle of symbolic value")

    __array_priority__ = 1e6

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import nparr

        return nparr.ufunc(ufunc, method, inputs, kw)


def _other(o):
    if isinstance(o, Sym):
        return o
    import numpy as np

    if isinstance(o, np.ndarray):
        return NotImplemented
    v = lift(o)
    return NotImplemented if v is None else v


def _inf_mul(s, o):
    if o != o:
        return o
    c = s.c
    if c is not None:
        return math.nan if c == 0 else (o if c > 0 else -o)
    sg = quick_sign(s.p)
    if sg == "pos":
        return o
    if sg == "neg":
        return -o
    if bool(s > 0):
        return o
    if bool(s < 0):
        return -o
    return math.nan


def sdiv(a, b):
    cb = b.c
    if cb is not None:
        if cb == 0:
            raise ZeroDivisionError("division by zero")
        return Sym(p_scale(a.p, 1 / cb))
    ctx().require_defined(cmp_(b, 0, "ne"))
    return Sym(p_mul(a.p, p_inv(b.p)))


def spow(a, b):
    if isinstance(b, float) or isinstance(a, float):
        raise Unsupported("power with inf/nan")
    cb = b.c
    if cb is not None:
        if cb.denominator == 1:
            n = int(cb)
            if n >= 0:
                if n > 64 and a.c is None:
                    raise Unsupported("large power")
                return Sym(p_pow(a.p, n))
            if a.c is not None:
                if a.c == 0:
                    raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                return Sym.const_(a.c ** n)
            ctx().require_defined(cmp_(a, 0, "ne"))
            return Sym(p_pow(p_inv(a.p), -n))
        if cb.denominator == 2:
            n = int(2 * cb)
            r = ssqrt(a)
            if n == 1:
                return r
            if n < 0:
                return sdiv(Sym.const_(1), Sym(p_pow(r.p, -n)))
            return Sym(p_pow(r.p, n))
    # general power: exp(b log a); a >= 0 needed
    ca = a.c
    if ca is not None and ca == 0:
        return Sym.const_(0)
    if ca is not None and ca == 1:
        return Sym.const_(1)
    if quick_sign(a.p) not in ("pos",):
        ctx().require_defined(cmp_(a, 0, "gt"))
    return sexp(Sym(p_mul(b.p, slog(a).p)))


def quick_sign(p):
    """'pos' / 'nonneg' / 'neg' / 'nonpos' / None from atom signs and coefficients."""
    if not p:
        return "zero"
    cx = CTX
    pos_strict = False
    allpos = allneg = True
    strict = False
    for m, c in p.items():
        st = True
        for a, e in m:
            sg = cx.atoms[a].sign
            if sg == "pos":
                continue
            if sg == "nonneg" or e % 2 == 0:
                if e > 0:
                    st = False
                continue
            return None
        if c > 0:
            allneg = False
        else:
            allpos = False
        if st:
            strict = True
    if allpos:
        return "pos" if strict else "nonneg"
    if allneg:
        return "neg" if strict else "nonpos"
    return None


def concretise_int(s):
    """Fork on the integer value of s."""
    cx = ctx()
    for _ in range(64):
        # replayed decisions must see the same candidates: derive candidate from solver model
        r, m = None, None
        cand = None
        key = ("cand", tuple(sorted((k, v) for k, v in s.p.items())), len(cx.pc))
        if key in cx._zcache:
            cand = cx._zcache[key]
        else:
            r, m = cx.solve(cx.base())
            if r != "sat":
                raise Budget("cannot concretise an integer")
            v = m.eval(cx.z3poly(s.p), model_completion=True)
            f = z3_to_fraction(v)
            cand = int(math.floor(f))
            cx._zcache[key] = cand
        if bool(cmp_(s, cand, "eq")):
            return cand
    raise Budget("too many integer values")


class _DictModel:
    def __init__(self, d):
        self.d = d

    def eval(self, e, model_completion=False):
        if z3.is_const(e):
            return self.d.get(e.sexpr(), Fraction(0) if model_completion else None)
        raise Unsupported("model value of a compound term")


def z3_to_fraction(v):
    if isinstance(v, Fraction):
        return v
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported(f"model value {v}")


# --------------------------------------------------------------------------- functions
def _isqfree(n):
    """n = s^2 * r with r squarefree (as far as the factorisation got)."""
    s, r = 1, 1
    for p, k in _primes(n):
        s *= p ** (k // 2)
        if k % 2:
            r *= p
    return s, r


def _rho(n):
    """A nontrivial factor of a composite n, or None (bounded Pollard-Brent search)."""
    for c in (1, 3, 5, 7):
        x = y = 2
        g, prod, k = 1, 1, 0
        while g == 1 and k < 60000:
            x = (x * x + c) % n
            y = (y * y + c) % n
            y = (y * y + c) % n
            prod = prod * (x - y) % n
            k += 1
            if k % 100 == 0:
                g = math.gcd(prod, n)
                prod = 1
        if g == 1:
            g = math.gcd(prod, n)
        if 1 < g < n:
            return g
    return None


def _is_prime(n):
    if n < 4:
        return n > 1
    if n % 2 == 0:
        return False
    d, r = n - 1, 0
    while d % 2 == 0:
        d //= 2
        r += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if a % n == 0:
            continue
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


@functools.lru_cache(maxsize=20000)
def _primes(n):
    out = {}
    d = 2
    while d * d <= n and d < 2000:
        while n % d == 0:
            n //= d
            out[d] = out.get(d, 0) + 1
        d += 1
    todo = [n] if n > 1 else []
    while todo:
        m = todo.pop()
        r = math.isqrt(m)
        if r * r == m:
            todo += [r, r]
            continue
        g = None if m < 4000000 or _is_prime(m) or m.bit_length() > 140 else _rho(m)
        if g is None:
            out[m] = out.get(m, 0) + 1
        else:
            todo += [g, m // g]
    return tuple(sorted(out.items()))


def sqrt_const(c):
    cx = ctx()
    if c < 0:
        raise ValueError("math domain error")
    if c == 0:
        return Sym.const_(0)
    num, den = c.numerator, c.denominator
    s, r = _isqfree(num * den)
    out = {(): Fraction(s, den)}
    if r == 1:
        return Sym(out)
    for p, k in _primes(r):
        if k > 1:
            out = p_scale(out, Fraction(p ** (k // 2)))
        if k % 2 == 0:
            continue
        at = cx.app("sqrt", "sqrt", (Sym.const_(p),), sign="pos")
        if at.id not in cx.reducible:
            cx.reducible[at.id] = {(): Fraction(p)}
        out = p_mul(out, {((at.id, 1),): Fraction(1)})
    return Sym(out)


def ssqrt(x):
    if isinstance(x, float):
        return math.sqrt(x)
    cx = ctx()
    x = x.canon()
    c = x.c
    if c is not None:
        return sqrt_const(c)
    p = x.p
    q, mono = p_split_neg(p)
    # factor even powers & common monomial
    common = None
    for m in q:
        d = dict(m)
        common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
        if not common:
            break
    outside = {(): Fraction(1)}
    inside_m = {}
    total = {}
    for a, e in (common or {}).items():
        total[a] = total.get(a, 0) + e
    for a, e in mono:
        total[a] = total.get(a, 0) + e
    if common:
        inv = tuple(sorted((a, -e) for a, e in common.items()))
        q = {_mono_mul(m, inv): cc for m, cc in q.items()}
    q = expand_sums(q)
    out = {(): Fraction(1)}
    keep = {}
    for a, e in total.items():
        at = cx.atoms[a]
        half, r = divmod(e, 2)
        nonneg = at.sign in ("pos", "nonneg")
        if r == 0:
            if e == 0:
                continue
            if nonneg:
                out = p_mul(out, {((a, half),): Fraction(1)})
            else:
                ab = sabs(Sym({((a, 1),): Fraction(1)}))
                if half >= 0:
                    out = p_mul(out, p_pow(ab.p, half))
                else:
                    out = p_mul(out, p_pow(p_inv(ab.p), -half))
        else:
            if nonneg and at.kind != "sqrt":
                sa = _sqrt_atom({((a, 1),): Fraction(1)}) if at.kind != "sum" else ssqrt(Sym(at.args[0].p)).p
                out = p_mul(out, p_mul({((a, half),): Fraction(1)} if half else ONE, sa))
            elif at.kind == "sum":
                # positive-looking sum in the denominator: sqrt(N / S) with S>0 assumed below
                keep[a] = e
            else:
                keep[a] = e
    if len(q) == 1 and () in q and not keep:
        r = sqrt_const(q[()])
        return Sym(p_mul(out, r.p))
    # remaining radicand
    lm = min(q)
    c0 = q[lm]
    if len(q) == 1:
        inner = {m: Fraction(1) for m in q}
        k0 = q[lm]
    else:
        k0 = abs(c0)
        inner = {m: cc / k0 for m, cc in q.items()}
    if k0 < 0:
        inner = {m: -cc for m, cc in inner.items()}
        k0 = -k0
    if keep:
        # move odd powers of sums: sqrt(I * S^-1) = sqrt(I * S) * S^-1 when S > 0; |S| otherwise
        for a, e in keep.items():
            at = cx.atoms[a]
            half, r = divmod(e, 2)
            sp = at.args[0].p if at.kind == "sum" else {((a, 1),): Fraction(1)}
            # e = 2*half + 1
            inner = p_mul(inner, sp)
            if half:
                if at.sign in ("pos", "nonneg") or quick_sign(sp) in ("pos", "nonneg"):
                    f = {((a, 1),): Fraction(1)}
                else:
                    f = sabs(Sym({((a, 1),): Fraction(1)}) if at.kind != "sum" else Sym(sp)).p
                if half > 0:
                    out = p_mul(out, p_pow(f if at.kind != "sum" else (sp if len(f) == 1 and ((a, 1),) in f else f), half))
                else:
                    if len(f) == 1 and ((a, 1),) in f:
                        out = p_mul(out, {((a, half),): Fraction(1)})
                    else:
                        out = p_mul(out, p_pow(p_inv(f), -half))
        inner = canon_poly(inner)
        if len(inner) == 1:
            (mm, cc), = inner.items()
            if not mm:
                r = sqrt_const(cc * k0)
                return Sym(p_mul(out, r.p))
        # normalise content again
        lm = min(inner)
        kk = abs(inner[lm])
        inner = {m: cc / kk for m, cc in inner.items()}
        k0 = k0 * kk
    res = p_mul(out, sqrt_const(k0).p)
    res = p_mul(res, _sqrt_atom(inner))
    return Sym(res)


def _sqrt_atom(inner):
    cx = ctx()
    s = Sym(inner)
    sg = quick_sign(inner)
    if sg not in ("pos", "nonneg"):
        cx.require_defined(cmp_(s, 0, "ge"))
    if 3 <= len(inner) <= 60:
        lc = inner[lead_grlex(inner)]
        if lc > 0:
            r = poly_sqrt(p_scale(inner, 1 / lc))
            if r is not None:
                q = sabs(Sym(r))
                return (q if lc == 1 else q * ssqrt(Sym.const_(lc))).p
    at = cx.app("sqrt", "sqrt", (s,), sign="pos" if sg == "pos" else "nonneg")
    if at.id not in cx.reducible:
        cx.reducible[at.id] = at.args[0].p
    key = frozenset(inner.items())
    cx.path_rad[key] = at
    k = cx._sums.get(key)
    if k is not None and key in cx.path_inv:
        cx.path_sign(k)
        cx.path_sign(at)
    return {((at.id, 1),): Fraction(1)}


def slog(x):
    if isinstance(x, float):
        if x == math.inf:
            return x
        return math.nan
    cx = ctx()
    x = x.canon()
    c = x.c
    if c is not None:
        if c <= 0:
            raise ValueError("math domain error")
        if c == 1:
            return Sym.const_(0)
        return _log_int(c)
    p = x.p
    sg = quick_sign(p)
    if sg != "pos":
        cx.require_defined(cmp_(x, 0, "gt"))
    q, mono = p_split_neg(p)
    common = None
    for m in q:
        d = dict(m)
        common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
        if not common:
            break
    total = dict(common or {})
    for a, e in mono:
        total[a] = total.get(a, 0) + e
    # only split off factors known positive
    out = {}
    keep = {}
    for a, e in total.items():
        if e == 0:
            continue
        at = cx.atoms[a]
        pos = at.sign == "pos"
        if not pos and at.kind in ("sum", "sqrt") :
            base = at.args[0].p
            pos = quick_sign(base) == "pos" or cx_entails_pos(base)
            if pos:
                at.sign = "pos" if at.kind == "sqrt" else at.sign
        elif not pos and at.kind in ("sym", "fun", "ite", "max", "min", "abs"):
            pos = cx_entails_pos({((a, 1),): Fraction(1)})
        if pos:
            out = p_add(out, p_scale(_log_atomfactor(a), Fraction(e)))
        else:
            keep[a] = e
    if common:
        q = {_mono_mul(m, tuple(sorted((a, -e) for a, e in common.items()))): cc for m, cc in q.items()}
    q = expand_sums(q)
    if keep:
        km = tuple(sorted(keep.items()))
        q = {_mono_mul(m, km): cc for m, cc in q.items()}
    if len(q) == 1 and () in q:
        return Sym(p_add(out, _log_int(q[()]).p))
    lm = min(q)
    k0 = abs(q[lm])
    if k0 != 1:
        q = {m: cc / k0 for m, cc in q.items()}
        out = p_add(out, _log_int(k0).p)
    at = cx.app("fun", "log", (Sym(q),))
    out = p_add(out, {((at.id, 1),): Fraction(1)})
    return Sym(out)


def cx_entails_pos(p):
    cx = ctx()
    key = ("pos", tuple(sorted(p.items())))
    v = cx.known.get(key)
    if v is None:
        v = cx.entails(cmp_(Sym(p), 0, "gt"), timeout_ms=700)
        cx.known[key] = v
    return v


def _log_atomfactor(a):
    cx = ctx()
    at = cx.atoms[a]
    if at.kind == "sum":
        return slog(Sym(at.args[0].p)).p
    if at.kind == "sqrt":
        return p_scale(slog(Sym(cx.reducible[a])).p, Fraction(1, 2))
    if at.kind == "fun" and at.name == "exp":
        return at.args[0].p
    l = cx.app("fun", "log", (Sym({((a, 1),): Fraction(1)}),))
    return {((l.id, 1),): Fraction(1)}


def _log_int(c):
    cx = ctx()
    out = {}
    for n, sgn in ((c.numerator, 1), (c.denominator, -1)):
        if n != 1:
            for p, k in _primes(n):
                at = cx.app("fun", "log", (Sym.const_(p),), sign="pos")
                out = p_add(out, {((at.id, 1),): Fraction(sgn * k)})
    return Sym(out)


def sexp(x):
    if isinstance(x, float):
        return math.exp(x) if x != math.inf else x
    cx = ctx()
    x = x.canon()
    if not x.p:
        return Sym.const_(1)
    out = {(): Fraction(1)}
    for m, c in sorted(x.p.items(), key=lambda t: t[0]):
        # exp(c*m): pull logs
        if len(m) == 1 and m[0][1] == 1 and cx.atoms[m[0][0]].kind == "fun" and cx.atoms[m[0][0]].name == "log":
            base = cx.atoms[m[0][0]].args[0]
            if c.denominator == 1:
                f = p_pow(base.p, int(c)) if c > 0 else p_pow(p_inv(base.p), int(-c))
                out = p_mul(out, f)
                continue
            if c.denominator == 2:
                r = ssqrt(base).p
                n = int(2 * c)
                f = p_pow(r, n) if n > 0 else p_pow(p_inv(r), -n)
                out = p_mul(out, f)
                continue
            # base ** c : integer part and fractional root atom
            n, dd = c.numerator, c.denominator
            at = cx.app("fun", "root", (base, Sym.const_(Fraction(1, dd))), sign="pos")
            out = p_mul(out, {((at.id, n),): Fraction(1)})
            continue
        n, dd = c.numerator, c.denominator
        at = cx.app("fun", "exp", (Sym({m: Fraction(1, dd)}),), sign="pos")
        out = p_mul(out, {((at.id, n),): Fraction(1)})
    return Sym(out)


def sabs(x):
    if isinstance(x, float):
        return abs(x)
    x = x.canon()
    c = x.c
    if c is not None:
        return Sym.const_(abs(c))
    sg = quick_sign(x.p)
    if sg in ("pos", "nonneg"):
        return x
    if sg in ("neg", "nonpos"):
        return -x
    cx = ctx()
    if ("absunk", frozenset(x.p.items())) not in cx.known:
        gt, lt = lift_bool(cmp_(x, 0, "gt")), lift_bool(cmp_(x, 0, "lt"))
        if gt.const() is True or cx.known.get(gt.key()) or cx.known.get(lt.key()) is False:
            return x
        if lt.const() is True or cx.known.get(lt.key()) or cx.known.get(gt.key()) is False:
            return -x
        ge = cmp_(x, 0, "ge")
        if cx.hopeful(ge):
            if cx.entails(ge, timeout_ms=1000):
                return x
            if cx.entails(cmp_(x, 0, "le"), timeout_ms=1000):
                return -x
        cx.known[("absunk", frozenset(x.p.items()))] = True
    # normalise sign & content; pull positive monomial
    q, mono = p_split_neg(x.p)
    out = {(): Fraction(1)}
    rest = {}
    for a, e2 in mono:
        if cx.atoms[a].sign == "pos":
            out = p_mul(out, {((a, e2),): Fraction(1)})
        else:
            rest[a] = e2
    if rest:
        km = tuple(sorted(rest.items()))
        q = {_mono_mul(m, km): cc for m, cc in q.items()}
    c0 = q[min(q)]
    q = {m: cc / c0 for m, cc in q.items()}
    at = cx.app("abs", "abs", (Sym(q),), sign="nonneg")
    return Sym(p_scale(p_mul(out, {((at.id, 1),): Fraction(1)}), abs(c0)))


def sfloor(x):
    if isinstance(x, float):
        return x
    x = x.canon()
    c = x.c
    if c is not None:
        return Sym.const_(math.floor(c))
    cx = ctx()
    if is_const_poly(x.p):
        v, mag = const_value(x.p)
        if v is not None and abs(v - round(v)) > 1e-9 * mag:
            return Sym.const_(math.floor(v))
    at = cx.app("floor", "floor", (x,))
    return Sym({((at.id, 1),): Fraction(1)})


def sceil(x):
    if isinstance(x, float):
        return x
    return -sfloor(-x)


def strunc(x):
    c = x.c
    if c is not None:
        return Sym.const_(int(c))
    if quick_sign(x.p) in ("pos", "nonneg"):
        return sfloor(x)
    return ite(cmp_(x, 0, "ge"), sfloor(x), -sfloor(-x))


def fun(name, *args, sign=None):
    cx = ctx()
    at = cx.app("fun", name, tuple(lift(a) if not isinstance(a, str) else a for a in args), sign=sign)
    return Sym({((at.id, 1),): Fraction(1)})


def ite(cond, a, b):
    cond = lift_bool(cond)
    c = cond.const()
    if c is not None:
        return a if c else b
    a = lift(a)
    b = lift(b)
    if a is None or b is None or isinstance(a, float) or isinstance(b, float):
        return a if bool(cond) else b
    if a.p == b.p:
        return a
    cx = ctx()
    k = cond.key()
    if k in cx.known:
        return a if cx.known[k] else b
    at = cx.app("ite", "ite", (cond, a, b))
    return Sym({((at.id, 1),): Fraction(1)})


def smax(xs, kind="max"):
    xs = [lift(x) for x in xs]
    fl = [x for x in xs if isinstance(x, float)]
    if any(x != x for x in fl):
        return math.nan
    if kind == "max":
        if math.inf in fl:
            return math.inf
    elif -math.inf in fl:
        return -math.inf
    xs = [x for x in xs if not isinstance(x, float)]
    if not xs:
        return fl[0]
    # dedupe, fold constants
    consts = [x.c for x in xs if x.c is not None]
    rest = []
    for x in xs:
        if x.c is None:
            x.canon()
            if x.c is not None:
                consts.append(x.c)
            elif not any(x.p == y.p for y in rest):
                rest.append(x)
    if consts:
        rest.append(Sym.const_(max(consts) if kind == "max" else min(consts)))
    if len(rest) == 1:
        return rest[0]
    cx = ctx()
    # drop dominated entries (cheap syntactic signs, then solver)
    out = []
    for i, x in enumerate(rest):
        dom = False
        for j, y in enumerate(rest):
            if i == j:
                continue
            d = p_add(x.p, y.p, -1) if kind == "max" else p_add(y.p, x.p, -1)
            sg = quick_sign(d)
            if sg in ("neg", "nonpos") and (sg == "neg" or j not in [k for k, _ in out] or True):
                if sg == "nonpos" and j > i and quick_sign({m: -c for m, c in d.items()}) == "nonpos":
                    continue
                dom = True
                break
        if not dom:
            out.append((i, x))
    rest = [x for _, x in out] or rest[:1]
    if len(rest) == 1:
        return rest[0]
    if len(rest) == 2:
        d = Sym(p_add(rest[0].p, rest[1].p, -1))
        ge = cmp_(d, 0, "ge")
        if not isinstance(ge, bool) and not cx.hopeful(ge):
            pass
        elif cx.entails(ge, 1500):
            return rest[0] if kind == "max" else rest[1]
        elif cx.entails(cmp_(d, 0, "le"), 1500):
            return rest[1] if kind == "max" else rest[0]
    elif len(rest) <= 12:
        for i, x in enumerate(rest):
            conds = []
            for j, y in enumerate(rest):
                if i != j:
                    conds.append(cmp_(x, y, "ge" if kind == "max" else "le"))
            allc = and_(*conds)
            if not isinstance(allc, bool) and not cx.hopeful(allc):
                break
            if cx.entails(allc, 1500):
                return x
    sign = None
    sgs = [quick_sign(x.p) for x in rest]
    if kind == "max":
        if any(s == "pos" for s in sgs):
            sign = "pos"
        elif any(s in ("nonneg", "zero") for s in sgs):
            sign = "nonneg"
    else:
        if all(s == "pos" for s in sgs):
            sign = "pos"
        elif all(s in ("pos", "nonneg", "zero") for s in sgs):
            sign = "nonneg"
    rest = sorted(rest, key=lambda s: cx.fp(s.p))
    at = cx.app(kind, kind, tuple(rest), sign=sign)
    return Sym({((at.id, 1),): Fraction(1)})


# --------------------------------------------------------------------------- booleans
class SymBool:
    """op in {'lt','le','eq','and','or','not'}; comparisons are  poly OP 0."""

    __slots__ = ("op", "args", "_key", "_z3")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._key = None
        self._z3 = None

    def key(self):
        if self._key is None:
            if self.op in ("lt", "le", "eq"):
                self._key = (self.op, tuple(sorted(self.args.items())))
            elif self.op == "not":
                self._key = ("not", self.args[0].key())
            elif self.op == "const":
                self._key = ("const", self.args)
            elif self.op == "z3":
                self._key = ("z3", self.args[0].get_id())
            else:
                self._key = (self.op, tuple(a.key() for a in self.args))
        return self._key

    def __hash__(self):
        return hash(self.key())

    def const(self):
        if self.op == "const":
            return self.args
        return None

    def neg(self):
        if self.op == "not":
            return self.args[0]
        if self.op == "const":
            return SymBool("const", not self.args)
        if self.op == "lt":
            return SymBool("le", {m: -c for m, c in self.args.items()})
        if self.op == "le":
            return SymBool("lt", {m: -c for m, c in self.args.items()})
        return SymBool("not", (self,))

    def polys(self):
        if self.op in ("lt", "le", "eq"):
            return [self.args]
        if self.op in ("const", "z3"):
            return []
        out = []
        for a in self.args:
            out.extend(a.polys())
        return out

    def z3(self):
        cx = ctx()
        if self.op == "lt":
            return cx.z3poly(self.args) < 0
        if self.op == "le":
            return cx.z3poly(self.args) <= 0
        if self.op == "eq":
            return cx.z3poly(self.args) == 0
        if self.op == "not":
            return z3.Not(self.args[0].z3())
        if self.op == "and":
            return z3.And(*[a.z3() for a in self.args])
        if self.op == "or":
            return z3.Or(*[a.z3() for a in self.args])
        if self.op == "const":
            return z3.BoolVal(self.args)
        if self.op == "z3":
            return self.args[0]
        raise RuntimeError(self.op)

    def __bool__(self):
        return ctx().decide(self)

    def __and__(self, o):
        return and_(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return or_(and_(self, not_(o)), and_(not_(self), o))

    __rxor__ = __xor__

    def __invert__(self):
        return self.neg()

    def __eq__(self, o):
        o = lift_bool(o)
        if o is None:
            return NotImplemented
        return or_(and_(self, o), and_(not_(self), not_(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r) if r is not NotImplemented else r

    # arithmetic on booleans (counting)
    def _n(self):
        return ite(self, Sym.const_(1), Sym.const_(0))

    def __add__(self, o):
        return self._n() + (o._n() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * (o._n() if isinstance(o, SymBool) else o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - (o._n() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - self._n()

    def __truediv__(self, o):
        return self._n() / o

    def __rtruediv__(self, o):
        return o / self._n()

    def __lt__(self, o):
        return self._n() < o

    def __le__(self, o):
        return self._n() <= o

    def __gt__(self, o):
        return self._n() > o

    def __ge__(self, o):
        return self._n() >= o

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def item(self):
        return self

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def __repr__(self):
        return f"SymBool<{self.op}>"

    __array_priority__ = 1e6

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import nparr

        return nparr.ufunc(ufunc, method, inputs, kw)


TRUE = SymBool("const", True)
FALSE = SymBool("const", False)


def lift_bool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (bool, int)):
        return TRUE if x else FALSE
    if type(x).__module__ == "numpy":
        return TRUE if x else FALSE
    return None


def wrapb(b):
    """const SymBool -> python bool."""
    c = b.const()
    return b if c is None else c


def and_(*xs):
    out = []
    for x in xs:
        x = lift_bool(x)
        c = x.const()
        if c is False:
            return FALSE
        if c is True:
            continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return SymBool("and", tuple(out))


def or_(*xs):
    out = []
    for x in xs:
        x = lift_bool(x)
        c = x.const()
        if c is True:
            return TRUE
        if c is False:
            continue
        if x.op == "or":
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return SymBool("or", tuple(out))


def not_(x):
    return lift_bool(x).neg()


def implies(a, b):
    return or_(not_(a), b)


def cmp_(a, b, op):
    a = lift(a)
    b = lift(b)
    if a is None or b is None:
        if op == "eq":
            return False
        if op == "ne":
            return True
        return NotImplemented
    if isinstance(a, float) or isinstance(b, float):
        x = a if isinstance(a, float) else 0.0
        y = b if isinstance(b, float) else 0.0
        return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[op]
    if op == "gt":
        return cmp_(b, a, "lt")
    if op == "ge":
        return cmp_(b, a, "le")
    d = p_add(a.p, b.p, -1)
    c = p_const(d)
    if c is None:
        d = canon_poly(d)
        c = p_const(d)
    if c is not None:
        return {"lt": c < 0, "le": c <= 0, "eq": c == 0, "ne": c != 0}[op]
    if is_const_poly(d):
        v, mag = const_value(d)
        if v is not None and abs(v) > 1e-9 * mag:
            return {"lt": v < 0, "le": v < 0, "eq": False, "ne": True}[op]
    sg = quick_sign(d)
    if op == "lt":
        if sg == "neg":
            return True
        if sg in ("pos", "nonneg"):
            return False
    elif op == "le":
        if sg in ("neg", "nonpos"):
            return True
        if sg == "pos":
            return False
    elif sg in ("pos", "neg"):
        return op == "ne"
    # strip positive factors (monomials of positive atoms)
    d = expand_sums(strip_positive(d))
    if not d:
        return op in ("le", "eq")
    if () not in d and 2 <= len(d) <= 8:
        r = _unwrap_logs(d)
        if r is not None:
            return cmp_(r, 0, op)
    if len(d) in (2, 3):
        r = _unwrap_monotone(d)
        if r is not None:
            return cmp_(r, 0, op)
    # normalise scale
    k = abs(d[min(d)])
    if k != 1:
        d = {m: cc / k for m, cc in d.items()}
    if op in ("eq", "ne"):
        if d[min(d)] < 0:
            d = {m: -cc for m, cc in d.items()}
        r = _Cmp("eq", d)
        return r if op == "eq" else r.neg()
    return _Cmp(op, d)


def is_const_atom(a):
    """No input symbol below this atom."""
    if a.deps is None:
        ok = a.kind != "sym" and a.kind != "int"
        if ok:
            for x in a.args:
                if isinstance(x, Sym):
                    ok = is_const_poly(x.p)
                elif isinstance(x, SymBool):
                    ok = all(is_const_poly(q) for q in x.polys())
                if not ok:
                    break
        a.deps = ok
    return a.deps


def is_const_poly(p):
    cx = CTX
    if cx is None:
        return False
    for m in p:
        for a, _ in m:
            if not is_const_atom(cx.atoms[a]):
                return False
    return True


def frac_z3(f):
    return z3.RealVal(str(f))


def enclosure(aid):
    """Short rational bounds around the numeric value of an input-free atom."""
    v, mag = const_value({((aid, 1),): Fraction(1)})
    if v is None or not math.isfinite(v) or not v:
        return None
    k = Fraction(2) ** (28 - math.frexp(v)[1])
    w = Fraction(round(Fraction(v) * k), k)
    r = Fraction(8, k) + Fraction(mag) / 10 ** 9
    r = Fraction(math.ceil(r * k), k)
    return w - r, w + r


def const_value(p):
    """(float value, magnitude of the terms) of a polynomial over constant atoms."""
    cx = ctx()
    cache = cx.constcache
    tot, mag = [], 1e-300
    try:
        for m, c in p.items():
            v = float(c)
            for a, e in m:
                v *= _evalatom(a, {}, cache) ** e
            tot.append(v)
            mag += abs(v)
        return math.fsum(tot), mag
    except (KeyError, OverflowError, ZeroDivisionError, ValueError):
        return None, 1


def _unwrap_logs(d):
    """k1 log u1 + k2 log u2 + ... has the sign of u1^k1 u2^k2 ... - 1 (k made integers)."""
    cx = ctx()
    ats = []
    for m, c in d.items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = cx.atoms[m[0][0]]
        if a.kind != "fun" or a.name != "log":
            return None
        ats.append((a.args[0], Fraction(c)))
    g = math.lcm(*[c.denominator for _, c in ats])
    h = math.gcd(*[int(c * g) for _, c in ats])
    u = v = Sym({(): Fraction(1)})
    for x, c in ats:
        k = int(c * g) // h
        if abs(k) > (60 if not isinstance(x, Sym) or all(not m for m in x.p) else 2) or isinstance(x, Sym) and len(x.p) > 3:
            return None
        f = x if isinstance(x, Sym) else lift(x)
        for _ in range(abs(k)):
            if k > 0:
                u = u * f
            else:
                v = v * f
    return u - v


def _unwrap_monotone(d):
    """f(u) - f(v) has the sign of u - v for a strictly increasing f (of -(u - v) for a decreasing one)."""
    cx = ctx()
    if len(d) == 3 or len(d) == 2 and () in d:
        # c (f(u) + f(v) - 1)  and  c (f(u) - 1/2)  for a distribution function symmetric about 0
        k = d.get((), 0)
        rest = [(m, c) for m, c in d.items() if m]
        if k == 0 or any(len(m) != 1 or m[0][1] != 1 for m, _ in rest) or len({c for _, c in rest}) != 1:
            return None
        ats = [cx.atoms[m[0][0]] for m, _ in rest]
        c = rest[0][1]
        if k != -c * Fraction(len(ats), 2) or any(a.kind != "fun" or a.name not in SYMMETRIC for a in ats):
            return None
        pos, direction = MONOTONE[ats[0].name]
        if len(ats) == 2 and (ats[0].name != ats[1].name or any(
                not (x == y if not isinstance(x, Sym) else isinstance(y, Sym) and x.p == y.p)
                for j, (x, y) in enumerate(zip(ats[0].args, ats[1].args)) if j != pos)):
            return None
        u = Sym(p_add(ats[0].args[pos].p, ats[1].args[pos].p)) if len(ats) == 2 else ats[0].args[pos]
        return u if c > 0 else -u
    if len(d) != 2:
        return None
    (m1, c1), (m2, c2) = d.items()
    if c1 != -c2 or len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1:
        return None
    a, b = cx.atoms[m1[0][0]], cx.atoms[m2[0][0]]
    if a.kind != "fun" or b.kind != "fun" or a.name != b.name or a.name not in STRICT or a.name not in MONOTONE:
        return None
    pos, direction = MONOTONE[a.name]
    for k, (x, y) in enumerate(zip(a.args, b.args)):
        if k != pos and not (x == y if not isinstance(x, Sym) else isinstance(y, Sym) and x.p == y.p):
            return None
    u = Sym(p_add(a.args[pos].p, b.args[pos].p, -1))
    return u if (c1 > 0) == (direction > 0) else -u


def strip_positive(d):
    """Multiply by monomials of known-positive atoms to remove common/negative powers."""
    cx = ctx()
    mins = {}
    first = True
    for m in d:
        dm = dict(m)
        if first:
            mins = dict(dm)
            first = False
            continue
        for a in list(mins):
            mins[a] = min(mins[a], dm.get(a, 0))
        for a, e in dm.items():
            if a not in mins and e < 0:
                mins[a] = e
    mult = tuple(sorted((a, -e) for a, e in mins.items()
                        if e != 0 and cx.atoms[a].sign == "pos" and (a not in cx.reducible or e > 0)))
    if not mult:
        return d
    return {_mono_mul(m, mult): c for m, c in d.items()}


def _Cmp(op, d):
    return _CB(SymBool(op, d))


def _CB(x):
    return x


# comparisons may return python bools; make a uniform view
def B(x):
    return lift_bool(x)


# --------------------------------------------------------------------------- numeric evaluation
def numeric_const(s):
    """Float value when the expression contains no input symbols."""
    cx = CTX
    if cx is None:
        return None
    try:
        return evalf(s, {})
    except KeyError:
        return None


class _Env:
    """One concrete input assignment, evaluated lazily in floats."""

    __slots__ = ("fixed", "cache", "rng", "memo")

    def __init__(self, k):
        self.fixed = {}
        self.cache = {}
        self.rng = random.Random(7919 * k + 13)
        self.memo = {}

    def __getitem__(self, aid):
        v = self.fixed.get(aid)
        if v is None:
            s = ctx().suggest.get(aid)
            if s is None:
                raise KeyError(aid)
            v = self.fixed[aid] = float(s(self.rng))
        return v

    def test(self, cx, c):
        """True / False / None (unknown or too close to call)."""
        k = c.key()
        r = self.memo.get(k, 0)
        if r == 0:
            try:
                r = self._test(c)
            except (KeyError, ZeroDivisionError, OverflowError, ValueError, TypeError):
                r = None
            self.memo[k] = r
        return r

    def _test(self, c):
        if c.op == "const":
            return c.args
        if c.op == "not":
            r = self._test(c.args[0])
            return None if r is None else not r
        if c.op in ("and", "or"):
            stop = c.op == "or"
            unk = False
            for a in c.args:
                r = self._test(a)
                if r is stop:
                    return stop
                unk = unk or r is None
            return None if unk else not stop
        if c.op == "z3":
            return None
        tot, mag = [], 0.0
        for m, co in c.args.items():
            v = float(co)
            for a, e in m:
                v *= _evalatom(a, self, self.cache) ** e
            tot.append(v)
            mag = max(mag, abs(v))
        v = math.fsum(tot)
        if v != v or mag == math.inf:
            return None
        if abs(v) <= 1e-9 * (1e-3 + mag):
            return None
        return {"lt": v < 0, "le": v < 0, "eq": False}[c.op]


def evalf(x, env, cache=None):
    """Evaluate a Sym / SymBool in floats under env: atom id -> float."""
    cx = ctx()
    if cache is None:
        cache = {}
    if isinstance(x, SymBool):
        if x.op == "const":
            return x.args
        if x.op == "not":
            return not evalf(x.args[0], env, cache)
        if x.op == "and":
            return all(evalf(a, env, cache) for a in x.args)
        if x.op == "or":
            return any(evalf(a, env, cache) for a in x.args)
        if x.op == "z3":
            raise KeyError("z3")
        v = _evalpoly(x.args, env, cache)
        return {"lt": v < 0, "le": v <= 0, "eq": v == 0}[x.op]
    if not isinstance(x, Sym):
        return x
    return _evalpoly(x.p, env, cache)


def clear_cut(x, env, cache):
    """No comparison in x is a near tie at env (exact ties count as clear when they evaluate to exactly zero)."""
    if x.op in ("const", "z3"):
        return True
    if x.op in ("not", "and", "or"):
        return all(clear_cut(a, env, cache) for a in x.args)
    try:
        tot = []
        for m, c in x.args.items():
            v = float(c)
            for a, e in m:
                v *= _evalatom(a, env, cache) ** e
            tot.append(v)
        v = math.fsum(tot)
    except (KeyError, ZeroDivisionError, OverflowError, ValueError, TypeError):
        return True
    return v == 0 and x.op != "lt" or abs(v) > 1e-9 * (1e-3 + max(map(abs, tot), default=0))


def _evalpoly(p, env, cache):
    tot = []
    for m, c in p.items():
        v = float(c)
        for a, e in m:
            v *= _evalatom(a, env, cache) ** e
        tot.append(v)
    try:
        return math.fsum(tot)
    except (OverflowError, ValueError):
        return sum(tot)


def _evalatom(aid, env, cache):
    if aid in cache:
        return cache[aid]
    cx = ctx()
    a = cx.atoms[aid]
    if a.kind == "sym":
        v = env[aid]
    elif a.kind == "sqrt":
        t = _evalpoly(cx.reducible[aid], env, cache)
        v = math.sqrt(t) if t >= 0 else (0.0 if t > -1e-9 else math.nan)
    elif a.kind == "sum":
        v = _evalpoly(a.args[0].p, env, cache)
    elif a.kind == "ite":
        v = evalf(a.args[1] if evalf(a.args[0], env, cache) else a.args[2], env, cache)
    elif a.kind == "max":
        v = max(evalf(x, env, cache) for x in a.args)
    elif a.kind == "min":
        v = min(evalf(x, env, cache) for x in a.args)
    elif a.kind == "abs":
        v = abs(evalf(a.args[0], env, cache))
    elif a.kind == "floor":
        v = math.floor(evalf(a.args[0], env, cache))
    elif a.kind == "fun":
        args = [evalf(x, env, cache) if isinstance(x, (Sym, SymBool)) else x for x in a.args]
        f = NUMERIC.get(a.name)
        if f is None:
            raise KeyError(a.name)
        v = f(*args)
    else:
        raise KeyError(a.kind)
    cache[aid] = v
    return v


def evalx(x, env, cache):
    """Evaluation with exact rational arithmetic outside roots and transcendental functions (no cancellation)."""
    if isinstance(x, SymBool):
        return evalf(x, {k: float(v) for k, v in env.items()}, {})
    if not isinstance(x, Sym):
        return x
    tot = Fraction(0)
    for m, c in x.p.items():
        for a, e in m:
            c = c * _evalx_atom(a, env, cache) ** e
        tot += c
    if tot.denominator.bit_length() > 3000:
        k = 1 << max(0, 1500 - tot.numerator.bit_length() + tot.denominator.bit_length())
        tot = Fraction(round(tot * k), k)
    return tot


def _evalx_atom(aid, env, cache):
    v = cache.get(aid)
    if v is not None:
        return v
    a = ctx().atoms[aid]
    if a.kind == "sym":
        v = Fraction(env[aid])
    elif a.kind == "sqrt":
        t = evalx(Sym(ctx().reducible[aid]), env, cache)
        k = 1 << (2 * max(0, 400 + t.denominator.bit_length() - t.numerator.bit_length()))
        v = Fraction(math.isqrt(max(0, math.floor(t * k))), math.isqrt(k))
    elif a.kind == "sum":
        v = evalx(a.args[0], env, cache)
    elif a.kind == "ite":
        v = evalx(a.args[1] if evalx(a.args[0], env, cache) else a.args[2], env, cache)
    elif a.kind in ("max", "min"):
        v = (max if a.kind == "max" else min)(evalx(x, env, cache) for x in a.args)
    elif a.kind == "abs":
        v = abs(evalx(a.args[0], env, cache))
    elif a.kind == "floor":
        v = Fraction(math.floor(evalx(a.args[0], env, cache)))
    elif a.kind == "fun" and a.name in NUMERIC:
        v = Fraction(NUMERIC[a.name](*[float(evalx(x, env, cache)) if isinstance(x, Sym) else x for x in a.args]))
    else:
        raise KeyError(a.kind)
    cache[aid] = v
    return v


# --------------------------------------------------------------------------- axioms of functions
def _ax_log(cx, a):
    x = cx.z3poly(a.args[0].p)
    v = a.z3v
    out = [z3.Implies(x > 1, v > 0), z3.Implies(x < 1, v < 0), z3.Implies(x == 1, v == 0)]
    c = a.args[0].c
    if c is not None:
        f = math.log(float(c))
        lo, hi = Fraction(f) - Fraction(1, 10**9), Fraction(f) + Fraction(1, 10**9)
        out += [v > z3.Q(lo.numerator, lo.denominator), v < z3.Q(hi.numerator, hi.denominator)]
    return out


def _bracket(v, f, eps=Fraction(1, 10**9)):
    f = Fraction(f)
    lo, hi = f - eps * (1 + abs(f)), f + eps * (1 + abs(f))
    return [v > z3.Q(lo.numerator, lo.denominator), v < z3.Q(hi.numerator, hi.denominator)]


def _ax_exp(cx, a):
    x = cx.z3poly(a.args[0].p)
    v = a.z3v
    out = [v > 0, z3.Implies(x > 0, v > 1), z3.Implies(x < 0, v < 1), z3.Implies(x == 0, v == 1)]
    c = a.args[0].c
    if c is not None and abs(c) < 300:
        out += _bracket(v, math.exp(float(c)))
    return out


def _ax_unit_open(cx, a):
    return [a.z3v > 0, a.z3v < 1]


def _ax_unit_closed(cx, a):
    return [a.z3v >= 0, a.z3v <= 1]


FUN_AXIOMS["log"] = _ax_log
FUN_AXIOMS["exp"] = _ax_exp
MONOTONE["log"] = (0, 1)
MONOTONE["exp"] = (0, 1)
STRICT |= {"log", "exp"}
NUMERIC["log"] = lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
NUMERIC["exp"] = lambda x: math.exp(x) if x < 700 else math.inf
NUMERIC["root"] = lambda x, e: x ** e
