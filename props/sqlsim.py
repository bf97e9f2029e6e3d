"""A relational database over symbolic rows: interprets the SQLAlchemy statements the code really builds.

sqlalchemy.orm.Session is replaced (only while a symbolic harness runs) by an in-memory table store whose cells may be
symbolic; WHERE / ORDER BY / LIMIT trees are evaluated as written, transactions take effect on commit only, rows without an
ORDER BY come in insertion order or in reverse.  Replays use the real session on SQLite.
"""
import json

from sqlalchemy import delete, select
from sqlalchemy.exc import IntegrityError, MultipleResultsFound, NoResultFound
from sqlalchemy.orm import Session
from sqlalchemy.sql import elements, operators, selectable
from sqlalchemy.sql import dml as _dml
from sqlalchemy.types import TypeDecorator

from symx.core import Sym, SymBool, Unsupported
from symx.nparr import zstd_stub


class SymJson(str):
    """JSON text of a value containing symbolic numbers"""

    def __new__(cls, v):
        s = super().__new__(cls, "symjson")
        s.v = v
        return s

    def __hash__(self):
        return 0


def _has_sym(v):
    if isinstance(v, (Sym, SymBool)):
        return True
    if isinstance(v, (list, tuple)):
        return any(_has_sym(x) for x in v)
    if isinstance(v, dict):
        return any(_has_sym(x) for x in v.values())
    return False


class World:
    def __init__(self, T):
        self.T = T
        self.dbs = {}
        self.undo = []

    def __enter__(self):
        T = self.T
        if T.real:
            return self
        T.stub("zstandard", zstd_stub())
        self._patch(json, "dumps", lambda old: lambda v, *a, **k: SymJson(v) if _has_sym(v) else old(v, *a, **k))
        self._patch(json, "loads", lambda old: lambda v, *a, **k: list(v.v) if isinstance(v, SymJson) else old(v, *a, **k))
        w = self
        S = {
            "execute": lambda s, stmt, *a, **k: w.of(s).execute(stmt),
            "scalars": lambda s, stmt, *a, **k: w.of(s).execute(stmt).scalars(),
            "scalar": lambda s, stmt, *a, **k: w.of(s).execute(stmt).scalar(),
            "merge": lambda s, obj, **k: w.of(s).merge(obj),
            "add": lambda s, obj, **k: w.of(s).add(obj),
            "add_all": lambda s, objs: [w.of(s).add(o) for o in objs] and None,
            "delete": lambda s, obj: w.of(s).delete(obj),
            "get": lambda s, ent, ident, **k: w.of(s).get(ent, ident),
            "flush": lambda s, *a, **k: w.of(s).sync(),
            "commit": lambda s: w.of(s).commit(),
            "rollback": lambda s: w.of(s).reset(),
            "close": lambda s: w.of(s).reset(),
            "expire_all": lambda s: None,
            "begin": lambda s, *a, **k: _Begin(w.of(s)),
            "query": lambda s, *ents: _Query(s, select(*ents)),
            "bulk_save_objects": lambda s, objs, **k: [w.of(s).add(o) for o in objs] and None,
            "__enter__": lambda s: s,
            "__exit__": lambda s, *a: w.of(s).reset(),
        }
        for n, f in S.items():
            self._patch(Session, n, lambda old, f=f: f)
        return self

    def _patch(self, obj, name, mk):
        old = obj.__dict__.get(name) if isinstance(obj, type) else getattr(obj, name)
        setattr(obj, name, mk(old))
        self.undo.append((obj, name, old))

    def __exit__(self, *a):
        for obj, name, old in reversed(self.undo):
            if old is None:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self.undo = []
        return False

    def of(self, s):
        st = s.__dict__.get("_sx_state")
        if st is None:
            key = id(s.bind)
            db = self.dbs.setdefault(key, [])
            st = State(self.T, db)
            s.__dict__["_sx_state"] = st
        return st


class _Query:
    """Session.query as the SELECT it stands for"""

    def __init__(self, s, stmt):
        self.s, self.stmt = s, stmt

    def _run(self):
        return self.s.execute(self.stmt)

    def _ent(self):
        return self.stmt.column_descriptions[0]["entity"]

    def _objs(self):
        d = self.stmt.column_descriptions
        return self._run().scalars() if len(d) == 1 and d[0]["expr"] is d[0]["entity"] else self._run()

    def all(self):
        return self._objs().all()

    def first(self):
        return _Query(self.s, self.stmt.limit(1))._objs().first()

    def one(self):
        return self._objs().one()

    def one_or_none(self):
        return self._objs().one_or_none()

    def scalar(self):
        return self._run().scalar()

    def count(self):
        return len(self.all())

    def __iter__(self):
        return iter(self.all())

    def get(self, ident):
        return self.s.get(self._ent(), ident)

    def delete(self, *a, **k):
        st = delete(self._ent())
        w = self.stmt.whereclause
        return self.s.execute(st if w is None else st.where(w)).rowcount

    def __getattr__(self, name):
        if name in ("filter", "where", "filter_by", "order_by", "limit", "offset"):
            f = getattr(self.stmt, "where" if name == "filter" else name)
            return lambda *a, **k: _Query(self.s, f(*a, **k))
        raise Unsupported(f"Query.{name}")


class _Begin:
    def __init__(self, st):
        self.st = st

    def __enter__(self):
        return self

    def __exit__(self, t, *a):
        self.st.commit() if t is None else self.st.reset()
        return False


class Row:
    def __init__(self, table, vals, coded=None):
        self.table = table
        self.vals = vals
        self.coded = coded or {}

    def through(self):
        """what comes back of each value that is stored in a coded form"""
        for c in self.table.columns:
            v = self.vals.get(c.key)
            if isinstance(c.type, TypeDecorator) and self.coded.get(c.key, self) is not v:
                self.vals[c.key] = self.coded[c.key] = c.type.process_result_value(c.type.process_bind_param(v, None), None)
        return self


class State:
    """one session"""

    def __init__(self, T, db):
        self.T = T
        self.db = db
        self.reset()

    def reset(self):
        self.rows = [Row(r.table, dict(r.vals), dict(r.coded)) for r in self.db]
        self.loaded = []

    def sync(self):
        for obj, row, cols in self.loaded:
            for k in cols:
                row.vals[k] = getattr(obj, k)

    def commit(self):
        self.sync()
        self.db[:] = [Row(r.table, dict(r.vals), dict(r.coded)).through() for r in self.rows]

    # -- identity
    def same(self, table, a, b):
        return self.T.and_(*[eqv(self.T, a[c.key], b[c.key]) for c in table.primary_key.columns])

    def vals(self, obj):
        return {c.key: getattr(obj, c.key) for c in type(obj).__table__.columns}

    def find(self, table, vals):
        for r in self.rows:
            if r.table is table and self.T.branch(self.same(table, r.vals, vals)):
                return r
        return None

    def merge(self, obj):
        self.sync()
        t = type(obj).__table__
        v = self.vals(obj)
        r = self.find(t, v)
        if r is None:
            r = Row(t, v)
            self.rows.append(r)
        else:
            r.vals = v
            for o, row, cols in self.loaded:
                if row is r:
                    for c in cols:
                        setattr(o, c, v[c])
        return self.obj(type(obj), r)

    def add(self, obj):
        self.sync()
        t = type(obj).__table__
        v = self.vals(obj)
        if self.find(t, v) is not None:
            raise IntegrityError("insert", {}, Exception("UNIQUE constraint failed"))
        r = Row(t, v)
        self.rows.append(r)
        self.loaded.append((obj, r, list(v)))

    def obj(self, ent, row):
        for o, r, _ in self.loaded:
            if r is row:
                return o
        o = ent(**row.vals)
        self.loaded.append((o, row, list(row.vals)))
        return o

    def delete(self, obj):
        for i, (o, r, _) in enumerate(self.loaded):
            if o is obj:
                self.rows = [x for x in self.rows if x is not r]
                del self.loaded[i]
                return
        raise Unsupported("delete of an unattached object")

    def get(self, ent, ident):
        t = ent.__table__
        keys = [c.key for c in t.primary_key.columns]
        v = ident if isinstance(ident, dict) else dict(zip(keys, ident if isinstance(ident, (tuple, list)) else (ident,)))
        self.sync()
        r = self.find(t, v)
        return None if r is None else self.obj(ent, r)

    # -- statements
    def execute(self, stmt):
        T = self.T
        self.sync()
        if isinstance(stmt, _dml.Delete):
            t = stmt.table
            keep, n = [], 0
            for r in self.rows:
                if r.table.name == t.name and T.branch(self.where(stmt.whereclause, r)):
                    n += 1
                else:
                    keep.append(r)
            self.rows = keep
            return Result([], n)
        if isinstance(stmt, _dml.Update):
            n = 0
            for r in self.rows:
                if r.table.name == stmt.table.name and T.branch(self.where(stmt.whereclause, r)):
                    n += 1
                    for c, v in stmt._values.items():
                        r.vals[c.key] = val(v, r)
            return Result([], n)
        if not isinstance(stmt, selectable.Select):
            raise Unsupported(f"statement {type(stmt).__name__}")
        if stmt._group_by_clauses or stmt._distinct or stmt._having_criteria:
            raise Unsupported("GROUP BY / DISTINCT / HAVING")
        ents = [d["entity"] for d in stmt.column_descriptions]
        exprs = [d["expr"] for d in stmt.column_descriptions]
        if len(set(map(id, ents))) != 1 or ents[0] is None:
            raise Unsupported("select of several entities")
        ent = ents[0]
        t = ent.__table__
        rows = [r for r in self.rows if r.table is t]
        if not stmt._order_by_clauses and len(rows) > 1 and T.choose(f"scan{_uniq(self.T)}", [0, 1]):
            rows = rows[::-1]
        rows = [r for r in rows if T.branch(self.where(stmt.whereclause, r))]
        rows = self.order(stmt._order_by_clauses, rows)
        off = 0 if stmt._offset_clause is None else int(stmt._offset_clause.value)
        rows = rows[off:]
        if stmt._limit_clause is not None:
            rows = rows[: int(stmt._limit_clause.value)]
        out = []
        for r in rows:
            out.append(tuple(self.obj(ent, r) if e is ent else r.vals[_col(e).key] for e in exprs))
        return Result(out, len(out))

    def order(self, clauses, rows):
        T = self.T
        keys = []
        for c in clauses:
            desc = False
            while isinstance(c, (elements.UnaryExpression, elements.Grouping)):
                if isinstance(c, elements.UnaryExpression):
                    if c.modifier is operators.desc_op:
                        desc = not desc
                    elif c.modifier not in (operators.asc_op, None) or c.operator is not None:
                        raise Unsupported("ORDER BY modifier")
                c = c.element
            keys.append((_col(c).key, desc))
        out = []
        for r in rows:
            i = 0
            while i < len(out) and not self.before(r, out[i], keys):
                i += 1
            out.insert(i, r)
        return out

    def before(self, a, b, keys):
        T = self.T
        for k, desc in keys:
            x, y = a.vals[k], b.vals[k]
            if desc:
                x, y = y, x
            if isinstance(x, str):
                if x != y:
                    return x < y
                continue
            if T.branch(T.lt(x, y)):
                return True
            if T.branch(T.lt(y, x)):
                return False
        return False

    def where(self, c, row):
        T = self.T
        if c is None:
            return T.truth(True)
        if isinstance(c, elements.Grouping):
            return self.where(c.element, row)
        if isinstance(c, elements.True_):
            return T.truth(True)
        if isinstance(c, elements.False_):
            return T.truth(False)
        if isinstance(c, elements.BooleanClauseList):
            parts = [self.where(x, row) for x in c.clauses]
            if c.operator is operators.and_:
                return T.and_(*parts)
            if c.operator is operators.or_:
                return T.or_(*parts)
        if isinstance(c, elements.UnaryExpression) and c.operator is operators.inv:
            return T.not_(self.where(c.element, row))
        if isinstance(c, elements.BinaryExpression):
            op = c.operator
            a = val(c.left, row)
            if op in (operators.between_op, operators.not_between_op):
                lo, hi = [val(x, row) for x in c.right.clauses]
                r = T.and_(T.le(lo, a), T.le(a, hi))
                return r if op is operators.between_op else T.not_(r)
            b = val(c.right, row)
            if op in (operators.in_op, operators.not_in_op):
                r = T.or_(T.truth(False), *[eqv(T, a, x) for x in b])
                return r if op is operators.in_op else T.not_(r)
            if b is None or a is None:
                if op is operators.is_:
                    return T.truth(a is None and b is None)
                if op is operators.is_not:
                    return T.truth((a is None) != (b is None))
                return T.truth(False)
            n = getattr(op, "__name__", "")
            if n == "eq":
                return eqv(T, a, b)
            if n == "ne":
                return T.not_(eqv(T, a, b))
            f = {"lt": T.lt, "le": T.le, "gt": T.gt, "ge": T.ge}.get(n)
            if f is not None:
                return f(a, b)
        raise Unsupported(f"SQL condition {c}")


def _uniq(T):
    n = getattr(T, "_scan", 0)
    T._scan = n + 1
    return n


def _col(e):
    return e if hasattr(e, "table") and hasattr(e, "key") else e.__clause_element__()


def val(e, row):
    if isinstance(e, elements.BindParameter):
        return e.effective_value if e.value is None and e.callable else e.value
    if isinstance(e, elements.Null):
        return None
    if isinstance(e, (elements.Grouping,)):
        return val(e.element, row)
    if isinstance(e, elements.ClauseList):
        return [val(x, row) for x in e.clauses]
    if isinstance(e, elements.BinaryExpression):
        a, b = val(e.left, row), val(e.right, row)
        n = getattr(e.operator, "__name__", "")
        if n == "add":
            return a + b
        if n == "sub":
            return a - b
        if n == "mul":
            return a * b
        raise Unsupported(f"SQL operator {n}")
    if hasattr(e, "key") and hasattr(e, "table"):
        return row.vals[e.key]
    if hasattr(e, "__clause_element__"):
        return val(e.__clause_element__(), row)
    raise Unsupported(f"SQL expression {type(e).__name__}")


def eqv(T, a, b):
    if isinstance(a, SymJson) or isinstance(b, SymJson):
        x = a.v if isinstance(a, SymJson) else json.loads(a)
        y = b.v if isinstance(b, SymJson) else json.loads(b)
        return same_list(T, x, y)
    if isinstance(a, str) or isinstance(b, str):
        return T.truth(isinstance(a, str) and isinstance(b, str) and str.__eq__(a, b))
    return T.eq(a, b)


def same_list(T, x, y):
    if len(x) != len(y):
        return T.truth(False)
    return T.and_(T.truth(True), *[T.eq(p, q) for p, q in zip(x, y)])


class Result:
    def __init__(self, rows, n):
        self.rows = rows
        self.rowcount = n

    def all(self):
        return list(self.rows)

    fetchall = all

    def __iter__(self):
        return iter(self.rows)

    def unique(self, *a):
        return self

    def first(self):
        return self.rows[0] if self.rows else None

    def one_or_none(self):
        if len(self.rows) > 1:
            raise MultipleResultsFound("Multiple rows were found when one or none was required")
        return self.first()

    def one(self):
        if not self.rows:
            raise NoResultFound("No row was found when one was required")
        return self.one_or_none()

    def scalars(self, *a):
        return Result([r[0] for r in self.rows], self.rowcount)

    def scalar(self):
        r = self.first()
        return r[0] if r is not None else None

    def scalar_one_or_none(self):
        r = self.one_or_none()
        return r[0] if r is not None else None

    def scalar_one(self):
        return self.one()[0]
