"""The little of pandas that the package uses, over symbolic columns."""
import types

from . import npshim
from .core import Unsupported, cmp_, lift
from .nparr import SymArray


class Groups:
    def __init__(self, df, keys, col=None):
        self.df, self.keys, self.col = df, keys, col

    def __getitem__(self, col):
        return Groups(self.df, self.keys, col)

    def rows(self):
        """Row numbers of each row's group (rows whose keys are all equal)."""
        n = self.df.shape[0]
        cols = [[lift(v) for v in self.df[k]] for k in self.keys]
        rep = []
        for i in range(n):
            for j in range(i):
                if rep[j] == j and all(bool(cmp_(c[i], c[j], "eq")) for c in cols):
                    rep.append(j)
                    break
            else:
                rep.append(i)
        return [[j for j in range(n) if rep[j] == rep[i]] for i in range(n)]

    def transform(self, fn):
        v = list(self.df[self.col])
        out = []
        for g in self.rows():
            x = SymArray([v[j] for j in g])
            if fn in ("mean", "sum", "max", "min", "median"):
                out.append(getattr(npshim.NP, fn)(x))
            elif fn in ("count", "size"):
                out.append(len(g))
            elif fn in ("first", "last"):
                out.append(v[g[0 if fn == "first" else -1]])
            elif callable(fn):
                out.append(fn(x))
            else:
                raise Unsupported(f"groupby.transform({fn})")
        return SymArray(out)

    def __getattr__(self, name):
        raise Unsupported(f"pandas groupby.{name}")


class DataFrame:
    def __init__(self, data=None, **k):
        if not isinstance(data, (dict, type(None))) or k:
            raise Unsupported("pandas DataFrame from other than columns")
        self.__dict__["cols"] = {n: SymArray(list(v)) for n, v in (data or {}).items()}

    @property
    def shape(self):
        return (len(self), len(self.cols))

    def __len__(self):
        return max([len(c) for c in self.cols.values()] or [0])

    def __getitem__(self, name):
        if not isinstance(name, str):
            raise Unsupported("pandas indexing")
        return self.cols[name]

    def __setitem__(self, name, v):
        n = len(self)
        self.cols[name] = SymArray(list(v) if hasattr(v, "__len__") else [v] * n)

    def groupby(self, by, **k):
        return Groups(self, [by] if isinstance(by, str) else list(by))

    def __getattr__(self, name):
        if name in self.__dict__.get("cols", {}):
            return self.cols[name]
        raise Unsupported(f"pandas DataFrame.{name}")


class PD(types.ModuleType):
    DataFrame = DataFrame

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"pandas.{name}")


PANDAS = PD("pandas")
PANDAS.DataFrame = DataFrame
PANDAS.Series = lambda v, **k: SymArray(list(v))
