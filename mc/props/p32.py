"""P32: the compatibility layer gives for arrays and Series what the expressions give for columns."""
import warnings

import polars as pl
import polars_ds as pds

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from polars_ds.compat import compat

from .. import catalog
from ..core import Family, equal, outcome_of


class ArrayLike:
    def __init__(self, a):
        self.a = a

    def __array__(self, dtype=None, copy=None):
        return self.a


def chunks(s):
    return pl.concat([s[:1], s[1:3], s[3:]], rechunk=False).alias(s.name) if len(s) > 3 else s


WAYS = {
    "series": lambda s: s,
    "chunked series": chunks,
    "numpy": lambda s: s.to_numpy(),
    "pandas": lambda s: s.to_pandas(),
    "array-like": lambda s: ArrayLike(s.to_numpy()),
}


class Stop(Exception):
    pass


class Shim:
    """Stands for the package: its functions record the call an item of the catalogue makes, with columns as Series."""

    def __init__(self, df):
        self.df, self.call = df, None

    def __getattr__(self, name):
        if not hasattr(pds, name):
            raise AttributeError(name)

        def conv(x):
            if isinstance(x, str) and x in self.df.columns:
                return self.df[x]
            if isinstance(x, pl.Expr) and x.meta.root_names():
                return self.df.select(x).to_series()
            return x

        def call(*a, **k):
            self.call = name, [conv(x) for x in a], {n: conv(v) for n, v in k.items()}
            raise Stop
        return call


def record(df):
    """(item, (function, positional, keywords)) for each item that is a single call with columns of the frame."""
    shim, out = Shim(df), []
    catalog.pds = shim
    try:
        for it in catalog._items():
            shim.call = None
            try:
                it.make()
            except Stop:
                pass
            if shim.call and any(isinstance(v, pl.Series) for v in [*shim.call[1], *shim.call[2].values()]) and not any(
                    isinstance(v, list) and v and isinstance(v[0], str) for v in shim.call[2].values()):
                out.append((it, shim.call))
    finally:
        catalog.pds = pds
    return out


def with_nulls(df):
    """Every third value of the columns that may have nulls."""
    return df.with_columns(pl.when(pl.int_range(pl.len()) % 3 == 1).then(None).otherwise(pl.col(c)).alias(c) for c in ("x", "y", "a", "b", "p", "u", "i"))


def cases(tier):
    hi = 20 if tier == "quick" else 60
    return [[n, salt, nulls] for n in [*range(1, hi), 24, 100, 257, 600] for salt in ((1,) if tier == "quick" else (1, 2, 3)) for nulls in (False, True)]


def run(case, rec):
    n, salt, nulls = case
    df = catalog.frame(n, salt)
    if nulls:
        df = with_nulls(df)
    for it, (name, args, kw) in record(df):
        if n < it.min_n:
            continue
        for way, conv in WAYS.items():
            if way not in ("series", "chunked series") and any(isinstance(v, pl.Series) and isinstance(v.dtype, pl.List) for v in [*args, *kw.values()]):
                continue
            rec.state()
            rec.trans(2)
            given = [conv(v) if isinstance(v, pl.Series) else v for v in args]
            given_kw = {k: conv(v) if isinstance(v, pl.Series) else v for k, v in kw.items()}
            # the same columns in a frame: Series keep their names, others are called by position or keyword
            cols, names = {}, {}
            for key, v in [*((str(i), v) for i, v in enumerate(given)), *given_kw.items()]:
                if isinstance(v, pl.Series):
                    nm = v.name if v.name not in cols or cols[v.name].equals(v) else f"{v.name}_{key}"
                    cols[nm], names[key] = v, nm
                elif hasattr(v, "__array__") and not isinstance(v, (int, float)):
                    cols[key], names[key] = pl.Series(key, v.__array__()), key
            want = outcome_of(lambda: pl.DataFrame(list(s.alias(k) for k, s in cols.items())).select(
                getattr(pds, name)(*(pl.col(names[str(i)]) if str(i) in names else v for i, v in enumerate(given)),
                                   **{k: pl.col(names[k]) if k in names else v for k, v in given_kw.items()})).to_series())
            got = outcome_of(lambda: getattr(compat, name)(*given, **given_kw))
            if want[0] != "ok":
                rec.outcome("refused")
                rec.check(got[0] != "ok", f"{it.name}|{way}|accepted", lambda: f"{n} rows: {got[1]} for columns: {want[1]}")
                continue
            if not rec.check(got[0] == "ok" and isinstance(got[1], pl.Series), f"{it.name}|{way}|error", lambda: f"{n} rows: {got[1]}"):
                continue
            g, w = got[1], want[1]
            rec.check(g.name == name.replace("query_", ""), f"{it.name}|name", lambda: g.name)
            rec.check(g.dtype == w.dtype, f"{it.name}|{way}|type", lambda: f"{g.dtype} want {w.dtype}")
            a, b = (sorted(s.to_list(), key=repr) if it.unordered else s.to_list() for s in (g, w))
            rec.check(equal(a, b, 1e-9, 1e-9), f"{it.name}|{way}|values", lambda: f"{n} rows{' with nulls' if nulls else ''}: {str(a)[:300]} want {str(b)[:300]}")
    rec.outcome(n)


def api_cases(tier):
    return [["api"]]


def api_run(case, rec):
    x = pl.Series("x", [1.0, 2.0, 4.0])
    for nm in ("frame", "str_to_expr", "pl", "annotations", "__version__", "no_such_function"):
        rec.state()
        rec.trans()
        rec.check(outcome_of(lambda: getattr(compat, nm)(x))[0] == "err", f"api|{nm} callable", nm)
    for f in (lambda: compat.expit(), lambda: compat.expit(x=x), lambda: compat.random_null(pl_x=x)):
        rec.state()
        rec.trans()
        rec.check(outcome_of(f)[0] == "err", "api|call without positional argument", "")
    # numbers stay numbers, text stays text
    rec.check(compat.gcd(pl.Series([4, 6, 9]), 6).to_list() == [2, 6, 3], "api|number", "")
    rec.check(compat.str_leven(pl.Series(["ab", "xbananax"]), pl.lit("banana")).to_list() == [5, 2], "api|literal", "")
    rec.check(x.name == "x" and x.to_list() == [1.0, 2.0, 4.0], "api|input changed", "")


FAMILIES = [
    Family("calls", cases, run, "every expression of the catalogue that takes columns x 5 kinds of array (Series, in chunks, numpy, pandas, __array__) x lengths 1 to 19 (59), 24, 100, 257, 600 x with and without nulls"),
    Family("api", api_cases, api_run, "refused names and calls, scalars and literals passed on"),
]
