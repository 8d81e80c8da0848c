"""P40: an argument means the same however it is given: by name, as an expression, as values, as SQL text, as a numpy scalar, by keyword, by default."""
import inspect
import re
import warnings

import numpy as np
import polars as pl
import polars_ds as pds

from .. import catalog
from ..documented import DEFAULTS
from ..core import Family, equal, outcome_of, short
from .p32 import Stop, chunks, with_nulls


class Shim:
    """Stands for the package: its functions record the call an item of the catalogue makes."""

    def __init__(self):
        self.call = None

    def __getattr__(self, name):
        f = getattr(pds, name)

        def call(*a, **k):
            self.call = f, list(a), k
            raise Stop

        return call if inspect.isfunction(f) else f


def record():
    """(item, function, positional, keywords) of the first call of every item."""
    shim, out, seen = Shim(), [], set()
    catalog.pds = shim
    try:
        for it in catalog._items():
            shim.call = None
            try:
                it.make()
            except Stop:
                pass
            if shim.call:
                f, a, k = shim.call
                key = (f.__name__, str(a), str(k))
                if key not in seen:
                    seen.add(key)
                    out.append((it, f, a, k))
    finally:
        catalog.pds = pds
    return out


def slots(f, args, kw):
    """(where, value, parameter) of every argument given."""
    P = list(inspect.signature(f).parameters.values())
    var = next((i for i, p in enumerate(P) if p.kind is p.VAR_POSITIONAL), None)
    for i, v in enumerate(args):
        yield i, v, P[i if var is None else min(i, var)]
    for n, v in kw.items():
        yield n, v, inspect.signature(f).parameters.get(n) or P[-1]


VALUES = {
    "Series": lambda s: s,
    "Series in chunks": chunks,
    "renamed Series": lambda s: s.alias("other"),
    "list": lambda s: s.to_list(),
    "tuple": lambda s: tuple(s.to_list()),
    "iterator": lambda s: iter(s.to_list()),
    "numpy": lambda s: s.to_numpy().copy(),
    "strided numpy": lambda s: np.repeat(s.to_numpy(), 2)[::2],
    "reversed numpy": lambda s: s.to_numpy()[::-1].copy()[::-1],
    "read-only numpy": lambda s: _frozen(s.to_numpy()),
}
EXPRS = {
    "aliased": lambda e, i: e.alias(f"another name {i}"),
    "conditional": lambda e, i: pl.when(pl.lit(True)).then(e),
    "reversed twice": lambda e, i: e.reverse().reverse(),
    "sorted by row": lambda e, i: e.sort_by(pl.int_range(pl.len())),
    "in parts": lambda e, i: e.head(2).append(e.slice(2)),
    "filtered": lambda e, i: e.filter(pl.int_range(pl.len()) >= 0),
    "shifted by 0": lambda e, i: e.shift(0),
}
SQL = [("x", "x"), ("x + 1", pl.col("x") + 1), ("x * 2 - y", pl.col("x") * 2 - pl.col("y")), ("abs(x - 20)", (pl.col("x") - 20).abs()), ("sqrt(x)", pl.col("x").sqrt()), ("x / 4", pl.col("x") / 4), ("power(x, 2)", pl.col("x").pow(2)), ("ln(p)", pl.col("p").log()), ("least(x, y)", pl.min_horizontal("x", "y"))]
LINEAR = ("lin_reg", "simple_lin_reg", "lin_reg_w_rcond", "lin_reg_report", "recursive_lin_reg", "rolling_lin_reg")


def _frozen(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def is_col(v, df):
    return (isinstance(v, str) and v in df.columns) or (isinstance(v, pl.Expr) and bool(v.meta.root_names()))


def as_expr(v):
    return pl.col(v) if isinstance(v, str) else v


def put(args, kw, where, v):
    a, k = list(args), dict(kw)
    (a if isinstance(where, int) else k)[where] = v
    return a, k


def ways(f, args, kw, df):
    """(what, args, kwargs, True when the output's name must be the same)."""
    S = list(slots(f, args, kw))
    cols = [(w, v, p) for w, v, p in S if is_col(v, df)]
    names = [w for w, v, p in cols if isinstance(v, str)]
    for w, v, p in cols:
        ann = str(p.annotation)
        if "Expr" not in ann and "expr" not in ann and p.annotation is not p.empty:
            continue
        if isinstance(v, str):
            yield "expression", *put(args, kw, w, pl.col(v)), True
        for n, g in EXPRS.items():
            yield f"{n} {p.name}", *put(args, kw, w, g(as_expr(v), w)), False
        if "Iterable" in ann or (f.__name__ in LINEAR and p.name in ("x", "target", "weights")):
            s = df.select(as_expr(v)).to_series()
            for n, g in VALUES.items():
                if f.__name__ in LINEAR and n in ("list", "tuple", "iterator") or "numpy" in n and s.null_count():
                    continue
                yield f"{n} {p.name}", lambda w=w, g=g, s=s: put(args, kw, w, g(s)), None, False
    for n, g in [("expression", lambda e, i: e), *EXPRS.items()]:  # all at once
        a, k = list(args), dict(kw)
        for w, v, p in cols:
            if "xpr" in str(p.annotation) or p.annotation is p.empty:
                a, k = put(a, k, w, g(as_expr(v), w))
        yield f"all {n}", a, k, False
    if f.__name__ in LINEAR:
        for n in ("Series", "numpy"):
            a, k = list(args), dict(kw)
            for w, v, p in cols:
                if p.name in ("x", "target", "weights"):
                    a, k = put(a, k, w, VALUES[n](df.select(as_expr(v)).to_series()))
            if n != "numpy" or not any(df.select(as_expr(v)).to_series().null_count() for w, v, p in cols):
                yield f"all {n}", a, k, False
    P = inspect.signature(f).parameters
    pos = [p.name for p in P.values() if p.kind is p.POSITIONAL_OR_KEYWORD]
    if not any(p.kind is p.VAR_POSITIONAL for p in P.values()):
        b = dict(zip(pos, args))
        yield "by keyword", [], {**dict(reversed(b.items())), **kw}, True
        front = [n for n in pos]
        while front and front[-1] not in b and front[-1] not in kw:
            front.pop()
        if all(n in b or n in kw or P[n].default is not P[n].empty for n in front):
            allv = {**b, **kw}
            yield "by position", [allv.get(n, P[n].default) for n in front], {n: v for n, v in kw.items() if n not in front}, True
    for p in P.values():
        if p.default is not p.empty and p.name not in kw and p.name not in dict(zip(pos, args)):
            yield f"default {p.name}", args, {**kw, p.name: p.default}, True
            if type(p.default) is float:
                yield f"default {p.name} as a numpy float", args, {**kw, p.name: np.float64(p.default)}, True
    for w, v, p in S:
        ann = str(p.annotation)
        if isinstance(v, (bool, str)) or v is None:
            continue
        if isinstance(v, float):
            yield f"numpy scalar {p.name}", *put(args, kw, w, np.float64(v)), True
        if re.search(r"\bfloat\b", ann):
            if isinstance(v, float) and v == int(v):
                yield f"integer {p.name}", *put(args, kw, w, int(v)), True
            if isinstance(v, int):
                yield f"float {p.name}", *put(args, kw, w, float(v)), True
        if isinstance(v, (int, float)) and "Expr" in ann:
            yield f"literal {p.name}", *put(args, kw, w, pl.lit(v)), False
        if isinstance(v, list) and v and all(isinstance(q, (int, float)) for q in v):
            ok = ("tuple", "numpy", "strided numpy", "reversed numpy", "read-only numpy", "Series", "Series in chunks") if re.search("Iterable|ndarray", ann) else ()
            for n in ok:
                yield f"{n} {p.name}", *put(args, kw, w, VALUES[n](pl.Series("values", v))), True


def cases(tier):
    return [[i, n, salt, nulls] for i in range(len(record())) for n in ((3, 7, 24, 600) if tier == "quick" else (1, 2, 3, 4, 5, 7, 9, 12, 16, 24, 40, 90, 600, 1500)) for salt in ((1,) if tier == "quick" else (1, 2, 3)) for nulls in KINDS]


CALLS = []


def odd(df):
    """Infinities and NaN among the numbers."""
    at = pl.int_range(pl.len()) % 5
    return df.with_columns(pl.when(at == k).then(pl.lit(v)).otherwise(pl.col(c)).alias(c) for c, k, v in (("x", 1, INF), ("y", 2, NAN), ("a", 3, -INF), ("b", 1, NAN)))


INF, NAN = float("inf"), float("nan")
KINDS = {"": lambda df: df, "with nulls": with_nulls, "with nulls, infinities, NaN": lambda df: odd(with_nulls(df))}


def run(case, rec):
    i, n, salt, nulls = case
    if not CALLS:
        CALLS.extend(record())
    it, f, args, kw = CALLS[i]
    if n < it.min_n or (it.seed and "seed" not in kw):
        return
    df = catalog.frame(n, salt)
    df = KINDS[nulls](df)
    want = outcome_of(lambda: df.select(f(*args, **kw)).to_series())
    rec.outcome(want[0])
    if want[0] != "ok":
        return
    want = want[1]
    bare = lambda v: tuple(bare(q) for k, q in v.items() if k != "features") if isinstance(v, dict) else [bare(q) for q in v] if isinstance(v, list) else v

    def rows(s, named):
        """The rows, without the names that depend on those of the arguments."""
        v = s.to_list() if named else bare(s.to_list())
        return sorted(v, key=repr) if it.unordered else v

    for what, a, k, named in ways(f, args, kw, df):
        rec.state()
        rec.trans()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            def go():
                x, y = a() if callable(a) else (a, k)
                return df.select(f(*x, **y)).to_series()
            got = outcome_of(go)
        key = f"{f.__name__}|{what}"
        if not rec.check(got[0] == "ok", f"{key}|error", lambda: f"{n} rows {nulls}: {short(got[1])}"):
            continue
        rec.check(equal(rows(got[1], named), rows(want, named), 1e-9, 1e-12), f"{key}|values", lambda: f"{n} rows {nulls}: {short(got[1].to_list())} want {short(want.to_list())}")
        rec.check(got[1].dtype == want.dtype or (isinstance(want.dtype, pl.Struct)), f"{key}|type", lambda: f"{got[1].dtype} want {want.dtype}")
        rec.check(not named or got[1].name == want.name, f"{key}|name", lambda: f"{got[1].name} want {want.name}")


def sql_cases(tier):
    return [[f, i, j, n] for f in LINEAR for i in range(len(SQL)) for j in range(len(SQL)) if i != j for n in ((6, 24) if tier == "quick" else (6, 7, 12, 24, 50))]


def sql_run(case, rec):
    """Formulas as SQL text against the same formulas as expressions: a feature, the target, the weights."""
    name, i, j, n = case
    f, df = getattr(pds, name), catalog.frame(n, 5)
    more = dict(recursive_lin_reg=dict(start_with=5), rolling_lin_reg=dict(window_size=5)).get(name, {})
    (s, e), (s2, e2) = SQL[i], SQL[j]
    wide = name != "simple_lin_reg"
    for bias in (False, True):
        for w, we in (((None, None),) if "weights" not in inspect.signature(f).parameters else ((None, None), ("w", pl.col("w")), ("w * 2 + 1", pl.col("w") * 2 + 1))):
            rec.state()
            rec.trans(2)
            k = dict(more, add_bias=bias)
            q = [dict(k, weights=v) if v is not None else k for v in (w, we)]
            z = ("z",) if wide and name != "lin_reg_report" else ()
            got, want = (outcome_of(lambda: df.select(f(*x, target=t, **o).alias("o"))["o"].to_list()) for x, t, o in (((s, *z), s2, q[0]), ((as_expr(e).alias("f"), *z), as_expr(e2).alias("t"), q[1])))
            rec.outcome(want[0])
            if want[0] == "err":
                rec.check(got[0] == "err", f"{name}|accepted", lambda: f"{s} ~ {s2}")
                continue
            if name == "lin_reg_report" and got[0] == "ok":
                for r in (got[1], want[1]):
                    for d in r:
                        d.pop("features", None)
            rec.check(got[0] == "ok" and equal(got[1], want[1], 1e-9, 1e-9), f"{name}|{'weights' if w else 'plain'}", lambda: f"{n} rows, {s2} ~ {s}, weights {w}, bias {bias}: {short(got[1])} want {short(want[1])}")


def lit_run(case, rec):
    """A literal in the place of a column that is constant: refused, or the same."""
    i, n, salt, nulls = case
    if not CALLS:
        CALLS.extend(record())
    it, f, args, kw = CALLS[i]
    if n < it.min_n or it.seed or it.kind != "elem":
        return
    df = catalog.frame(n, salt)
    df = KINDS[nulls](df)
    cols = [(w, v, p) for w, v, p in slots(f, args, kw) if isinstance(v, str) and v in df.columns and "xpr" in str(p.annotation)]
    for w, c, p in cols:
        for row in range(min(n, 4)):
            v = df[c][row]
            if v is None or (isinstance(v, float) and v != v and f.__name__ == "l_inf_horizontal"):  # Polars' max_horizontal takes a NaN literal for the maximum
                continue
            if sum(c in (x.meta.root_names() if isinstance(x, pl.Expr) else [x] if isinstance(x, str) else []) for _, x, _ in slots(f, args, kw)) > 1:
                continue
            rec.state()
            rec.trans(2)
            v = pl.lit(pl.Series(c, [v], dtype=df[c].dtype)) if isinstance(v, pl.Series) else pl.lit(v, dtype=df[c].dtype).alias(c)
            const = df.with_columns(pl.repeat(v, n).alias(c) if df[c].dtype != pl.List else pl.Series(c, [df[c][row]] * n, dtype=df[c].dtype))
            a, k = put(args, kw, w, v)
            got, want = outcome_of(lambda: df.select(f(*a, **k)).to_series()), outcome_of(lambda: const.select(f(*args, **kw)).to_series())
            rec.outcome((got[0], want[0]))
            if got[0] == "ok":
                rec.check(want[0] == "ok", f"{f.__name__}|{p.name}|accepted", lambda: f"{n} rows, {c} = {v}: {short(got[1].to_list())}, for a column {short(want[1])}")
            if got[0] == want[0] == "ok":
                g, x = got[1].to_list(), want[1].to_list()
                if it.kind in ("elem", "vec") and all(pp.name == p.name for _, _, pp in cols) and len(g) == 1:
                    continue  # nothing tells the number of rows
                if it.unordered:
                    g, x = sorted(g, key=repr), sorted(x, key=repr)
                rec.check(equal(g, x, 1e-9, 1e-12), f"{f.__name__}|{p.name}|values", lambda: f"{n} rows, {c} = {v}: {short(g)}, for a column {short(x)}")
            rec.check(got[0] != "panic", f"{f.__name__}|{p.name}|panic", lambda: short(got[1]))


def default_cases(tier):
    return [[i, n, salt, nulls] for i in range(len(record())) for n in ((3, 9, 40, 600) if tier == "quick" else (1, 2, 3, 4, 5, 7, 9, 12, 16, 24, 40, 90, 600, 1500)) for salt in ((1,) if tier == "quick" else (1, 2, 3)) for nulls in KINDS]


def default_run(case, rec):
    """Each documented default, and all of them, left out or given."""
    i, n, salt, nulls = case
    if not CALLS:
        CALLS.extend(record())
    it, f, args, kw = CALLS[i]
    docs = DEFAULTS.get(f.__name__)
    if not docs or n < it.min_n or (it.seed and "seed" not in kw):
        return
    names = [p.name for p in inspect.signature(f).parameters.values() if p.kind is p.POSITIONAL_OR_KEYWORD] if not any(p.kind is p.VAR_POSITIONAL for p in inspect.signature(f).parameters.values()) else []
    given = dict(zip(names, args))
    pos, kw = ([], {**given, **kw}) if names else (args, kw)
    df = KINDS[nulls](catalog.frame(n, salt))
    for which in [[p] for p in docs] + [list(docs)]:
        rest = {k: v for k, v in kw.items() if k not in which}
        rec.state()
        rec.trans(2)
        got, want = outcome_of(lambda: df.select(f(*pos, **rest)).to_series()), outcome_of(lambda: df.select(f(*pos, **{**rest, **{p: docs[p] for p in which}})).to_series())
        rec.outcome((got[0], want[0]))
        key = f"{f.__name__}|{which[0] if len(which) == 1 else 'all'}"
        if not rec.check(got[0] == want[0] != "panic", f"{key}|outcome", lambda: f"{n} rows {nulls}: {short(got[1])} want {short(want[1])}") or got[0] != "ok":
            continue
        g, w = got[1].to_list(), want[1].to_list()
        if it.unordered:
            g, w = sorted(g, key=repr), sorted(w, key=repr)
        rec.check(equal(g, w, 1e-9, 1e-12) and got[1].dtype == want[1].dtype and got[1].name == want[1].name, f"{key}|values", lambda: f"{n} rows {nulls}: {short(g)} want {short(w)}")


RANKS = sorted(catalog.frame(60, 1)["s"].unique().drop_nulls())[:4]


def objects():
    """label -> (call with keywords on a frame, its documented defaults); the values are frames, lists, numbers or expressions' results."""
    from polars_ds import linear_models as lm, spatial
    from polars_ds.eda.diagnosis import DIA
    from polars_ds.modeling import transforms as T
    from polars_ds.modeling.pipeline import Blueprint
    from polars_ds.partition.partition import PartitionHelper
    from polars_ds.sample_and_split import sample_and_split as ss

    X = lambda df: df.select("x", "y", "z").to_numpy()
    Y = lambda df: df.select("p").to_numpy()
    lr = lambda m: [m.coeffs().tolist(), m.bias()]

    def fit(cls, **more):
        return lambda df, **k: lr(cls(**more, **k).fit(X(df), Y(df)))

    def fit_df(cls, **more):
        def go(df, **k):
            m = cls(**more)
            m.fit_df(df.with_columns(pl.when(pl.int_range(pl.len()) % 4 != 2).then("x").alias("x")), ["x", "y"], "p", **k)
            return lr(m)
        return go

    def fit_nan(cls, **more):
        def go(df, **k):
            x = X(df)
            x[1, 0] = NAN
            return lr(cls(**more).fit(x, Y(df), **k))
        return go

    def predict_df(cls, **more):
        def go(df, **k):
            m = cls(**more)
            m.fit_df(df, ["x", "y"], "p")
            return m.predict_df(df, **k).collect() if isinstance(m.predict_df(df, **k), pl.LazyFrame) else m.predict_df(df, **k)
        return go

    def online(df, **k):
        m = lm.OnlineLR(has_bias=True)
        m.fit(X(df)[:-1], Y(df)[:-1])
        m.update(X(df)[-1], Y(df)[-1], **k)
        return lr(m)

    def online_init(df, **k):
        m = lm.OnlineLR(**k)
        m.fit(X(df), Y(df))
        return lr(m)

    def step(name, *a, **more):
        def go(df, **k):
            d = df.with_columns(pl.when(pl.int_range(pl.len()) % 5 != 1).then("x").alias("x"))
            return getattr(Blueprint(d, target="t"), name)(*a, **more, **k).materialize().transform(d)
        return go

    def exprs(f, *a, **more):
        def go(df, **k):
            d = df.with_columns(pl.when(pl.int_range(pl.len()) % 5 != 1).then("x").alias("x"))
            return d.select(f(d, *a, **more, **k))
        return go

    def blue(df, **k):
        d = df.select(pl.col("x", "t").name.to_uppercase(), pl.col("y").alias("Yy"))
        q = Blueprint(d, **k).scale(["X", "Yy"] if not (k.get("lowercase") or k.get("uppercase")) else pl.all()).materialize()
        return [q.feature_names_in_, q.feature_names_out_, q.transform(d).to_dict(as_series=False)]

    def transform(df, **k):
        q = Blueprint(df, target="t").scale(["x", "y"]).materialize()
        r = q.transform(df, **k)
        return [r.collect()] if isinstance(r, pl.LazyFrame) else r

    def dia(name, *a, cols=None, **more):
        def go(df, **k):
            d = df.select(cols) if cols else df
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = getattr(DIA(d), name)(*a, **more, **k)
            return sorted(r) if isinstance(r, list) else r.collect() if isinstance(r, pl.LazyFrame) else r
        return go

    near = lambda df: df.select("x", "y").to_numpy().copy()
    nul = [pl.when(pl.int_range(pl.len()) % 4 != 2).then(c).alias(c) for c in ("x", "s", "i")] + [pl.when(pl.int_range(pl.len()) % 4 == 2).then("y").alias("y")]
    two = [(pl.col("i") % 2).alias("u"), pl.when(pl.int_range(pl.len()) % 3 != 0).then(pl.col("i") % 2).alias("v"), pl.lit(1).alias("one"), pl.when(pl.int_range(pl.len()) % 3 != 0).then(1).alias("w"), pl.when(pl.int_range(pl.len()) % 3 != 0).then(pl.col("i") % 3).alias("k")]
    return {
        "LR": (fit(lm.LR), {"has_bias": False, "lambda_": 0.0, "solver": "qr"}),
        "LR ridge": (fit(lm.LR, lambda_=0.5), {"has_bias": False, "solver": "qr"}),
        "LR.from_values": (lambda df, **k: [lr(m := lm.LR.from_values([1.0, -2.0, 0.5], **k)), m.predict(X(df)).tolist()], {"bias": 0.0}),
        "LR.fit": (fit_nan(lm.LR, has_bias=True), {"null_policy": "ignore"}),
        "LR.fit_df": (fit_df(lm.LR, has_bias=True), {"null_policy": "skip", "show_report": False}),
        "LR.predict_df": (predict_df(lm.LR, has_bias=True), {"name": "prediction"}),
        "ElasticNet": (fit(lm.ElasticNet, l1_reg=0.1, l2_reg=0.1), {"has_bias": False, "tol": 1e-5, "max_iter": 2000}),
        "ElasticNet.from_values": (lambda df, **k: [lr(m := lm.ElasticNet.from_values([1.0, -2.0, 0.5], **k)), m.predict(X(df)).tolist()], {"bias": 0.0}),
        "ElasticNet.fit": (fit_nan(lm.ElasticNet, l1_reg=0.1, l2_reg=0.1, has_bias=True), {"null_policy": "ignore"}),
        "ElasticNet.fit_df": (fit_df(lm.ElasticNet, l1_reg=0.1, l2_reg=0.1, has_bias=True), {"null_policy": "skip"}),
        "ElasticNet.predict_df": (predict_df(lm.ElasticNet, l1_reg=0.1, l2_reg=0.1), {"name": "prediction"}),
        "OnlineLR": (online_init, {"lambda_": 0.0, "has_bias": False}),
        "OnlineLR.update": (online, {"c": 1.0}),
        "Blueprint": (blue, {"target": None, "exclude": None, "lowercase": False, "uppercase": False}),
        "cast_bools": (step("cast_bools"), {"to": pl.UInt8}),
        "impute": (step("impute", ["x"]), {"method": "mean"}),
        "conditional_impute": (step("conditional_impute", {"x": pl.col("y") > 10}), {"method": "mean"}),
        "int_to_float": (step("int_to_float"), {"f32": True}),
        "linear_impute": (step("linear_impute", ["y", "z"], target="x"), {"add_bias": False}),
        "linear_impute target": (step("linear_impute", ["y", "z"]), {"target": None, "add_bias": False}),
        "scale": (step("scale", ["x", "y"]), {"method": "standard"}),
        "polynomial_features": (step("polynomial_features", ["y", "z"], degree=2), {"interaction_only": True}),
        "winsorize": (step("winsorize", ["x", "y"]), {"q_low": 0.05, "q_high": 0.95, "method": "nearest"}),
        "winsorize high": (step("winsorize", ["x", "y"], q_high=0.7), {"q_low": 0.05, "method": "nearest"}),
        "one_hot_encode": (step("one_hot_encode", ["s"]), {"separator": "_", "drop_first": False, "drop_cols": True}),
        "rank_hot_encode": (step("rank_hot_encode", "s", RANKS), {"drop_cols": True}),
        "target_encode": (step("target_encode", ["s"]), {"target": None, "min_samples_leaf": 20, "smoothing": 10.0, "default": None}),
        "woe_encode": (step("woe_encode", ["s"]), {"target": None, "default": None}),
        "iv_encode": (step("iv_encode", ["s"]), {"target": None, "default": None}),
        "append_expr": (step("append_expr", (pl.col("x") * 2).alias("new")), {"is_select": False}),
        "transform": (transform, {"return_lazy": False, "separate": False}),
        "T.impute": (exprs(T.impute, ["x"]), {"method": "mean"}),
        "T.scale": (exprs(T.scale, ["x", "y"]), {"method": "standard"}),
        "T.robust_scale": (exprs(T.robust_scale, ["x", "y"]), {"q_low": 0.25, "q_high": 0.75, "method": "midpoint"}),
        "T.winsorize": (exprs(T.winsorize, ["x", "y"]), {"q_low": 0.05, "q_high": 0.95, "method": "nearest"}),
        "T.linear_impute": (exprs(T.linear_impute, ["y", "z"], "x"), {"add_bias": False}),
        "T.one_hot_encode": (exprs(T.one_hot_encode, ["s"]), {"separator": "_", "drop_first": False}),
        "T.target_encode": (exprs(T.target_encode, ["s"], "t"), {"min_samples_leaf": 20, "smoothing": 10.0, "default": "null"}),
        "T.woe_encode": (exprs(T.woe_encode, ["s"], "t"), {"default": "null"}),
        "T.iv_encode": (exprs(T.iv_encode, ["s"], "t"), {"default": "null"}),
        "T.polynomial_features": (lambda df, **k: df.select(T.polynomial_features(["x", "y"], 2, **k)), {"interaction_only": False}),
        "numeric_profile": (lambda df, **k: dia("numeric_profile", gt=False)(df.select("x", "i", far=pl.col("y") * (1 + pl.int_range(pl.len()) % 7) ** 2), **k), {"n_bins": 20, "iqr_multiplier": 1.5}),
        "row_validation": (dia("row_validation", (pl.col("x") > 5, "low"), (pl.col("y") > 17, "less")), {"id_col": None, "columns_to_keep": None, "all_reasons": False}),
        "null_corr": (lambda df, **k: dia("null_corr")(df.select(nul), **k), {"subset": pl.all(), "filter_by": None}),
        "dia corr": (dia("corr", ["x", "y", "z"], cols=["x", "y", "z"]), {"method": "pearson"}),
        "infer_high_null": (lambda df, **k: dia("infer_high_null")(df.select(nul), **k), {"threshold": 0.75}),
        "infer_discrete": (lambda df, **k: [dia("infer_discrete")(pl.select(pl.int_range(n).alias("i")).select((pl.col("i") % q).alias(f"q{q}") for q in range(15, n, 5)), **k) for n in (50, 300, 1300, 2000)], {"threshold": 0.1, "max_val_cnt": 100}),
        "infer_const": (lambda df, **k: dia("infer_const")(df.select(two), **k), {"include_null": False}),
        "infer_binary": (lambda df, **k: dia("infer_binary")(df.select(two), **k), {"include_null": False}),
        "infer_k_distinct": (lambda df, **k: dia("infer_k_distinct", 2)(df.select(two), **k), {"include_null": False}),
        "infer_corr": (dia("infer_corr", cols=["x", "y", "z"]), {"method": "pearson"}),
        "infer_dependency": (lambda df, **k: dia("infer_dependency", cols=["s", "g", "i"])(df, **k).sort("column", "by"), {"subset": pl.all()}),
        "partitions": (lambda df, **k: PartitionHelper(df.with_columns(pl.col("g").cast(pl.String)), ["g", "s"], **k).names(), {"separator": "|", "whole_df_name": "df"}),
        "partitions whole": (lambda df, **k: PartitionHelper(df, None, **k).names(), {"separator": "|", "whole_df_name": "df"}),
        "partitions head": (lambda df, **k: list(PartitionHelper(df.with_columns(pl.col("g").cast(pl.String)), "g").head(**k).items()), {"n": 5}),
        "volume_neutral": (lambda df, **k: ss.volume_neutral(df, pl.col("g"), seed=4, **k).sort("x", "y"), {"control": None, "target_volume": None}),
        "random_cols": (lambda df, **k: ss.random_cols(df.columns, 3, seed=4, **k), {"keep": None}),
        "KDTree": (lambda df, **k: [q.tolist() for q in spatial.KDTree(near(df), **k).knn(near(df), k=3)], {"distance": "sql2"}),
        "KDTree.knn": (lambda df, **k: [q.tolist() for q in spatial.KDTree(near(df)).knn(near(df), k=3, **k)], {"epsilon": 0.0, "max_dist_bound": 9999.0, "parallel": False}),
        "KDTree.knn far": (lambda df, **k: [q.tolist() for q in spatial.KDTree(near(df) * 40).knn(near(df) * 40 + 200, k=3, **k)], {"epsilon": 0.0, "max_dist_bound": 9999.0, "parallel": False}),
        "KDTree.within": (lambda df, **k: repr(spatial.KDTree(near(df)).within(near(df), 20.0, **k)), {"sort": False, "return_dist": False, "parallel": False}),
        "KDTree.within_count": (lambda df, **k: spatial.KDTree(near(df)).within_count(near(df), 20.0, **k).tolist(), {"parallel": False}),
    }


def plain(v):
    """What a frame, array, dict of frames or list holds."""
    if isinstance(v, (pl.DataFrame, pl.Series)):
        return [v.to_dict(as_series=False), [str(t) for t in v.dtypes]] if isinstance(v, pl.DataFrame) else v.to_list()
    if isinstance(v, pl.LazyFrame):
        return ["lazy", plain(v.collect())]
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return [plain(x) for x in v] if isinstance(v, (list, tuple)) else v


OBJECTS = {}


def object_cases(tier):
    return [[name, n, salt] for name in objects() for n in ((12, 60, 300) if tier == "quick" else (5, 8, 12, 25, 60, 300, 1500)) for salt in ((1,) if tier == "quick" else (1, 2, 3))]


def object_run(case, rec):
    name, n, salt = case
    if not OBJECTS:
        OBJECTS.update(objects())
    call, docs = OBJECTS[name]
    df = catalog.frame(n, salt).with_columns((pl.col("x") > pl.col("y")).cast(pl.Int8).alias("t"))
    base = outcome_of(lambda: plain(call(df)))
    rec.outcome(base[0])
    rec.check(base[0] != "panic", f"{name}|panic", lambda: short(base[1]))
    for which in [[p] for p in docs] + [list(docs)]:
        rec.state()
        rec.trans()
        got = outcome_of(lambda: plain(call(df, **{p: docs[p] for p in which})))
        key = f"{name}|{which[0] if len(which) == 1 else 'all'}"
        if rec.check(got[0] == base[0], f"{key}|outcome", lambda: f"{n} rows: {short(got[1])} want {short(base[1])}") and got[0] == "ok":
            rec.check(equal(got[1], base[1], 1e-9, 1e-12), f"{key}|values", lambda: f"{n} rows, with the default given: {short(got[1])}, left out: {short(base[1])}")


FAMILIES = [
    Family("calls", cases, run, "every first call of the catalogue (%d) on frames of 3, 7, 24, 600 rows (thorough: 14 sizes to 1500), plain, with nulls, and with infinities and NaN too: every column argument, alone and all together, by name, as an expression that is bare, aliased, conditional, reversed twice, sorted by row, appended from parts, filtered or shifted by 0, and where values are accepted as Series (also in chunks, renamed), list, tuple, iterator, numpy array (also strided, reversed, read-only); every number as a numpy float, an integer or float, a literal; every default given; everything by keyword; everything by position" % len(record())),
    Family("literals", cases, lit_run, "the calls of functions that give one value per row of its arguments: a literal for each column argument, with the values of up to 4 rows, against a column that is constant (the call may be refused)"),
    Family("formulas", sql_cases, sql_run, "the 6 linear functions x 9 x 8 SQL formulas for a feature and the target x 3 for the weights x bias, 2 lengths (thorough: 5), against the same formulas as expressions"),
    Family("defaults", default_cases, default_run, "every first call of the catalogue: each argument with a documented default (250 in all) left out and given as documented, one at a time and all, on frames of 3, 9, 40, 600 rows (thorough: 14 sizes), plain, with nulls, with infinities and NaN"),
    Family("defaults of objects", object_cases, object_run, "%d calls of the classes and helpers (models, Blueprint steps, transforms, DIA reports, partitions, samplers, KDTree): the same, on frames of 12, 60, 300 rows (thorough: 7 sizes, 3 fillings)" % len(objects())),
]
