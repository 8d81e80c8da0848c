"""A reference model of the modelling pipeline: every Blueprint step as plain Python.

A frame is a dict  name -> (tag, values)  with tag in i (Int64), f (Float64), g (Float32), s, b, u (UInt8),
k (Int8).  A step is a Step(name, method, args, kwargs, fit): `fit(frame, exclude)` learns from the
training frame and returns `apply(frame) -> frame`.  Where the documentation does not say what happens
(the mean of a column without values, the minimum of NaNs, ...), the model raises Unclaimed.
"""
import math
from dataclasses import dataclass, field
from typing import Any, Callable

import polars as pl
import polars.selectors as cs

from .props.p23 import enc_ref, woe_ref

TAGS = {"i": pl.Int64, "f": pl.Float64, "g": pl.Float32, "s": pl.String, "b": pl.Boolean, "u": pl.UInt8, "k": pl.Int8}
NAMES = {v: k for k, v in TAGS.items()}


class Unclaimed(Exception):
    pass


class Missing(Exception):
    """A column the step names is not there: the pipeline has to refuse."""


def frame(cols):
    return pl.DataFrame({n: pl.Series(n, v, dtype=TAGS[t]) for n, (t, v) in cols.items()})


def same_frame(got: pl.DataFrame, want, tol=1e-9):
    """None if they agree, else what differs."""
    if got.columns != list(want):
        return f"columns {got.columns} want {list(want)}"
    f32 = any(t == "g" for t, _ in want.values()) or any(d == pl.Float32 for d in got.dtypes)
    for n, (t, v) in want.items():
        g = got[n]
        kind = NAMES.get(g.dtype)
        if (t in "fg") != (kind in ("f", "g")) or (t not in "fg" and kind != t):
            return f"column {n}: dtype {g.dtype} want {t}"
        gv = g.to_list()
        if len(gv) != len(v):
            return f"column {n}: {len(gv)} rows want {len(v)}"
        for a, b in zip(gv, v):
            if (a is None) != (b is None):
                return f"column {n}: {gv} want {v}"
            if a is None:
                continue
            if isinstance(b, float):
                ok = (math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= (2e-4 if f32 else tol) * max(1.0, abs(b))
            else:
                ok = a == b
            if not ok:
                return f"column {n}: {gv} want {v}"
    return None


def select(sel, fr):
    """The column names a selection (str, list of str, or ('cs', kind)) stands for."""
    if isinstance(sel, tuple):
        kind = {"numeric": "ifguk", "string": "s", "float": "fg", "integer": "iuk", "boolean": "b"}[sel[1]]
        return [n for n, (t, _) in fr.items() if t in kind]
    names = [sel] if isinstance(sel, str) else list(sel)
    for n in names:
        if n not in fr:
            raise Missing(n)
    return names


def to_polars(sel):
    if isinstance(sel, tuple):
        return getattr(cs, sel[1])()
    return sel


def known(v):
    return [x for x in v if x is not None]


def num(fr, c):
    if c not in fr:
        raise Missing(c)
    t, v = fr[c]
    if t not in "ifguk":
        raise Unclaimed
    return v


def clean(fr, c):
    v = known(num(fr, c))
    if not v or any(math.isnan(x) or math.isinf(x) for x in v):
        raise Unclaimed
    return v


def mean(v):
    return math.fsum(v) / len(v)


def median(v):
    s = sorted(v)
    k = len(s) // 2
    return float(s[k]) if len(s) % 2 else (s[k - 1] + s[k]) / 2


def mode(v):
    c = {x: v.count(x) for x in v}
    top = max(c.values())
    best = [x for x in c if c[x] == top]
    if len(best) > 1:
        raise Unclaimed  # any of them
    return best[0]


def std0(v):
    m = mean(v)
    return math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v))


def quantile(v, q, how):
    s = sorted(v)
    p = (len(s) - 1) * q
    lo, hi = math.floor(p), math.ceil(p)
    if how == "lower":
        return float(s[lo])
    if how == "higher":
        return float(s[hi])
    if how == "midpoint":
        return (s[lo] + s[hi]) / 2
    if how == "linear":
        return s[lo] + (p - lo) * (s[hi] - s[lo])
    if abs(p - lo - 0.5) < 1e-9:
        raise Unclaimed  # either neighbour is nearest
    return float(s[round(p)])


def div(a, b):
    if a is None:
        return None
    if b == 0:
        return math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, a)
    return a / b


def ftag(t):
    return "g" if t == "g" else "f"


def with_cols(fr, new):
    out = dict(fr)
    out.update(new)
    return out


def per_column(cols, fn):
    def apply(fr):
        for c in cols:
            if c not in fr:
                raise Missing(c)
        return with_cols(fr, {c: fn(c, *fr[c]) for c in cols})

    return apply


@dataclass
class Step:
    name: str
    method: str
    args: list
    fit: Callable
    kwargs: dict = field(default_factory=dict)
    plain: bool = True  # the arguments can be written in a JSON dictionary


def chosen(sel, fr, exclude):
    cols = [c for c in select(sel, fr) if c not in exclude]
    if not cols:
        raise Unclaimed
    return cols


LEARN = {"mean": mean, "median": median, "mode": mode}


def impute(sel, method):
    def fit(fr, ex):
        cols = chosen(sel, fr, ex)
        if method != "mode" or any(fr[c][0] in "ifguk" for c in cols):
            m = {c: LEARN[method](clean(fr, c)) for c in cols}
        else:
            m = {c: mode(known(fr[c][1])) if known(fr[c][1]) else None for c in cols}
            if None in m.values():
                raise Unclaimed
        def fill(c, t, v):
            if method != "mode" and t in "iuk":
                return "f", [float(m[c] if x is None else x) for x in v]
            return t, [m[c] if x is None else x for x in v]
        return per_column(cols, fill)

    return Step(f"impute({sel},{method})", "impute", [to_polars(sel), method], fit, plain=not isinstance(sel, tuple))


def cond_impute(rules, method):
    """rules: column -> (SQL text, python condition on that row value giving True/False/None)."""
    def fit(fr, ex):
        learned = {}
        for c, (_, f) in rules.items():
            v = num(fr, c)
            sample = [x for x in v if x is not None and f(x) is False]
            if not sample or any(math.isnan(x) for x in sample):
                raise Unclaimed
            learned[c] = LEARN[method](sample)
        def fill(c, t, v):
            f = rules[c][1]
            isf = not (method == "mode" and t in "iuk")
            out = [learned[c] if f(x) is True else x for x in v]
            return (ftag(t) if isf else t), [float(x) if isf and x is not None else x for x in out]
        return per_column(list(rules), fill)

    return Step(f"conditional_impute({list(rules)},{method})", "conditional_impute", [{c: r[0] for c, r in rules.items()}, method], fit)


def gt(k):
    return lambda x: None if x is None else (x > k or x != x)  # NaN is the largest value


def center(sel):
    def fit(fr, ex):
        cols = chosen(sel, fr, ex)
        m = {c: mean(clean(fr, c)) for c in cols}
        return per_column(cols, lambda c, t, v: (ftag(t), [None if x is None else x - m[c] for x in v]))

    return Step(f"center({sel})", "center", [to_polars(sel)], fit, plain=not isinstance(sel, tuple))


def scale(sel, method):
    def fit(fr, ex):
        cols = chosen(sel, fr, ex)
        d = {c: clean(fr, c) for c in cols}
        if method == "standard":
            m = {c: (mean(v), std0(v)) for c, v in d.items()}
        elif method == "min_max":
            m = {c: (min(v), max(v) - min(v)) for c, v in d.items()}
        else:
            m = {c: (0, max(abs(min(v)), abs(max(v)))) for c, v in d.items()}
        if any(0 < abs(w) < 1e-9 for _, w in m.values()):
            raise Unclaimed  # rounding decides
        return per_column(cols, lambda c, t, v: (ftag(t), [None if x is None else div(float(x - m[c][0]), m[c][1]) for x in v]))

    return Step(f"scale({sel},{method})", "scale", [to_polars(sel), method], fit, plain=not isinstance(sel, tuple))


def robust(sel, lo, hi):
    def fit(fr, ex):
        cols = chosen(sel, fr, ex)
        m = {}
        for c in cols:
            v = clean(fr, c)
            a, b = quantile(v, lo, "midpoint"), quantile(v, hi, "midpoint")
            if 0 < abs(b - a) < 1e-9:
                raise Unclaimed
            m[c] = (a, b - a)
        return per_column(cols, lambda c, t, v: (ftag(t), [None if x is None else div(float(x - m[c][0]), m[c][1]) for x in v]))

    return Step(f"robust_scale({sel},{lo},{hi})", "robust_scale", [to_polars(sel), lo, hi], fit, plain=not isinstance(sel, tuple))


def winsorize(sel, lo, hi, how):
    def fit(fr, ex):
        cols = chosen(sel, fr, ex)
        m = {c: (quantile(clean(fr, c), lo, how), quantile(clean(fr, c), hi, how)) for c in cols}
        if any(fr[c][0] in "iuk" and (how == "linear" or any(x != int(x) for x in m[c])) for c in cols):
            raise Unclaimed  # what an integer column is clipped to then
        def clip(c, t, v):
            w = [x if x is None or math.isnan(x) else min(max(x, m[c][0]), m[c][1]) for x in v]
            return t, [x if x is None or t in "fg" else int(x) for x in w]
        return per_column(cols, clip)

    return Step(f"winsorize({sel},{lo},{hi},{how})", "winsorize", [to_polars(sel), lo, hi, how], fit, plain=not isinstance(sel, tuple))


def drop(sel):
    def fit(fr, ex):
        gone = set(n for n in ([sel] if isinstance(sel, str) else sel)) if not isinstance(sel, tuple) else set(select(sel, fr))
        def apply(f):
            g = gone if not isinstance(sel, tuple) else set(select(sel, f))
            out = {n: c for n, c in f.items() if n not in g}
            if not out:
                raise Unclaimed
            return out
        return apply

    return Step(f"drop({sel})", "drop", [to_polars(sel)], fit, plain=not isinstance(sel, tuple))


def sel_step(sel):
    def fit(fr, ex):
        def apply(f):
            names = select(sel, f)
            if not names:
                raise Unclaimed
            return {n: f[n] for n in names}
        return apply

    return Step(f"select({sel})", "select", [to_polars(sel)], fit, plain=not isinstance(sel, tuple))


def rename(d):
    def fit(fr, ex):
        def apply(f):
            for k in d:
                if k not in f:
                    raise Missing(k)
            # the renamed columns take the place of columns of that name, else stand at the end
            out = dict(f)
            out.update({v: f[k] for k, v in d.items()})
            return {n: c for n, c in out.items() if n not in d or n in d.values()}
        return apply

    return Step(f"rename({d})", "rename", [d], fit)


def one_hot(sel, sep="_", drop_first=False, drop_cols=True):
    def fit(fr, ex):
        names = [c for c in select(sel, fr) if c not in ex]
        cats = {c: sorted(set(known(fr[c][1]))) for c in names if fr[c][0] == "s"}
        cats = {c: k[int(drop_first):] for c, k in cats.items() if len(k) > 1}
        if not cats:
            raise Unclaimed
        def apply(f):
            out = dict(f)
            for c, ks in cats.items():
                if c not in f:
                    raise Missing(c)
                for k in ks:
                    out[c + sep + k] = ("u", [int(x == k) for x in f[c][1]])
            if drop_cols:
                gone = set(select(sel, out)) if isinstance(sel, tuple) else ({sel} if isinstance(sel, str) else set(sel))
                out = {n: v for n, v in out.items() if n not in gone}
            return out
        return apply

    return Step(f"one_hot_encode({sel},{sep},{drop_first},{drop_cols})", "one_hot_encode", [to_polars(sel)], fit, {"separator": sep, "drop_first": drop_first, "drop_cols": drop_cols}, plain=not isinstance(sel, tuple))


def rank_hot(col, ranking, drop_cols=True):
    def fit(fr, ex):
        def apply(f):
            if col not in f:
                raise Missing(col)
            t, v = f[col]
            if t != "s":
                raise Unclaimed
            new = {f"{col}>={c}": ("k", [-1 if x not in ranking else int(ranking.index(x) >= i + 1) for x in v]) for i, c in enumerate(ranking[1:])}
            out = with_cols(f, new)
            if drop_cols:
                out.pop(col)
            return out
        return apply

    return Step(f"rank_hot_encode({col},{ranking},{drop_cols})", "rank_hot_encode", [col, ranking], fit, {"drop_cols": drop_cols})


def encoder(kind, sel, target="y", default=None, **kw):
    def fit(fr, ex):
        if target not in fr:
            raise Missing(target)
        names = [c for c in select(sel, fr) if c not in ex and fr[c][0] == "s"]
        t, y = fr[target]
        if not names or t not in "iuf" or set(y) != {0, 1}:
            raise Unclaimed
        d = {None: None, "null": None, "zero": 0.0, "mean": mean(known(y))}.get(default, default)
        m = {}
        for c in names:
            v = fr[c][1]
            if not known(v):
                raise Unclaimed
            if kind == "target_encode":
                tab = enc_ref(v, y, kw.get("min_samples_leaf", 20), kw.get("smoothing", 10.0))
            else:
                tab = {a: b[kind == "iv_encode"] for a, b in woe_ref(v, y).items()}
            m[c] = {a: b for a, b in tab.items() if a is not None}
        def enc(c, t, v):
            if t != "s":
                raise Unclaimed
            return "f", [m[c].get(x, d) for x in v]
        return per_column(names, enc)

    return Step(f"{kind}({sel},{default},{kw})", kind, [to_polars(sel)], fit, {"target": target if target != "y" else None, "default": default, **kw}, plain=not isinstance(sel, tuple))


def poly(cols, degree, interaction_only):
    from itertools import combinations_with_replacement

    def fit(fr, ex):
        def apply(f):
            new = {}
            for comb in combinations_with_replacement(cols, degree):
                if interaction_only and len(set(comb)) == 1:
                    continue
                vs = [num(f, c) for c in comb]
                ts = {f[c][0] for c in comb}
                if ts & {"u", "k"} or ("g" in ts and ts != {"g"}):
                    raise Unclaimed
                out = []
                for row in zip(*vs):
                    out.append(None if None in row else math.prod(row))
                t = "g" if ts == {"g"} else ("f" if "f" in ts else "i")
                new["*".join(comb)] = (t, [float(x) if x is not None and t != "i" else x for x in out])
            if not new:
                raise Unclaimed
            return with_cols(f, new)
        return apply

    return Step(f"polynomial_features({cols},{degree},{interaction_only})", "polynomial_features", [cols, degree, interaction_only], fit)


def row_filter(sql, fn, col):
    def fit(fr, ex):
        def apply(f):
            if col not in f:
                raise Missing(col)
            if f[col][0] == "s" or any(x is not None and math.isnan(x) for x in f[col][1]):
                raise Unclaimed
            keep = [fn(x) is True for x in f[col][1]]
            return {n: (t, [x for x, k in zip(v, keep) if k]) for n, (t, v) in f.items()}
        return apply

    return Step(f"filter({sql})", "filter", [sql], fit)


def mapped(name, method, args, want_tags, fn, kwargs={}):
    """A step mapping every column of some dtypes."""
    def fit(fr, ex):
        def apply(f):
            hit = {n: fn(t, v) for n, (t, v) in f.items() if t in want_tags}
            return with_cols(f, hit)
        return apply

    return Step(name, method, args, fit, kwargs, plain=False)


def sql_step():
    def fit(fr, ex):
        def apply(f):
            v = num(f, "a")
            if f["a"][0] in "uk" or "a1" in f:
                raise Unclaimed
            return with_cols(f, {"a1": (f["a"][0], [None if x is None else x + 1 for x in v])})
        return apply

    return Step("sql_transform", "sql_transform", ["select *, a + 1 as a1 from df"], fit)


def append(is_select):
    def fit(fr, ex):
        def apply(f):
            v = num(f, "a")
            if f["a"][0] in "uk":
                raise Unclaimed
            new = {"a2": (f["a"][0], [None if x is None else x * 2 for x in v])}
            if is_select:
                if "y" not in f:
                    raise Missing("y")
                return {**new, "y": f["y"]}
            return with_cols(f, new)
        return apply

    e = [(pl.col("a") * 2).alias("a2")] + ([pl.col("y")] if is_select else [])
    return Step(f"append_expr({is_select})", "append_expr", e, fit, {"is_select": is_select}, plain=False)


def half_range(df, cols, target):
    """A custom fitted transform: subtract half of (max - min), add the mean of the target."""
    e = df.lazy().select(*[(pl.col(c).max() - pl.col(c).min()) / 2 for c in cols], pl.col(target).mean().alias("__t")).collect().row(0)
    return [pl.col(c) - m + e[-1] for c, m in zip(cols, e)]


def custom(sel):
    def fit(fr, ex):
        cols = chosen(sel, fr, ex)
        d = {c: clean(fr, c) for c in cols}
        y = mean(clean(fr, "y"))
        m = {c: (max(v) - min(v)) / 2 for c, v in d.items()}
        return per_column(cols, lambda c, t, v: (ftag(t), [None if x is None else x - m[c] + y for x in v]))

    return Step(f"append_fit_func({sel})", "append_fit_func", [half_range, to_polars(sel)], fit, plain=False)


def linear_impute(features, target, add_bias):
    import numpy as np

    def fit(fr, ex):
        cols = chosen(features, fr, ex)
        X = [num(fr, c) for c in cols]
        y = num(fr, target)
        rows = [(list(r), t) for *r, t in zip(*X, y) if None not in r and t is not None]
        if any(not math.isfinite(x) for r, t in rows for x in [*r, t]) or target in cols:
            raise Unclaimed
        A = np.array([r + [1.0] * add_bias for r, _ in rows], dtype=float)
        k = len(cols) + add_bias
        if len(rows) <= k or np.linalg.matrix_rank(A) < k or np.linalg.cond(A) > 1e5:
            raise Unclaimed
        b = np.linalg.lstsq(A, np.array([t for _, t in rows], dtype=float), rcond=None)[0].tolist()
        def apply(f):
            fx = [num(f, c) for c in cols]
            t, v = f[target] if target in f else (None, None)
            if t is None:
                raise Missing(target)
            out = []
            for i, x in enumerate(v):
                if x is not None:
                    out.append(float(x))
                    continue
                r = [w[i] for w in fx]
                if None in r:
                    raise Unclaimed
                out.append(sum(a * c for a, c in zip(r, b)) + (b[-1] if add_bias else 0.0))
            return with_cols(f, {target: (("f" if t != "g" else "g"), out)})
        return apply

    return Step(f"linear_impute({features},{target},{add_bias})", "linear_impute", [features, target, add_bias], fit)


def f32(v):
    import struct

    return [None if x is None else struct.unpack("f", struct.pack("f", x))[0] for x in v]


def all_steps():
    A, B, S, C = "a", "b", "s", "c"
    st = [
        impute([A, B], "mean"), impute(B, "median"), impute([S], "mode"), impute(("cs", "numeric"), "mean"),
        cond_impute({A: ("a > 3", gt(3))}, "mean"), cond_impute({B: ("b > 2.0", gt(2.0)), A: ("a > 4", gt(4))}, "median"),
        center([A]), center(("cs", "numeric")),
        scale([B, A], "standard"), scale(A, "min_max"), scale(("cs", "float"), "abs_max"),
        robust([A, B], 0.25, 0.75), winsorize([B], 0.1, 0.9, "linear"), winsorize(("cs", "numeric"), 0.2, 0.9, "lower"),
        drop(A), drop([S, "zz"]), drop(("cs", "boolean")), sel_step([A, C, "y"]), sel_step(("cs", "numeric")),
        rename({A: "a9"}), rename({A: B, B: A}),
        one_hot(S), one_hot(("cs", "string"), "-", True), one_hot([S, C], drop_cols=False),
        rank_hot(C, ["lo", "mid", "hi"]), rank_hot(S, ["v", "u"], False),
        encoder("target_encode", S, min_samples_leaf=2, smoothing=1.5), encoder("woe_encode", ("cs", "string"), default="mean"), encoder("iv_encode", [C], default="zero"),
        poly([A, B], 2, False), poly([A, B, "y"], 3, True),
        row_filter("a > 1", gt(1), A), row_filter("y = 1", lambda x: None if x is None else x == 1, "y"),
        mapped("cast_bools", "cast_bools", [], "b", lambda t, v: ("u", [None if x is None else int(x) for x in v])),
        mapped("nan_to_null", "nan_to_null", [], "fg", lambda t, v: (t, [None if x is None or math.isnan(x) else x for x in v])),
        mapped("int_to_float32", "int_to_float", [], "iuk", lambda t, v: ("g", f32([None if x is None else float(x) for x in v]))),
        mapped("int_to_float64", "int_to_float", [False], "iuk", lambda t, v: ("f", [None if x is None else float(x) for x in v])),
        sql_step(), append(False), append(True), custom([A, B]), linear_impute([A], B, True), linear_impute(["y", A], B, False),
    ]
    assert len({s.name for s in st}) == len(st)
    return st


def build(blueprint, steps, how="method"):
    for s in steps:
        if how == "dict" and s.plain:
            blueprint = blueprint.append_step_from_dict({"name": s.method, "args": list(s.args), "kwargs": dict(s.kwargs)})
        else:
            blueprint = getattr(blueprint, s.method)(*s.args, **s.kwargs)
    return blueprint


def learn(train, steps, exclude):
    """(apply functions, names out): the model of materialize()."""
    cur, fits = train, []
    for s in steps:
        ap = s.fit(cur, exclude)
        fits.append(ap)
        cur = ap(cur)
    return fits, list(cur), cur


def run(fits, names_out, fr):
    for ap in fits:
        fr = ap(fr)
    for n in names_out:
        if n not in fr:
            raise Missing(n)
    return {n: fr[n] for n in names_out}
