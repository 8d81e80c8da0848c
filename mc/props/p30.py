"""P30: every data set transform, on every small column."""
import itertools
from itertools import product

import polars as pl
import polars.selectors as cs
from polars_ds.modeling import transforms as t
from polars_ds.modeling.pipeline import Blueprint

from .. import pipe
from ..core import Family, outcome_of
from ..pipe import Missing, Unclaimed

QS = [(0.05, 0.95), (0.25, 0.75), (0.0, 0.5), (0.3, 1.0), (0.1, 0.6)]
METHODS = ("nearest", "lower", "higher", "midpoint", "linear")
NEW = [None, 1, 7, -3, 0, 2]


def numeric_calls():
    for m in ("mean", "median", "mode"):
        yield pipe.impute(["x"], m), lambda d, m=m: t.impute(d, ["x"], m)
        yield pipe.cond_impute({"x": ("x > 1", pipe.gt(1))}, m), lambda d, m=m: t.conditional_impute(d, {"x": "x > 1"}, m)
    yield pipe.cond_impute({"x": ("x > 1", pipe.gt(1)), "z": ("z > 2", pipe.gt(2))}, "mean"), lambda d: t.conditional_impute(d, {"x": pl.col("x") > 1, "z": "z > 2"})
    yield pipe.center(["x", "z"]), lambda d: t.center(d, ["x", "z"])
    for m in ("standard", "min_max", "abs_max"):
        yield pipe.scale(["z", "x"], m), lambda d, m=m: t.scale(d, ["z", "x"], m)
    for lo, hi in QS:
        yield pipe.robust(["x"], lo, hi), lambda d, lo=lo, hi=hi: t.robust_scale(d, ["x"], lo, hi)
        for m in METHODS:
            yield pipe.winsorize(["x"], lo, hi, m), lambda d, lo=lo, hi=hi, m=m: t.winsorize(d, ["x"], lo, hi, m)


CALLS = list(numeric_calls())


def compare(rec, key, train, others, step, make, way):
    try:
        ap = step.fit(train, [])
    except Unclaimed:
        rec.outcome("unclaimed")
        return
    df = pipe.frame(train)
    exprs = outcome_of(make, df if way == "eager" else df.lazy())
    if not rec.check(exprs[0] == "ok", f"{key}|fit", lambda: f"{step.name} on {train}: {exprs[1]}"):
        return
    for fr in (train, *others):
        try:
            want = ap(fr)
        except (Unclaimed, Missing):
            continue
        rec.state()
        rec.trans()
        got = outcome_of(pipe.frame(fr).with_columns, exprs[1])
        rec.trace()
        bad = got[1] if got[0] != "ok" else pipe.same_frame(got[1], want)
        if bad:
            rec.fail(key, f"{step.name} learned on {train}, applied to {fr}: {bad}")


ALPHA = {"i": (None, 0, 1, 2, 5), "f": (None, 0.0, 0.5, 2.0, 3.25), "g": (None, 0.0, 0.5, 2.0, 4.25), "u": (None, 0, 1, 2, 200), "k": (None, 0, -128, 3, 127)}


def num_cases(tier):
    n = 4 if tier == "quick" else 5
    out = [[tag, a, b, n] for tag in "ifguk" for a in range(5) for b in range(5)]
    return out + [[tag, "long", n] for tag in "if" for n in (*range(6, 40, 3), 101, 1200)]


def num_run(case, rec):
    tag = case[0]
    conv = float if tag in "fg" else int
    new = [None if v is None else conv(v if tag != "u" else abs(v)) for v in NEW]
    fresh = {"x": (tag, new), "z": ("i", [3, None, -4, 1, 0, 2])}
    if case[1] == "long":
        cols = [[None if (i * k) % 7 == 3 else conv((i * i * k + 3 * i) % 23 - 9) for i in range(case[2])] for k in range(1, 8)]
    else:
        _, a, b, n = case
        al = ALPHA[tag]
        cols = [[al[a], al[b], *r] for m in range(n - 1) for r in product(al, repeat=m)]
        if b == 0:
            cols.append([al[a]])
    for j, x in enumerate(cols):
        z = [(i * 3 + j) % 5 - 1 for i in range(len(x))]
        train = {"x": (tag, x), "z": ("i", z)}
        for i, (step, make) in enumerate(CALLS):
            compare(rec, f"{step.method}|{tag}", train, [fresh], step, make, "lazy" if (i + j) % 2 else "eager")
    rec.outcome(case)


# ---------------------------------------------------------------- text columns
TEXT = (None, "u", "v", "uv")


def text_cases(tier):
    n = 5 if tier == "quick" else 6
    return [[a, b, n] for a in range(4) for b in range(4)]


def text_calls(rank):
    for sep in ("_", "=="):
        for first in (False, True):
            yield pipe.one_hot(["s", "c"], sep, first, False), lambda d, sep=sep, first=first: t.one_hot_encode(d, ["s", "c"], sep, first)
    yield pipe.one_hot("s", drop_cols=False), lambda d: t.one_hot_encode(d, ["s"])
    yield pipe.rank_hot("s", rank, False), lambda d: t.rank_hot_encode("s", rank)
    yield pipe.rank_hot("s", rank, False), lambda d: t.rank_hot_encode(pl.col("s"), rank)
    yield pipe.impute(["s", "c"], "mode"), lambda d: t.impute(d, ["s", "c"], "mode")
    for default in ("null", None, "zero", "mean", -7, 0.5):
        yield pipe.encoder("woe_encode", ["s", "c"], default=default), lambda d, default=default: t.woe_encode(d, ["s", "c"], "y", default)
        yield pipe.encoder("iv_encode", "s", default=default), lambda d, default=default: t.iv_encode(d, ["s", "y"], target=pl.col("y"), default=default)
    for leaf, smooth, default in ((20, 10.0, "null"), (1, 1.0, "mean"), (2, 0.5, 3)):
        yield pipe.encoder("target_encode", ["c", "s"], default=default, min_samples_leaf=leaf, smoothing=smooth), lambda d, leaf=leaf, smooth=smooth, default=default: t.target_encode(d, ["c", "s"], target="y", min_samples_leaf=leaf, smoothing=smooth, default=default)


TCALLS = list(text_calls(["v", "u", "uv"])) + list(text_calls(["u", "v"]))[5:7]


def text_run(case, rec):
    a, b, n = case
    fresh = {"s": ("s", ["u", None, "other", "uv", "v"]), "c": ("s", ["p", "u", None, "q", "r"]), "y": ("i", [0, 1, 1, 0, 0])}
    j = 0
    for m in range(n - 1):
        for r in product(TEXT, repeat=m):
            s = [TEXT[a], TEXT[b], *r]
            j += 1
            c = [("p", "q", None, "r")[(i * i + j) % 4] for i in range(len(s))]
            for y in {tuple((i + j) % 2 for i in range(len(s))), tuple(int(v == "u") for v in s), tuple(int((i * j) % 3 == 1) for i in range(len(s)))}:
                train = {"s": ("s", s), "c": ("s", c), "y": ("i", list(y))}
                for i, (step, make) in enumerate(TCALLS):
                    compare(rec, step.method, train, [fresh], step, make, "lazy" if (i + j) % 2 else "eager")
    rec.outcome(case)


# ---------------------------------------------------------------- polynomials, regression
def poly_cases(tier):
    return [[d, io, k] for d in ((2, 3) if tier == "quick" else (2, 3, 4, 5)) for io in (False, True) for k in (1, 2, 3, 4)]


def poly_run(case, rec):
    d, io, k = case
    names = ["x", "y", "z", "w"]
    for tags in product("if", repeat=k):
        for j in range(8):
            fr = {}
            for i, (nm, tg) in enumerate(zip(names, tags)):
                v = [((r * 3 + i * 2 + j) % 7) - 2 if (r + i + j) % 5 else None for r in range(5)]
                fr[nm] = (tg, [None if e is None else float(e) + 0.5 if tg == "f" else e for e in v])
            for order in (names[:k], names[:k][::-1]):
                compare(rec, f"polynomial_features", fr, [], pipe.poly(order, d, io), lambda _: t.polynomial_features(order, d, io), "eager")
    rec.outcome(case)


def lin_cases(tier):
    return [[k, bias, tag] for k in (1, 2, 3) for bias in (False, True) for tag in "if"]


def lin_run(case, rec):
    k, bias, tag = case
    names = ["x1", "x2", "x3"][:k]
    for n in range(k + 2, 14):
        for j in range(6):
            fr = {nm: ("i" if (i + j) % 2 else "f", [((r * r * (i + 2) + 5 * r * j + i) % 11) * (1 if (i + j) % 2 else 0.5) if (r * (i + 3) + j) % 9 or tag == "i" else None for r in range(n)]) for i, nm in enumerate(names)}
            fr = {nm: (tg, [v if v is None or tg == "i" else float(v) for v in vs]) for nm, (tg, vs) in fr.items()}
            y = [None if (r + j) % 4 == 1 else (r * 3 + j * r) % 8 - 2 for r in range(n)]
            fr["y"] = (tag, [v if v is None or tag == "i" else float(v) for v in y])
            fresh = {nm: (tg, [2, 0, 5] if tg == "i" else [1.5, -2.0, 0.0]) for nm, (tg, _) in fr.items()}
            fresh["y"] = (tag, [None, None, 3 if tag == "i" else 3.0])
            for target in ("y", pl.col("y")):
                compare(rec, "linear_impute", fr, [fresh], pipe.linear_impute(names, "y", bias), lambda d: t.linear_impute(d, names, target, bias), "lazy" if j % 2 else "eager")
    rec.outcome(case)


# ---------------------------------------------------------------- expressions as the choice of columns
def sel_cases(tier):
    return [["all"]]


def sel_run(case, rec):
    from .p29 import TRAIN

    df = pipe.frame(TRAIN)
    forms = lambda *names: [list(names), [pl.col(c) for c in names], cs.by_name(*names), pl.col(*names), list(names[:1]) + [pl.col(c) for c in names[1:]]] + ([names[0], pl.col(names[0])] if len(names) == 1 else [])
    steps = {
        "impute": (lambda b, c: b.impute(c), ("a", "b")), "center": (lambda b, c: b.center(c), ("a", "b")), "center one": (lambda b, c: b.center(c), ("b",)),
        "scale": (lambda b, c: b.scale(c), ("b", "a")), "robust": (lambda b, c: b.robust_scale(c, 0.2, 0.9), ("a",)), "winsorize": (lambda b, c: b.winsorize(c), ("b",)),
        "one hot": (lambda b, c: b.one_hot_encode(c, drop_cols=False), ("s", "c")), "target": (lambda b, c: b.target_encode(c, default="mean"), ("s", "c")),
        "woe": (lambda b, c: b.woe_encode(c), ("s",)), "iv": (lambda b, c: b.iv_encode(c), ("c",)), "linear": (lambda b, c: b.linear_impute(c, "b", True), ("a",)),
        "select": (lambda b, c: b.select(c), ("a", "y")), "select one": (lambda b, c: b.select(c), ("c",)),
    }
    for k, (f, names) in steps.items():
        outs = []
        for c in forms(*names):
            rec.state()
            rec.trans()
            outs.append(outcome_of(lambda: f(Blueprint(df, target="y"), c).materialize().transform(df)))
        # a selector keeps the order of the frame, which matters for the order of new columns only
        first = outs[0]
        for o, c in zip(outs, forms(*names)):
            rec.check(first[0] == o[0] == "ok" and o[1].select(sorted(o[1].columns)).equals(first[1].select(sorted(first[1].columns))), f"choice|{k}", lambda: f"{k} by {c}: {o[1]} want {first[1]}")
    for k, names in (("drop", ("a", "b")), ("drop one", ("s",))):
        want = df.drop(names)
        for c in [list(names), [pl.col(c) for c in names], cs.by_name(*names), *([names[0], pl.col(names[0])] if len(names) == 1 else [])]:
            rec.state()
            rec.trans()
            o = outcome_of(lambda: Blueprint(df).drop(c).materialize().transform(df))
            rec.check(o[0] == "ok" and o[1].equals(want), f"choice|{k}", lambda: f"{k} by {c}: {o[1]}")
    for c in ("c", pl.col("c")):
        rec.state()
        rec.trans()
        o = outcome_of(lambda: Blueprint(df).rank_hot_encode(c, ["lo", "mid", "hi"]).materialize().transform(df))
        want = pipe.rank_hot("c", ["lo", "mid", "hi"]).fit(TRAIN, [])(TRAIN)
        rec.check(o[0] == "ok" and pipe.same_frame(o[1], want) is None, "choice|rank hot", lambda: f"{o[1]}")
    for bad in (lambda: t.one_hot_encode(df, ["a"]), lambda: t.one_hot_encode(df.with_columns(s=pl.lit("u")), ["s"]), lambda: t.woe_encode(df, ["a"], "y"), lambda: t.iv_encode(df, ["a"], "y"), lambda: t.target_encode(df, ["a"], "y"), lambda: t.target_encode(df, ["s"], "y", default=[1]), lambda: t.rank_hot_encode("s", ["u"]), lambda: t.polynomial_features(["a"], 1), lambda: t.winsorize(df, ["a"], -0.1), *(lambda f=f, lo=lo, hi=hi: f(df, ["a"], lo, hi) for f in (t.winsorize, t.robust_scale) for lo, hi in ((0.2, 1.2), (1.2, 1.5), (0.6, 0.4), (0.5, 0.5), (-0.2, 0.5), (-0.5, -0.2), (0.2, -0.1), (1.2, 0.3), (0.2, 1.0 + 1e-9))), lambda: t.impute(df, ["a"], "x"), lambda: t.scale(df, ["a"], "x"), lambda: t.conditional_impute(df, {"a": "a > 1"}, "x")):
        rec.state()
        rec.trans()
        rec.check(outcome_of(bad)[0] == "err", "accepted", "")


FAMILIES = [
    Family("numeric", num_cases, num_run, f"every column of up to 4 (5) of 5 values incl. null as Int64, Float64, Float32, UInt8 and Int8, and longer ones, x {len(CALLS)} numeric transforms (imputation, conditional imputation, centering, 3 scalings, robust scaling and winsorizing at 5 quantile pairs), applied to the frame they learned from and to another"),
    Family("text", text_cases, text_run, f"every text column of up to 5 (6) of 4 values incl. null, beside a second one and up to 3 binary targets, x {len(TCALLS)} encodings, applied to the frame they learned from and to one with unseen values"),
    Family("polynomials", poly_cases, poly_run, "1 to 4 columns x degree 2 and 3 (to 5) x with and without pure powers x all integer/float combinations"),
    Family("regression", lin_cases, lin_run, "imputation by regression on 1 to 3 features of 3 to 13 rows, with and without bias"),
    Family("choice of columns", sel_cases, sel_run, "15 steps x names, expressions, selectors and mixtures; invalid arguments"),
]
