"""P25: time-series features equal their formulas."""
import math
from collections import Counter
from itertools import groupby, product

import numpy as np
import polars as pl
import polars_ds as pds

from polars_ds.exprs.ts_features import query_benford

from ..core import Family, outcome_of

NAN = math.nan


def near(g, w, tol=1e-9):
    if w is None or g is None:
        return g is w
    if isinstance(w, list):
        return isinstance(g, list) and len(g) == len(w) and all(near(a, b, tol) for a, b in zip(g, w))
    if w != w:
        return g != g
    if math.isinf(w):
        return g == w
    return abs(g - w) <= tol * (1 + abs(w))


def div(a, b):
    return a / b if b else NAN if a == 0 or a != a else math.copysign(math.inf, a)


def mean(v):
    v = list(v)
    return sum(v) / len(v) if v else NAN


def var(x, ddof):
    m = mean(x)
    return sum((v - m) ** 2 for v in x) / (len(x) - ddof)


def median(x):
    s = sorted(x)
    n = len(s)
    return (s[(n - 1) // 2] + s[n // 2]) / 2


def cid(x):
    return math.sqrt(sum((a - b) ** 2 for a, b in zip(x, x[1:])))


def acf(x, lag):
    m = mean(x)
    return div(sum((a - m) * (b - m) for a, b in zip(x, x[lag:])), (len(x) - lag) * var(x, 0))


def features(x):
    """name -> (expression, value) for a series without nulls."""
    n = len(x)
    q = {
        "mid_range": (pds.query_mid_range("x"), (max(x) - min(x)) / 2),
        "abs_energy": (pds.query_abs_energy("x"), sum(v * v for v in x)),
        "count_uniques": (pds.query_count_uniques("x"), sum(c == 1 for c in Counter(x).values())),
        "range_count": (pds.query_range_count("x", 0.0, 3.0), sum(0 <= v <= 3 for v in x)),
        "range_count|2": (pds.query_range_count("x", 1, 1), x.count(1)),
        "cid_ce": (pds.query_cid_ce("x"), cid(x)),
    }
    if max(x) > min(x):
        q["symm_ratio"] = (pds.query_symm_ratio("x"), abs(mean(x) - median(x)) / (max(x) - min(x)))
        s = math.sqrt(var(x, 1))
        q["cid_ce|normalized"] = (pds.query_cid_ce("x", normalize=True), cid([v / s for v in x]))
        for lag in (1, 2, 3):
            if lag < n:
                q[f"auto_corr|{lag}"] = (pds.query_auto_corr("x", lag), acf(x, lag))
                q[f"auto_corr|ddof 1|{lag}"] = (pds.query_auto_corr("x", lag, ddof=1), acf(x, lag) * (n - 1) / n)
    for k in (1, 2, 3):
        q[f"mean_n_abs_max|{k}"] = (pds.query_mean_n_abs_max("x", k), mean(sorted(map(abs, x), reverse=True)[:k]))
    if n > 1:
        q["mean_abs_change"] = (pds.query_mean_abs_change("x"), mean(abs(a - b) for a, b in zip(x, x[1:])))
        if abs(mean(x)) > 1e-9:
            q["cv"] = (pds.query_cv("x"), math.sqrt(var(x, 1)) / mean(x))
            q["cv|ddof 0"] = (pds.query_cv("x", ddof=0), math.sqrt(var(x, 0)) / mean(x))
    for lag in (1, 2, 3):
        if lag < n:
            q[f"auto_corr|not normalized|{lag}"] = (pds.query_auto_corr("x", lag, normalize=False), mean(a * b for a, b in zip(x, x[lag:])))
        if 2 * lag < n:
            t = list(zip(x, x[lag:], x[2 * lag:]))
            q[f"c3|{lag}"] = (pds.query_c3_stats("x", lag), mean(a * b * c for a, b, c in t))
            q[f"time_reversal|{lag}"] = (pds.query_time_reversal_asymmetry_stats("x", lag), mean(c * c * b - b * a * a for a, b, c in t))
    return q


def feat_one(rec, x, dt):
    rec.state()
    q = features(x)
    rec.trans(len(q))
    out = pl.DataFrame({"x": x}, schema={"x": dt}).select(e.alias(k) for k, (e, _) in q.items())
    rec.trace(len(q))
    if out.height != 1:
        rec.fail("rows", f"{x}: {out.height} rows")
        return
    for k, (_, w) in q.items():
        if not near(out[k][0], w):
            rec.fail(k.split("|")[0], f"{k} of {x} ({dt}): {out[k][0]} want {w}")


def feat_cases(tier):
    n = 5 if tier == "quick" else 6
    return [[k, a] for k in range(1, n + 1) for a in (-2, 0, 1, 3)] + [["long", n] for n in (*range(7, 60, 2), 300, 2000, 70_000)]


NARROW = (pl.Int8, pl.UInt8, pl.Int16, pl.UInt32, pl.Float32)


def feat_run(case, rec):
    if case[0] == "long":
        n = case[1]
        x = [(i * i * 7 + 3 * i) % 31 - 15 for i in range(n)]
        for dt in (pl.Float64, pl.Int64, pl.Int16):
            feat_one(rec, x, dt)
        # values near the ends of the narrow types
        feat_one(rec, [(i * i * 7 + 3 * i) % 251 for i in range(n)], pl.UInt8)
        feat_one(rec, [(i * i * 7 + 3 * i) % 251 - 125 for i in range(n)], pl.Int8)
        feat_one(rec, [((i * i * 7 + 3 * i) % 251) * 200 for i in range(n)], pl.UInt16)
        feat_one(rec, [((i * i * 7 + 3 * i) % 251) * 10**7 for i in range(n)], pl.UInt32)
        return
    k, a = case
    for rest in product((-2, 0, 1, 3), repeat=k - 1):
        x = [a, *rest]
        feat_one(rec, x, pl.Float64)
        feat_one(rec, x, pl.Int64)
        if min(x) >= 0:
            feat_one(rec, x, pl.UInt8)
    rec.outcome(case)


# ---------------------------------------------------------------- streaks, first digits
def streak_cases(tier):
    return [[n] for n in range(1, 8 if tier == "quick" else 10)] + [["long", n] for n in (9, 20, 50, 130, 260, 1000, 70_000)]


def streak_run(case, rec):
    n = case[-1]
    if case[0] == "long":
        words = [[(i // k) % 3 != j for i in range(n)] for k in (1, 2, 7, n // 3, n) for j in range(3)] + [[(i * i + i // 5) % k > 0 for i in range(n)] for k in (2, 3, 9)] + [[i != n // 2 for i in range(n)], [i == n - 1 for i in range(n)]]
        words += [[None if i % 11 == 4 else v for i, v in enumerate(words[k])] for k in range(0, 20, 3)]
    else:
        words = product((False, True), repeat=n) if n > 6 else product((False, True, None), repeat=n)
    for b in words:
        rec.state()
        rec.trans(6)
        df = pl.DataFrame({"b": b, "x": [None if v is None else 2.0 if v else 0.5 for v in b]}, schema={"b": pl.Boolean, "x": pl.Float64})
        runs = [(v, len(list(g))) for v, g in groupby(b)]
        true = [k for v, k in runs if v]
        want = (max(true, default=0), mean(true) if true else 0)
        for how, c in (("column", "b"), ("expression", pl.col("x") > 1)):
            out = df.select(l=pds.query_longest_streak(c), a=pds.query_avg_streak(c))
            rec.check(out.height == 1 and near(list(out.row(0)), list(want)), f"streak|{how}", lambda: f"{b}: {out.rows()} want {want}")
            got = df.select(s=pds.query_streak(c))["s"].to_list()
            rec.check(got == [k for _, k in runs], f"streak lengths|{how}", lambda: f"{b}: {got}")
    rec.outcome(case)


def digit_cases(tier):
    return [[t, p] for t in ("UInt8", "Int8", "UInt16", "Int16", "UInt32", "Int32", "UInt64", "Int64", "Float32", "Float64") for p in range(3)]


def first_digit(v):
    if v is None or v != v or math.isinf(v) or v == 0:
        return 0
    from decimal import Decimal
    return Decimal(repr(v)).as_tuple().digits[0]


def digit_run(case, rec):
    t, p = case
    dt = getattr(pl, t)
    if t.startswith("Float"):
        vals = [d * 10.0**e for d in (1.0, 1.5, 2.25, 4.75, 9.5, -3.25, -8.0) for e in range(-6, 7)] + [0.0, -0.0, NAN, math.inf, -math.inf, 0.0312, 5e-10, 7e20]
        if t == "Float32":
            vals = [float(np.float32(v)) for v in vals if abs(v) < 1e30 or v != v]
            vals = [v for v in vals if first_digit(v) == first_digit(float(f"{v:.6g}") if math.isfinite(v) else v)]
    else:
        info = np.iinfo(t.lower())
        vals = sorted({s * (d * 10**e + o) for d in range(1, 10) for e in range(20) for o in (-1, 0, 1) for s in (1, -1) if info.min <= s * (d * 10**e + o) <= info.max} | {info.max, info.min, 0})
    vals = vals[p::3]
    for i, v in enumerate(vals):
        # each value alone, and together with its successors and with nulls hiding values
        sub = vals[i:i + 1 + i % 7]
        s = pl.Series("x", sub, dtype=dt)
        df = pl.DataFrame({"x": s, "m": [j % 3 == 1 for j in range(len(sub))]})
        rec.state()
        rec.trans(3)
        count = lambda xs: [sum(first_digit(x) == d for x in xs) for d in range(1, 10)]
        seen = sub
        got = df.select(a=pds.query_first_digit_cnt("x"), b=query_benford(pl.col("x"))).rows()
        rec.check(len(got) == 1 and got[0][0] == count(seen) == got[0][1], f"first digit|{t}", lambda: f"{sub}: {got}")
        hid = df.select(pl.when(~pl.col("m")).then("x").alias("x")).select(pds.query_first_digit_cnt("x").alias("a"))["a"].to_list()
        rec.check(hid == [count([x for j, x in enumerate(seen) if j % 3 != 1])], f"first digit|nulls|{t}", lambda: f"{sub}: {hid}")
    rec.outcome(case)


# ---------------------------------------------------------------- windows like a query, autoregression
def z(w, floor):
    m, v = mean(w), var(w, 1)
    s = math.sqrt(max(v, floor))
    return [(a - m) / s for a in w]


def sim_cases(tier):
    return [["words", k, a] for k in range(2, 6 if tier == "quick" else 7) for a in (0, 1, 3)] + [["long", n] for n in (*range(8, 80, 5), 300, 700)] + [["bad"]]


def sim_one(rec, x, query, thresholds):
    df = pl.DataFrame({"x": x}, schema={"x": pl.Float64})
    m = len(query)
    wins = [x[i:i + m] for i in range(len(x) - m + 1)]
    d1 = [sum((a - b) ** 2 for a, b in zip(query, w)) for w in wins]
    d2 = [sum((a - b) ** 2 for a, b in zip(z(query, 0), z(w, 1e-10))) for w in wins] if max(query) > min(query) else None
    rec.state()
    for metric, d in (("sql2", d1), ("sqzl2", d2)):
        if d is None:
            continue
        for t in thresholds:
            if metric == "sqzl2" and any(abs(v - t) < 1e-6 for v in d):
                continue
            want = sum(v < t for v in d)
            for par in (False, True):
                rec.trans(2)
                q = dict(threshold=float(t), metric=metric, parallel=par)
                out = df.select(c=pds.query_similar_count(query, "x", **q), r=pds.query_similar_count(query, pl.col("x"), return_ratio=True, **q)).rows()
                rec.check(len(out) == 1 and out[0][0] == want and near(out[0][1], want / len(wins)), f"similar count|{metric}", lambda: f"{query} in {x} below {t}, parallel={par}: {out} want {want} of {len(wins)}")


def sim_run(case, rec):
    if case[0] == "words":
        _, k, a = case
        for rest in product((0, 1, 3), repeat=k - 1):
            x = [float(v) for v in (a, *rest)]
            for query in ([0.0, 1.0], [3.0, 1.0, 0.0], [1.0, 1.0]):
                if len(query) <= k:
                    sim_one(rec, x, query, (1, 2, 5.5))
    elif case[0] == "long":
        n = case[1]
        x = [float((i * i * 7 + 3 * i) % 11) for i in range(n)]
        for m in (2, 3, 8, 15, 16, 17, 32, 33):
            if m <= n:
                sim_one(rec, x, x[n // 3 % (n - m + 1):][:m], (0.5, m, 3 * m, 12.5 * m))
                sim_one(rec, x, [v * 2 + 1 + (i == 0) for i, v in enumerate(x[:m])], (0.5 * m, 4 * m, 20 * m))
        # autoregression: the least-squares fit on the lagged values, first lag first
        for lag in (1, 2, 3):
            for bias in (True, False):
                for dt in (pl.Float64, pl.Int32):
                    rows = n - lag
                    cols = [[x[t - i] for t in range(lag, n)] for i in range(1, lag + 1)] + ([[1.0] * rows] if bias else [])
                    a = np.array(cols).T
                    if np.linalg.cond(a) > 1e6 or rows <= lag + bias:
                        continue
                    want = np.linalg.lstsq(a, np.array(x[lag:]), rcond=None)[0].tolist()
                    rec.trans()
                    rec.state()
                    got = pl.DataFrame({"x": x}).cast(dt).select(pds.query_ar_coeffs("x", lag, add_bias=bias).alias("o"))["o"].to_list()
                    rec.check(len(got) == 1 and near(got[0], want, 1e-7), "ar_coeffs", lambda: f"{x} lag={lag} bias={bias}: {got} want {want}")
    else:
        df = pl.DataFrame({"x": [1.0, 2.0]})
        for f in (lambda: pds.query_similar_count([1.0], "x", 1.0), lambda: pds.query_similar_count([1.0, None], "x", 1.0), lambda: pds.query_similar_count([1.0, 2.0], "x", 1.0, metric="l1"),
                  lambda: df.select(pds.query_similar_count([1.0, 2.0, 3.0], "x", 1.0, metric="sql2")), lambda: df.select(pds.query_similar_count([1.0, 2.0, 3.0], "x", 1.0)),
                  lambda: pds.query_ar_coeffs("x", 0), lambda: pds.query_ar_coeffs("x", 1, null_policy="skip"), lambda: pds.query_mean_n_abs_max("x", 0)):
            rec.state()
            rec.trans()
            rec.check(outcome_of(f)[0] == "err", "argument not refused", "")
    rec.outcome(case)


FAMILIES = [
    Family("features", feat_cases, feat_run, "every series of 1 to 5 (6) of {-2,0,1,3} as floats, Int64 and UInt8; lengths 7..59, 300, 2000 and 70,000 in seven types up to the ends of their range; lags 1 to 3"),
    Family("streaks", streak_cases, streak_run, "every Boolean column of up to 7 (9), with nulls up to 6; longer ones to 70,000"),
    Family("digits", digit_cases, digit_run, "d 10^e and its neighbours for every digit and every power in range, of 10 types, alone, in small columns and behind nulls"),
    Family("windows", sim_cases, sim_run, "every series of 2 to 5 (6) of {0,1,3} x queries x thresholds x metrics, parallel and not; lengths 8..700 x query lengths around 16 and 32; autoregression of lag 1 to 3"),
]
