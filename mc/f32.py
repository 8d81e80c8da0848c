"""Float32 mode against float64 mode of the same regression, over null patterns and null policies.

The float64 results are themselves compared with the model (families "nulls" of the properties); what float32 mode has
to repeat is the outcome, which rows have values, and the values up to single precision.
"""
import itertools
import math
import warnings

import polars as pl
import polars_ds as pds
from polars_ds import config

from .core import Family, outcome_of

N = 14
Y = [3.0, -1.0, 4.0, 1.0, -5.0, 9.0, 2.0, -6.0, 5.0, 3.0, -5.0, 8.0, 9.0, -7.0]
X0 = [1.0, 5.0, -2.0, 4.0, 3.0, -6.0, 7.0, 2.0, -4.0, 6.0, -1.0, 3.0, -5.0, 2.0]
X1 = [2.0, -3.0, 5.0, 1.0, -4.0, 2.0, 6.0, -5.0, 3.0, -2.0, 4.0, -6.0, 1.0, 5.0]
NULLS = [(), (0,), (6,), (13,), (0, 7), (3, 4)]
POLICIES = ["raise", "skip", "zero", "one", "2.5", "ignore", "skip_window"]


def cases(tier):
    for pol in POLICIES:
        for bias in (False, True):
            for a in range(len(NULLS)):
                yield [pol, bias, a]


def agree(a, b, tol):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str):
        return a == b
    if isinstance(a, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * (1 + abs(a))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(agree(a[k], b[k], tol) for k in a)
    return len(a) == len(b) and all(agree(x, y, tol) for x, y in zip(a, b))


def floats(dt):
    """All float types within a dtype."""
    if isinstance(dt, pl.Struct):
        return {q for f in dt.fields for q in floats(f.dtype)}
    if isinstance(dt, pl.List):
        return floats(dt.inner)
    return {dt} if dt in (pl.Float32, pl.Float64) else set()


def family(calls, tol=2e-3):
    """calls(pol, bias) -> {key: expression maker}."""

    def run(case, rec):
        pol, bias, a = case
        for b, c in itertools.product(range(len(NULLS)), repeat=2):
            cut = lambda v, k: [None if i in NULLS[k] else x for i, x in enumerate(v)]
            df = pl.DataFrame({"y": cut(Y, a), "y2": [2 * v - i for i, v in enumerate(Y)], "x0": cut(X0, b), "x1": cut(X1, c), "w": [1.0 + i % 3 for i in range(N)]})
            for key, make in calls(pol, bias).items():
                if "weights" in key and (a or b or c) and pol not in ("zero", "one", "2.5"):
                    continue
                rec.state()
                rec.trans(2)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    want = outcome_of(lambda: df.select(make().alias("o"))["o"])
                    config.LIN_REG_EXPR_F64 = False
                    try:
                        got = outcome_of(lambda: df.select(make().alias("o"))["o"])
                    finally:
                        config.LIN_REG_EXPR_F64 = True
                ctx = lambda: f"{key} null_policy={pol} bias={bias} nulls y:{NULLS[a]} x0:{NULLS[b]} x1:{NULLS[c]}: float32 {got[1]} float64 {want[1]}"
                if not rec.check(got[0] == want[0], f"{key}|{pol}|outcome", ctx) or got[0] != "ok":
                    continue
                rec.check(floats(got[1].dtype) == {pl.Float32} or not floats(want[1].dtype), f"{key}|dtype", lambda: f"{key}: {got[1].dtype}")
                rec.check(agree(want[1].to_list(), got[1].to_list(), tol), f"{key}|{pol}", ctx)
                rec.outcome((key, pol, got[0]))

    return Family("float32 nulls", cases, run, f"{N} rows x 6^3 null patterns over target and two features x {len(POLICIES)} null policies x bias x the kinds of call, float32 mode against float64 mode")
