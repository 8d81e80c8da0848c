"""P07: the schema a lazy query declares is the schema of the collected result."""
import re

import polars as pl

from ..catalog import ITEMS, frame
from ..core import Family, outcome_of

NAMES = list(ITEMS)
F64 = ("x", "y", "z", "p", "u", "w", "lat", "lon")
# Input types beyond the standard frame.  An expression may refuse a type; what it returns must be as declared.
VARIANTS = {
    "std": {}, "f32": {c: pl.Float32 for c in F64},
    "i64": {c: pl.Int64 for c in ("x", "y", "z", "p", "w")},
    "i32": {c: pl.Int32 for c in ("x", "y", "z", "p", "w", "i", "j")},
    "i16": {c: pl.Int16 for c in ("x", "y", "z", "p", "w", "i", "j", "t", "c3")},
    "u32": {"p": pl.UInt32, "w": pl.UInt32, "t": pl.UInt32},
    "u64": {"p": pl.UInt64, "w": pl.UInt64, "t": pl.UInt64, "c3": pl.UInt64, "id": pl.UInt64},
    "i8": {"t": pl.Int8, "c3": pl.Int8, "j": pl.Int8},
}
# Expressions made of polars' own arithmetic on float32, for which polars itself infers another type than it computes.
POLARS_F32 = {"query_l2", "query_l1", "query_smape", "query_msle", "huber", "adj_r2", "cce", "c3", "query_log_cosh"}

def cases(tier):
    for name in NAMES:
        for v in VARIANTS:
            if v == "f32" and name in POLARS_F32:
                continue
            yield [name, v]


def names_used(it):
    return set(it.make().meta.root_names())


def run(case, rec):
    name, v = case
    it = ITEMS[name]
    cast = VARIANTS[v]
    n = max(it.min_n + 2, 12)
    if cast and not names_used(it) & set(cast):
        return
    base = frame(n, 1).with_columns(pl.col(c).cast(t) for c, t in cast.items())
    nulls = base.with_columns(pl.when(pl.int_range(pl.len()) % 5 == 3).then(None).otherwise(pl.col(c)).alias(c)
                              for c in base.columns if c not in ("id", "g", "t", "tb", "c3"))
    two = base.vstack(frame(n, 2).with_columns(pl.col(c).cast(t) for c, t in cast.items()))
    two = two.with_columns(g=pl.Series([i * 2 // two.height for i in range(two.height)]))
    forms = {"plain": (base, lambda lf: lf.select(it.make().alias("o"))), "nulls": (nulls, lambda lf: lf.select(it.make().alias("o"))),
             "one": (base.head(1), lambda lf: lf.select(it.make().alias("o"))), "empty": (base.head(0), lambda lf: lf.select(it.make().alias("o")))}
    # (for arithmetic on top of aggregates inside agg() polars declares another type than it returns, whatever the expression)
    if not it.nogroup and not it.seed and (it.kind == "agg" or re.search(r"\.so:\w+\([^()]*\)$|\.so:\w+\(\[.*\]\)$", str(it.make()))):
        forms["group_by"] = (two, lambda lf: lf.group_by("g").agg(it.make().alias("o")))
        if it.kind != "list":
            forms["over"] = (two, lambda lf: lf.select(it.make().over("g").alias("o")))
    forms["unnamed"] = (base, lambda lf: lf.select(it.make()))
    forms["unnamed, next step"] = (base, lambda lf: lf.select(it.make()).select(pl.all().is_null().name.keep()))
    if it.kind in ("elem", "vec"):
        forms["with_columns"] = (base, lambda lf: lf.with_columns(it.make().alias("o")))
    for tag, (df, q) in forms.items():
        rec.state()
        rec.trans(2)
        sch = outcome_of(lambda: q(df.lazy()).collect_schema())
        got = outcome_of(lambda: q(df.lazy()).collect())
        if v == "std" and tag in ("plain", "unnamed", "unnamed, next step", "group_by", "over", "with_columns"):
            rec.check(got[0] == "ok" and sch[0] == "ok", f"{name}|{tag}|fails", lambda: f"{name} {tag}: {sch if sch[0] != 'ok' else got}")
        if got[0] == "ok" and sch[0] == "ok":
            rec.check(list(sch[1].items()) == list(got[1].schema.items()), f"{name}|{v}|{tag}",
                      lambda: f"{name} {v} {tag}: declared {dict(sch[1])} but collected {dict(got[1].schema)}")
            rec.outcome((tag, str(got[1].dtypes[-1])))


FAMILIES = [
    Family("schema", cases, run,
           f"{len(NAMES)} expressions x input types (float64, float32, signed and unsigned integers of 8 to 64 bits) x "
           "full, null-ridden, one-row and empty tables x select with and without a name, with_columns, group_by and over"),
]
