"""P36: the order of the rows matters only where it should."""
from itertools import combinations, permutations

import polars as pl

from ..catalog import HEAVY, ITEMS, frame
from ..core import Family, outcome_of

# Expressions of sequences, or that promise an order (first seen) or depend on a seed.
SEQ = {"detrend", "is_increasing", "is_decreasing", "trapz", "trapz_dx", "rfft", "rfft_full", "isotonic", "isotonic_w", "combinations", "combinations_u", "product", "rolling",
       "rolling_skip", "recursive", "mase", "xi", "xi_p", "query_mean_abs_change", "query_cid_ce", "longest_streak", "avg_streak", "streak", "similar_count_sql2",
       "similar_count_sqzl2", "lempel_ziv", "c3", "tras", "auto_corr", "ar_coeffs", "sample_entropy", "approx_entropy", "transfer_entropy", "permute_entropy", "nearest_lv",
       "nearest_hamming"} | {n for n in ITEMS if n.startswith("conv_")}
UNIQUE = {"radius"}  # which of several equally near rows is chosen is not specified
SLOW = {"cond_indep", "copula_entropy", "dist_kth"}  # minutes for 70,001 rows
SIGN = {"pca", "principal_components"}  # singular vectors are known up to sign
NAMES = [n for n, i in ITEMS.items() if n not in SEQ and not i.seed]


def absolute(v):
    if isinstance(v, float):
        return abs(v)
    if isinstance(v, (list, tuple)):
        return [absolute(x) for x in v]
    return {k: absolute(x) for k, x in v.items()} if isinstance(v, dict) else v


def value(df, it, name):
    o = outcome_of(lambda: df.select(it.make().alias("o"))["o"].to_list())
    if o[0] != "ok":
        return o[0], None
    v = absolute(o[1]) if name in SIGN else o[1]
    if name in UNIQUE and len(v) > 100:  # with equally near rows
        v = [x and sorted(x) for x in v]
    return "ok", sorted(v, key=repr) if it.unordered and not (v and any(isinstance(x, dict) and any(isinstance(y, float) for y in x.values()) for x in v)) else v


def rows_sorted(v):
    """Rows with floats, in an order that rounding does not change."""
    return sorted(v, key=lambda x: repr({k: (round(y, 6) if isinstance(y, float) else y) for k, y in x.items()} if isinstance(x, dict) else x))


def orders(n):
    if n <= 5:
        yield from permutations(range(n))
        return
    if n > 100:
        yield list(range(n))[::-1]
        if n > 5000:
            yield [(i * 7 + 5) % n for i in range(n)]
            return
        for k in (1, n // 3, n // 2, n - 1):
            yield [(i + k) % n for i in range(n)]
        for a in (7, 11, 13):  # n is no multiple of these
            yield [(i * a + 5) % n for i in range(n)]
        return
    for i, j in combinations(range(n), 2):
        p = list(range(n))
        p[i], p[j] = j, i
        yield p
    for k in range(1, n):
        yield [(i + k) % n for i in range(n)]
    yield list(range(n))[::-1]


def frames(it, tier):
    small = max(it.min_n, 5)
    for n in (small, small + 4, 600, 1250) + ((2500,) if tier != "quick" else ()) + ((70001,) if it.name not in HEAVY | SLOW else ()):
        for salt in (1,) if n > 100 else (1, 2) if tier == "quick" else (1, 2, 3, 4, 5):
            df = frame(n, salt)
            if it.name not in UNIQUE and not it.name.startswith("knn"):
                yield n, salt, "ties", df.with_columns((pl.col("x") / 20).floor(), (pl.col("y") / 20).floor() * 3, (pl.col("z") / 6).floor(), (pl.col("p") / 20).floor() + 0.25,
                                                       (pl.col("u") * 4).floor() / 4 + 0.1, pl.col("i") // 20, pl.col("j") // 20 + 1, (pl.col("w") / 2).floor() + 0.5)
            if it.name.startswith("knn"):  # no two neighbours equally near
                q = pl.int_range(pl.len())
                df = df.with_columns(pl.col("x") + q * q * 0.0137, pl.col("y") + q * 0.0371)
            yield n, salt, "plain", df
            yield n, salt, "nulls", df.with_columns(pl.when(pl.int_range(pl.len()) % 4 == 2).then(None).otherwise(pl.col(c)).alias(c) for c in ("x", "p", "a", "s", "b", "u"))


def cases(tier):
    return [[name, tier] for name in NAMES]


def run(case, rec):
    name, tier = case
    it = ITEMS[name]
    for n, salt, tag, df in frames(it, tier):
        base = value(df, it, name)
        for p in orders(n):
            rec.state()
            rec.trans()
            got = value(df[list(p)], it, name)
            if not rec.check(got[0] == base[0], f"{name}|{tag}|outcome", lambda: f"{name} n={n} salt={salt} {tag} rows in order {p}: {got[0]} instead of {base[0]}"):
                continue
            if got[0] != "ok":
                continue
            want = base[1]
            if it.kind in ("elem", "vec"):
                want = [want[i] for i in p] if len(want) == n else want
            a, b = (rows_sorted(got[1]), rows_sorted(want)) if it.unordered else (got[1], want)
            rec.same(a, b, f"{name}|{tag}", f"{name} n={n} salt={salt} {tag} rows in order {p}", rtol=1e-7, atol=1e-9)
        rec.outcome((base[0], str(base[1])[:40]))


FAMILIES = [Family("orders", cases, run, "every expression for which order does not matter x all orders of up to 5 rows, all transpositions and rotations of more x 2 lengths x 2 (5) fillings, 8 orders of 600 and 1250 (2500) and 2 of 70,001 rows x with and without nulls")]
