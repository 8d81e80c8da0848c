"""P22: combinations and Cartesian products of columns."""
import math
from itertools import combinations, product

import polars as pl
import polars_ds as pds

from ..core import Family, outcome_of

TYPES = {"Int8": (1, 2, 5), "Int16": (-1, 2, 5), "Int32": (3, 0, -7), "Int64": (3, 0, -7), "UInt8": (200, 0, 7), "UInt16": (1, 2, 3), "UInt32": (1, 2, 3), "UInt64": (2**63, 0, 1),
         "Float32": (0.5, 2.0, -1.0), "Float64": (0.1, 2.0, -1.0), "String": ("b", "", "é")}


def cases(tier):
    n = 4 if tier == "quick" else 5
    return [[t, k] for t in TYPES for k in range(0, n + 1)]


def run(case, rec):
    t, n = case
    dt = getattr(pl, t)
    vals = (None, *TYPES[t])
    for w in product(vals, repeat=n):
        src = pl.Series("v", list(w), dtype=dt)
        df = pl.DataFrame({"v": src})
        live = [v for v in src.to_list() if v is not None]
        rec.state()
        for k in (1, 2, 3, 4):
            for uniq in (False, True):
                pool = sorted(set(live)) if uniq else live
                rec.trans()
                got = outcome_of(lambda: df.select(pds.combinations("v", k, unique=uniq).alias("o"))["o"])
                if len(pool) < k:
                    rec.check(got[0] == "err", "combinations|too few values not refused", lambda: f"{w} k={k}: {got}")
                elif rec.check(got[0] == "ok", "combinations|raised", lambda: f"{w} k={k}: {got}"):
                    rec.check(got[1].to_list() == [list(c) for c in combinations(pool, k)], f"combinations|{'unique' if uniq else 'all'}", lambda: f"{w} k={k}: {got[1].to_list()}")
                    rec.check(got[1].dtype == pl.List(dt), "combinations|type", lambda: str(got[1].dtype))
        # product with another column, nulls on both sides left out
        if n <= 3:
            for o in product(vals, repeat=n):
                d = pl.DataFrame({"v": src, "o": pl.Series(list(o), dtype=dt)})
                right = [v for v in d["o"].to_list() if v is not None]
                rec.state()
                rec.trans()
                out = d.select(pds.product("v", pl.col("o")).alias("p"))["p"]
                rec.check(out.to_list() == [[a, b] for a in live for b in right] and out.dtype == pl.List(dt), "product", lambda: f"{w} x {o}: {out.to_list()}")
    rec.outcome(case)


def size_cases(tier):
    return [["wide", n] for n in (24, 40, 70, 365, 600)] + [["len", n] for n in range(5, 13 if tier == "quick" else 16)] + [["group", n] for n in range(1, 7)] + [["chunks", n] for n in range(1, 6)]


def size_run(case, rec):
    kind, n = case
    if kind == "wide":  # lists of more than 65,536 rows
        for vals in ([(i * 7919 + 3) % 10007 - 5000 for i in range(n)], [None if i % 9 == 4 else f"w{(i * 7919) % 10007}" for i in range(n)]):
            df = pl.DataFrame({"v": vals})
            live = [v for v in vals if v is not None]
            for k in (2, 3, 4, 5, n - 3, n - 1, n):
                if k < 1 or k > len(live) or math.comb(len(live), min(k, len(live) - k)) > 200_000 or k > 100:
                    continue
                for uniq in (False, True):
                    pool = sorted(set(live)) if uniq else live
                    rec.state()
                    rec.trans()
                    got = df.select(pds.combinations("v", k, unique=uniq).alias("o"))["o"].to_list()
                    rec.check(got == [list(c) for c in combinations(pool, k)], "combinations|wide", lambda: f"{n} values k={k}: {len(got)} rows, want {math.comb(len(pool), k)}")
            rec.trans()
            got = df.with_columns(w=pl.col("v").reverse()).select(pds.product("v", "w").alias("p"))["p"].to_list()
            rec.check(got == [[a, b] for a in live for b in live[::-1]], "product|wide", lambda: f"{n}: {len(got)} rows")
    elif kind == "len":
        xs = [(i * i * 7 + 3 * i) % 31 - 15 for i in range(n)]
        for vals in (xs, [str(x) for x in xs]):
            df = pl.DataFrame({"v": vals})
            for k in range(1, n + 1):
                for uniq in (False, True):
                    pool = sorted(set(vals)) if uniq else vals
                    if len(pool) < k:
                        continue
                    rec.state()
                    rec.trans()
                    got = df.select(pds.combinations("v", k, unique=uniq).alias("o"))["o"].to_list()
                    rec.check(got == [list(c) for c in combinations(pool, k)], "combinations|sizes", lambda: f"{vals} k={k}: {len(got)} rows")
            d = df.with_columns(w=pl.col("v").reverse())
            rec.trans()
            rec.check(d.select(pds.product("v", "w").alias("p"))["p"].to_list() == [[a, b] for a in vals for b in vals[::-1]], "product|sizes", f"{n}")
    elif kind == "group":
        # per group, with every assignment of rows to two groups
        for g in product((0, 1), repeat=n):
            df = pl.DataFrame({"g": g, "v": list(range(n)), "s": [None if i == 2 else f"s{i}" for i in range(n)]})
            rec.state()
            rec.trans(2)
            size = [g.count(0), g.count(1)]
            out = df.group_by("g", maintain_order=True).agg(p=pds.product("v", pl.col("v") + 10), q=pds.product("s", "s"))
            ok = True
            for r in out.iter_rows(named=True):
                mine = [i for i in range(n) if g[i] == r["g"]]
                ss = [f"s{i}" for i in mine if i != 2]
                ok &= r["p"] == [[a, b + 10] for a in mine for b in mine] and r["q"] == [[a, b] for a in ss for b in ss]
            rec.check(ok, "product|group_by", lambda: f"{g}: {out.rows()}")
            if min(s for s in size if s) >= 2:
                rec.trans()
                out = df.group_by("g", maintain_order=True).agg(c=pds.combinations("v", 2))
                rec.check(all(r["c"] == [list(c) for c in combinations([i for i in range(n) if g[i] == r["g"]], 2)] for r in out.iter_rows(named=True)), "combinations|group_by", lambda: f"{g}: {out.rows()}")
    else:
        # columns of several chunks
        vals = [3, None, 1, 2, 3, 0]
        for cut in range(7):
            s = pl.concat([pl.Series("v", vals[:cut], dtype=pl.Int64), pl.Series("v", vals[cut:], dtype=pl.Int64)], rechunk=False)
            live = [v for v in vals if v is not None]
            df = s.to_frame()
            rec.state()
            rec.trans(3)
            if n <= len(set(live)):
                for uniq in (False, True):
                    pool = sorted(set(live)) if uniq else live
                    got = df.select(pds.combinations("v", n, unique=uniq).alias("o"))["o"].to_list()
                    rec.check(got == [list(c) for c in combinations(pool, n)], "combinations|chunks", lambda: f"cut={cut} n={n}: {got}")
            got = df.select(pds.product("v", pl.col("v").head(n)).alias("p"))["p"].to_list()
            rec.check(got == [[a, b] for a in live for b in vals[:n] if b is not None], "product|chunks", lambda: f"cut={cut} n={n}: {got}")
    rec.outcome(case)


FAMILIES = [
    Family("small", cases, run, "every column of up to 4 (5) values of 3 and null x 11 types x k 1..4 x unique; every pair of columns of up to 3 for the product"),
    Family("sizes", size_cases, size_run, "5..12 (15) values x every k; 24 to 600 values with k to 5 and near n, up to 200,000 rows; every assignment of up to 6 rows to two groups; every split into two chunks"),
]
