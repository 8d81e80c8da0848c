"""P23: population stability index, weight of evidence, information value and target encoding."""
import math
from bisect import bisect_right
from collections import Counter
from itertools import product

import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.exprs.num import target_encode

from ..core import Family, outcome_of


def pct(counts):
    s = sum(counts)
    return [max(c / s, 0.0001) for c in counts]


def psi_rows(base, new):
    return [(b, a, (b - a) * math.log(b / a)) for b, a in zip(pct(base), pct(new))]


def binned(xs, brk):
    s = sorted(xs)
    upto = [bisect_right(s, b) for b in brk]
    return [b - a for a, b in zip([bisect_right(s, -math.inf), *upto], upto)]


def report_same(rec, key, got, brk, base, new, ctx):
    rec.trace()
    want = psi_rows(binned(base, brk), binned(new, brk))
    ok = [r["<="] for r in got] == list(brk) and len(got) == len(want)
    ok = ok and all(abs(r["baseline_pct"] - w[0]) < 1e-12 and abs(r["actual_pct"] - w[1]) < 1e-12 and abs(r["psi_bin"] - w[2]) < 1e-9 for r, w in zip(got, want))
    if not ok:
        rec.fail(key, f"{ctx}: {got} want {brk} {want}")
    return sum(w[2] for w in want)


def finite(xs):
    return [x for x in xs if x is not None and math.isfinite(x)]


def quantiles(xs, n):
    """Distinct linear-interpolation quantiles at i/n, as exact as the data allow."""
    s = sorted(xs)
    q = []
    for i in range(1, n):
        p = (len(s) - 1) * i / n
        f = math.floor(p + 1e-10)
        v = s[f] + (p - f) * (s[min(f + 1, len(s) - 1)] - s[f]) if p - f > 1e-9 else s[f]
        if not q or abs(v - q[-1]) > 1e-12:
            q.append(v)
    return q


INF = math.inf
VALS = (0.0, 1.0, 2.5, None, math.nan, INF)


def bp_cases(tier):
    n = 3 if tier == "quick" else 4
    return [[a, b, n] for a in range(len(VALS)) for b in range(len(VALS))] + [["grid", i] for i in (*range(8), 100, 5500)]


def bp_run(case, rec):
    if case[0] == "grid":
        n = 20 + 13 * case[1]
        base = [(i * i * 7 + 3 * i) % 31 - 15 for i in range(n)]
        new = [(i * i * 5 + i) % 37 - 18 for i in range(n)]
        for brk in ([0.0], [-10.0, 0.0, 3.0, 12.0], [float(v) for v in range(-15, 16, 2)], [-100.0, 100.0]):
            bp_one(rec, base, new, brk)
        return
    a, b, n = case
    for ra in product(VALS, repeat=n - 1):
        base = [VALS[a], *ra]
        for rb in product(VALS[:4], repeat=n - 2):
            new = [VALS[b], 1.0, *rb]
            if finite(base) and finite(new):
                bp_one(rec, base, new, [0.0] if sum(map(bool, rb)) % 2 else [0.0, 1.0, 2.0])
    rec.outcome(case)


def bp_one(rec, base, new, brk):
    rec.state()
    rec.trans(2)
    df = pl.DataFrame({"b": base, "n": new}, schema={"b": pl.Float64, "n": pl.Float64}, strict=False)
    keep = list(brk)
    got = df.select(pds.psi_w_breakpoints("n", pl.col("b"), brk).alias("r"))["r"].to_list()
    report_same(rec, "breakpoints|columns", got, [*brk, INF], finite(base), finite(new), (base, new))
    lists = df.select(pds.psi_w_breakpoints([x for x in new if x is not None], [x for x in base if x is not None], brk).alias("r"))["r"].to_list()
    report_same(rec, "breakpoints|lists", lists, [*brk, INF], finite(base), finite(new), (base, new))
    rec.check(brk == keep, "breakpoints|argument changed", str(brk))


def psi_cases(tier):
    top = 7 if tier == "quick" else 8
    return [["word", n, a, q] for n in range(2, top) for a in (0, 1, 3) for q in (2, 3, 4)] + [["len", n] for n in (*range(8, 60, 3), 300, 2000, 70_000)]


def psi_one(rec, base, new, q, kind):
    rec.state()
    rec.trans(2)
    m = max(len(base), len(new))
    df = pl.DataFrame({"b": base + [None] * (m - len(base)), "n": new + [None] * (m - len(new))}, schema={"b": pl.Float64, "n": pl.Float64})
    ctx = (base, new, q)
    got = df.select(pds.psi("n", "b", q, return_report=True).alias("r"))["r"].to_list()
    fb, fn = finite(base), finite(new)
    brk = [r["<="] for r in got]
    # the breakpoints are the quantiles of the baseline, without those that leave a bin empty
    want = quantiles(fb, q)
    live = [v for v, c in zip(want, binned(fb, want)) if c]
    ok = rec.check(brk[-1:] == [INF] and len(brk) == len(live) + 1 and all(abs(x - y) < 1e-9 for x, y in zip(brk, live)), f"psi|breakpoints|{kind}", lambda: f"{ctx}: {brk} want {live}")
    if not ok:
        return
    total = report_same(rec, f"psi|report|{kind}", got, brk, fb, fn, ctx)
    one = df.select(pds.psi("n", "b", q).alias("r"))["r"].to_list()
    rec.check(len(one) == 1 and abs(one[0] - total) < 1e-9, f"psi|sum|{kind}", lambda: f"{ctx}: {one} want {total}")
    rec.trans()
    lst = pl.select(pds.psi([x for x in new if x is not None], [x for x in base if x is not None], q).alias("r"))["r"].to_list()
    rec.check(len(lst) == 1 and abs(lst[0] - total) < 1e-9, f"psi|lists|{kind}", lambda: f"{ctx}: {lst} want {total}")


def psi_run(case, rec):
    if case[0] == "len":
        n = case[1]
        base = [float((i * i * 7 + 3 * i) % 31 - 15) for i in range(n)]
        new = [float((i * i * 5 + i) % 37 - 18) for i in range(n + 5)]
        for q in (2, 5, 8, 10):
            psi_one(rec, base, new, q, "sizes")
            psi_one(rec, base[:3] + [math.nan, INF] + base[3:], [-INF, None] + new, q, "not finite")
        return
    _, n, a, q = case
    for rest in product((0, 1, 3), repeat=n - 1):
        base = [float(a), *map(float, rest)]
        new = [float(v) for v in (1, 0, 3, 2, -5, 9)][: 2 + sum(rest) % 5]
        psi_one(rec, base, new, q, "words")
    for bad in (1, 0, -1):
        rec.check(outcome_of(lambda: pds.psi("a", "b", bad))[0] == "err", "psi|n_bins not refused", str(bad))
    rec.outcome(case)


def disc_cases(tier):
    n = 4 if tier == "quick" else 5
    return [[a, b, k] for k in range(1, n + 1) for a in range(4) for b in range(4)] + [["many", n] for n in (7, 20, 60, 150, 1200, 70_000, *(() if tier == "quick" else (*range(8, 60, 3), 999)))]


CATS = ("a", "b", None, "c")


def disc_run(case, rec):
    if case[0] == "many":
        n = case[1]
        for k in (1, 2, 4, 9, 40) if n < 70_000 else (3, 2000):
            for m in (1, n // 2, n, 2 * n + 1) if n < 70_000 else (n, 2 * n + 1):
                base = [None if i % 11 == 5 else (i * i + i // 3) % k for i in range(n)]
                new = [None if i % 13 == 3 else (i * i * 3 + i // 2) % (k + 2) for i in range(m)]
                m = max(n, m)
                for f in (lambda v: v, lambda v: None if v is None else f"{v}é" if v % 3 else " " * v):
                    # columns of one length
                    disc_one(rec, [f(base[i % n]) for i in range(m)], [f(new[i % len(new)]) for i in range(m)])
        rec.outcome(case)
        return
    a, b, k = case
    for rest in product(CATS, repeat=k - 1):
        base = [CATS[a], *rest]
        for new in ([CATS[b], *([CATS[(b + i * (1 + len(set(rest)))) % 4] for i in range(k - 1)])], [CATS[b]] * k):
            for ints in (False, True):
                f = (lambda v: None if v is None else "abc".index(v)) if ints else (lambda v: v)
                disc_one(rec, [f(v) for v in base], [f(v) for v in new])
    rec.outcome(case)


def disc_one(rec, base, new):
    rec.state()
    rec.trans(3)
    df = pl.DataFrame({"b": base, "n": new}, schema={"b": pl.Int64, "n": pl.Int64} if all(isinstance(v, (int, type(None))) for v in base + new) else {"b": pl.String, "n": pl.String})
    cats = sorted(set(base) | set(new), key=repr)
    rows = dict(zip(cats, psi_rows(*([cnt[c] for c in cats] for cnt in (Counter(base), Counter(new))))))
    got = df.select(pds.psi_discrete("n", "b", return_report=True).alias("r"))["r"].to_list()
    ok = len(got) == len(cats)
    seen, sb, sn = set(), set(base), set(new)
    for r in got:
        c = r["baseline_category"] if r["baseline_category"] is not None else r["actual_category"]
        seen.add(c)
        w = rows[c]
        ok = ok and (r["baseline_category"] == c) == (c in sb or c is None) and (r["actual_category"] == c) == (c in sn or c is None)
        ok = ok and abs(r["baseline_pct"] - w[0]) < 1e-12 and abs(r["actual_pct"] - w[1]) < 1e-12 and abs(r["psi_bin"] - w[2]) < 1e-9
    rec.check(ok and seen == set(cats), "discrete|report", lambda: f"{base} -> {new}: {got} want {rows}")
    total = sum(w[2] for w in rows.values())
    one = df.select(pds.psi_discrete(pl.col("n"), pl.col("b")).alias("r"))["r"].to_list()
    rec.check(len(one) == 1 and abs(one[0] - total) < 1e-9, "discrete|sum", lambda: f"{base} -> {new}: {one} want {total}")
    if any(v is not None for v in base) and any(v is not None for v in new):
        lst = pl.select(pds.psi_discrete(new, base).alias("r"))["r"].to_list()
        rec.check(len(lst) == 1 and abs(lst[0] - total) < 1e-9, "discrete|lists", lambda: f"{base} -> {new}: {lst} want {total}")


# ---------------------------------------------------------------- weight of evidence, information value, target encoding
def woe_ref(values, target):
    rows = [(v, t) for v, t in zip(values, target) if v is not None and t is not None]
    good, cnt = {}, {}
    for v, t in rows:
        cnt[v] = cnt.get(v, 0) + 1
        good[v] = good.get(v, 0) + t
    tg, tc = sum(good.values()), sum(cnt.values())
    out = {}
    for v in cnt:
        g, b = (good[v] + 1) / (tg + 2), (cnt[v] - good[v] + 1) / (tc - tg + 2)
        out[v] = (math.log(g / b), (g - b) * math.log(g / b))
    return out


def enc_ref(values, target, leaf, smooth):
    tv = [t for t in target if t is not None]
    prior = sum(tv) / len(tv)
    out = {}
    groups = {}
    for v, t in zip(values, target):
        if t is not None:
            groups.setdefault(v, []).append(t)
    for v, ts in groups.items():
        a = 1 / (1 + math.exp(-(len(ts) - leaf) / smooth))
        out[v] = a * sum(ts) / len(ts) + (1 - a) * prior
    return out


def as_map(rows, key):
    return {r["value"]: r[key] for r in rows} if len({r["value"] for r in rows}) == len(rows) else None


def same_map(rec, key, got, want, ctx):
    rec.check(got is not None and got.keys() == want.keys() and all(abs(got[k] - want[k]) < 1e-9 for k in want), key, lambda: f"{ctx}: {got} want {want}")


def woe_cases(tier):
    n = 4 if tier == "quick" else 5
    return [[list(t)] for k in range(1, n + 1) for t in product((0, 1, None), repeat=k)] + [["cont", n] for n in (*range(3, 40, 2), 64, 101, 257, 1000, 70_000, *(() if tier == "quick" else (*range(40, 130, 3), 1000, 5000)))] + [["many", n] for n in (7, 12, 25, 60, 130, 400, 1300, 70_000, *(() if tier == "quick" else (*range(8, 100, 5), 1000, 4000)))]


def enc_one(rec, vs, target, dt):
    text = [None if v is None else str(v).lower() if isinstance(v, bool) else str(v) for v in vs]
    df = pl.DataFrame({"v": vs, "t": target}, schema={"v": dt, "t": pl.Int32})
    rec.state()
    want = woe_ref(text, target)
    ctx = (vs, target)
    if want:
        rec.trans(3)
        same_map(rec, "woe_discrete", as_map(df.select(pds.woe_discrete("v", "t").alias("r"))["r"].to_list(), "woe"), {v: w[0] for v, w in want.items()}, ctx)
        same_map(rec, "info_value_discrete", as_map(df.select(pds.info_value_discrete("v", pl.col("t"), return_sum=False).alias("r"))["r"].to_list(), "iv"), {v: w[1] for v, w in want.items()}, ctx)
        s = df.select(pds.info_value_discrete("v", "t").alias("r"))["r"].to_list()
        rec.check(len(s) == 1 and abs(s[0] - sum(w[1] for w in want.values())) < 1e-9, "info_value_discrete|sum", lambda: f"{ctx}: {s}")
    if None not in vs and any(t is not None for t in target):
        for leaf, sm in ((20, 10.0), (1, 2.0), (2, 0.5)):
            rec.trans()
            got = as_map(df.select(target_encode("v", "t", leaf, sm).alias("r"))["r"].to_list(), "to")
            same_map(rec, "target_encode", got, {v: w for v, w in enc_ref(text, target, leaf, sm).items()}, (ctx, leaf, sm))
        if None not in target:
            rec.trans(2)
            same_map(rec, "target_encode|list", as_map(df.select(target_encode("v", target).alias("r"))["r"].to_list(), "to"), enc_ref(text, target, 20, 10.0), ctx)
            same_map(rec, "woe_discrete|list", as_map(df.select(pds.woe_discrete("v", target).alias("r"))["r"].to_list(), "woe"), {v: w[0] for v, w in want.items()}, ctx)


def woe_run(case, rec):
    if case[0] == "cont":
        return cont_run(case, rec)
    if case[0] == "many":
        return many_run(case, rec)
    (target,) = case
    k = len(target)
    for vals in product(("x", "y", None), repeat=k):
        for ints in (False, True):
            enc_one(rec, [None if v is None else "xy".index(v) for v in vals] if ints else list(vals), target, pl.Int32 if ints else pl.String)
    rec.outcome(repr(case))


def many_run(case, rec):
    """Many categories, in several types, rare and frequent ones."""
    n = case[1]
    ts = [[(i * i + i // 3) % 2 for i in range(n)], [int(i % 7 == 0) for i in range(n)], [None if i % 5 == 2 else (i * 3 + i // 4) % 2 for i in range(n)], [int(i < n // 2) for i in range(n)]]
    for k in (1, 2, 3, 5, 9, 30) if n < 70_000 else (1000,):
        vs = [(i * i * 5 + i // 2) % (k if i % 3 else max(k // 2, 1)) for i in range(n)]
        for t in ts:
            enc_one(rec, [v - 2 for v in vs], t, pl.Int64)
            enc_one(rec, vs, t, pl.UInt8 if k < 256 else pl.UInt16)
            enc_one(rec, ["é" * (v % 3) + " " * (v % 2) + str(v // 4) for v in vs], t, pl.String)
            enc_one(rec, [None if i % 6 == 4 else "" if v == 0 else f"c{v}" for i, v in enumerate(vs)], t, pl.String)
            enc_one(rec, [v % 2 == 0 for v in vs], t, pl.Boolean)
    rec.outcome(case)


def cont_run(case, rec):
    n = case[1]
    xs = [float((i * i * 7 + 3 * i) % 31 - 15) for i in range(n)]
    ts = [(i * i + i // 3) % 2 for i in range(n)]
    for x, t in ((xs, ts), ([math.nan if i % 5 == 1 else None if i % 7 == 2 else v for i, v in enumerate(xs)], ts), (xs, [None if i % 4 == 3 else v for i, v in enumerate(ts)])):
        for q in (2, 3, 5, 10):
            keep = [i for i, v in enumerate(x) if v is not None and math.isfinite(v)]
            # the bins are polars' own right-closed quantile bins of the finite values
            cat = pl.Series([x[i] for i in keep]).qcut(q, left_closed=False, allow_duplicates=True).cast(pl.String).to_list()
            want = woe_ref(cat, [t[i] for i in keep])
            df = pl.DataFrame({"v": x, "t": t}, schema={"v": pl.Float64, "t": pl.Int64})
            rec.state()
            rec.trans(4)
            ctx = (x, t, q)
            same_map(rec, "woe", as_map(df.select(pds.woe("v", "t", q).alias("r"))["r"].to_list(), "woe"), {v: w[0] for v, w in want.items()}, ctx)
            same_map(rec, "info_value", as_map(df.select(pds.info_value("v", "t", q, return_sum=False).alias("r"))["r"].to_list(), "iv"), {v: w[1] for v, w in want.items()}, ctx)
            s = df.select(pds.info_value("v", "t", q).alias("r"))["r"].to_list()
            rec.check(len(s) == 1 and abs(s[0] - sum(w[1] for w in want.values())) < 1e-9, "info_value|sum", lambda: f"{ctx}: {s}")
            same_map(rec, "woe|list target", as_map(df.select(pds.woe("v", t, q).alias("r"))["r"].to_list(), "woe"), {v: w[0] for v, w in want.items()}, ctx)
            # binning: the bounds in the labels do enclose the values
            for i, c in zip(keep, cat):
                lo, hi = c.strip("(]").split(", ")
                rec.check(float(lo) - 1e-5 <= x[i] <= float(hi) + 1e-5, "woe|bins", lambda: f"{x[i]} in {c}")
    rec.outcome(case)


FAMILIES = [
    Family("breakpoints", bp_cases, bp_run, "every baseline of 3 (4) of {0,1,2.5,null,nan,inf} x new values x breakpoints, columns and lists; longer grids, to 71,520 rows"),
    Family("psi", psi_cases, psi_run, "every baseline of 2 to 6 (7) of {0,1,3} x 2, 3, 4 bins, lengths 8..59, 300, 2000, 70,000 x 2..10 bins, values that are not finite"),
    Family("discrete", disc_cases, disc_run, "every baseline of 1 to 4 (5) of 3 categories and null x new columns, strings and integers, columns and lists; up to 40 categories in 7 to 1200 rows, 2000 in 140,001"),
    Family("encoders", woe_cases, woe_run, "every column of 1 to 4 (5) of 2 categories and null x target of {0,1,null}; up to 30 categories of 4 types in 7 to 1300 rows, 1000 in 70,000; continuous columns of 3..1000 and 70,000 values x bins"),
]
