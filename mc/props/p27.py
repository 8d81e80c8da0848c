"""P27: correlations, weighted statistics and means."""
import math
from bisect import bisect_left, bisect_right
from itertools import groupby, permutations, product

import polars as pl
import polars_ds as pds
from scipy.special import ndtr
from scipy.stats import kendalltau

from ..core import Family, outcome_of

NAN = math.nan
INF = math.inf


def near(g, w, tol=1e-9):
    if w != w:
        return g is not None and g != g
    if g is None:
        return False
    if math.isinf(w):
        return g == w
    return abs(g - w) <= tol * (1 + abs(w))


def sgn(a, b):
    return (a > b) - (a < b)


def tau(x, y):
    p = [(a, b) for a, b in zip(x, y) if a is not None and b is not None and a == a and b == b]
    n = len(p)
    if n < 2:
        return NAN
    if n > 2000:
        return float(kendalltau([a for a, _ in p], [b for _, b in p]).statistic)
    s = tx = ty = 0
    for i in range(n):
        for j in range(i):
            a, b = sgn(p[i][0], p[j][0]), sgn(p[i][1], p[j][1])
            s, tx, ty = s + a * b, tx + a * a, ty + b * b
    return s / math.sqrt(tx * ty) if tx * ty else NAN


def xi_of(y):
    """y in the order of x"""
    n = len(y)
    s = sorted(y)
    r = [bisect_right(s, a) for a in y]
    l = [n - bisect_left(s, a) for a in y]
    d = 2 * sum(v * (n - v) for v in l)
    return 1 - n * sum(abs(a - b) for a, b in zip(r, r[1:])) / d if d else None


def orders(x, y):
    """every order of y in which x is sorted"""
    rows = sorted(zip(x, y), key=lambda p: p[0])
    groups = [sorted({p for p in permutations([b for _, b in g])}) for _, g in groupby(rows, key=lambda p: p[0])]
    for combo in product(*groups):
        yield [v for g in combo for v in g]


def rank_cases(tier):
    n = 4 if tier == "quick" else 5
    return [["words", k, a, b] for k in range(1, n + 1) for a in (0, 1, None) for b in (0, 1, NAN)] + [["perms", k, a] for k in range(2, 7 if tier == "quick" else 8) for a in range(k)] + [["long", n] for n in (*range(7, 120, 6), 400, 1100)] + [["large", n] for n in (5000, 70_000)]


TYPES = (pl.Int8, pl.UInt8, pl.Int16, pl.UInt32, pl.Int64, pl.UInt64, pl.Float32, pl.Float64)


def kendall_one(rec, x, y, tx=pl.Float64, ty=pl.Float64):
    rec.state()
    rec.trans()
    w = tau(x, y)
    got = pl.DataFrame({"x": x, "y": y}, schema={"x": tx, "y": ty}).select(a=pds.kendall_tau("x", "y"), b=pds.corr(pl.col("x"), "y", "kendall")).rows()
    rec.check(len(got) == 1 and near(got[0][0], w) and near(got[0][1], w), "kendall", lambda: f"{x} {y} {tx} {ty}: {got} want {w}")


def xi_one(rec, x, y, tx=pl.Float64, ty=pl.Float64):
    n = len(x)
    if len(set(y)) < 2:
        return
    rec.state()
    rec.trans(5)
    want = sorted({xi_of(o) for o in (orders(x, y) if n <= 6 else [[b for _, b in sorted(zip(x, y))]])})
    df = pl.DataFrame({"x": x, "y": y}, schema={"x": tx, "y": ty})
    got = df.select(a=pds.xi_corr("x", pl.col("y"), seed=1), b=pds.xi_corr(pl.col("x"), "y", seed=1), c=pds.xi_corr("x", "y", seed=2), d=pds.corr("x", "y", "xi")).rows()
    rec.check(len(got) == 1 and all(any(near(g, w) for w in want) for g in got[0]) and got[0][0] == got[0][1], "xi", lambda: f"{x} {y} {tx} {ty}: {got} want one of {want}")
    p = df.select(o=pds.xi_corr("x", "y", seed=1, return_p=True))["o"].to_list()
    wp = NAN if n < 30 else 2 * float(ndtr(-math.sqrt(n) * abs(got[0][0]) / math.sqrt(0.4)))
    rec.check(len(p) == 1 and p[0]["statistic"] == got[0][0] and near(p[0]["pvalue"], wp), "xi|p-value", lambda: f"{x} {y}: {p} want {wp}")


def rank_run(case, rec):
    if case[0] == "words":
        _, k, a, b = case
        for rx in product((0, 1, None), repeat=k - 1):
            for ry in product((0, 1, INF if k < 4 else NAN), repeat=k - 1):
                kendall_one(rec, [a, *rx], [b, *ry])
        if a is not None and b == b:
            for rx in product((0, 1, 3), repeat=k - 1):
                for ry in product((0, 1, 3), repeat=k - 1):
                    xi_one(rec, [a, *rx], [b, *ry])
                    if k < 4:
                        t = (len(rx) + sum(rx) + 3 * sum(ry)) % len(TYPES)
                        xi_one(rec, [a, *rx], [b, *ry], TYPES[t], TYPES[-t])
                        kendall_one(rec, [a, *rx], [b, *ry], TYPES[-t], TYPES[t])
    elif case[0] == "perms":
        _, k, a = case
        for i, p in enumerate(permutations([v for v in range(k) if v != a])):
            y = [a, *p]
            kendall_one(rec, list(range(k)), y)
            xi_one(rec, y, list(range(k)), TYPES[i % 8], TYPES[i // 8 % 8])
            kendall_one(rec, [v // 2 for v in y], [v // 3 for v in range(k)], TYPES[i % 8], TYPES[i // 8 % 8])
    elif case[0] == "large":
        n = case[1]
        x = [(i * 37) % 70_001 for i in range(n)]
        y = [(i * 10_007 + i // 3) % 70_001 for i in range(n)]
        z = [(i * i + i // 5) % 7 for i in range(n)]
        kendall_one(rec, x, y)
        kendall_one(rec, x, x[::-1], pl.Int32)
        kendall_one(rec, x, z, pl.UInt32, pl.Int8)
        kendall_one(rec, [v // 9 for v in x], z, pl.Float32, pl.UInt8)
        kendall_one(rec, [v if i % 5 else None for i, v in enumerate(x)], x)
        kendall_one(rec, z, [v // 2 if i % 3 else 5 for i, v in enumerate(z)], pl.Int64, pl.Int16)
        xi_one(rec, x, y)
        xi_one(rec, x, [v * v % 70_001 for v in x], pl.UInt32, pl.Int64)
        xi_one(rec, x, [v // 11 for v in x], pl.Int64, pl.Int16)
        xi_one(rec, x, z, pl.Float64, pl.Int8)
    else:
        n = case[1]
        for k in range(2, 14):
            x = [(i * 37) % (127 if n < 127 else 1151) for i in range(n)]  # all different
            y = [(i * i * 7 + 3 * i) % (3 * k) for i in range(n)]
            z = [v // k for v in x]
            t = TYPES[k % 8] if n < 127 else (pl.Int64, pl.Float64, pl.UInt16, pl.Int32)[k % 4]
            kendall_one(rec, x, y, t, pl.Int64)
            kendall_one(rec, z, y, t, pl.Float64)
            kendall_one(rec, z, [v if i % 5 else (None, NAN)[i % 2] for i, v in enumerate(y)])
            kendall_one(rec, [v if i % 4 else (None, INF, -INF)[i % 3] for i, v in enumerate(z)], y)
            xi_one(rec, x, y, t, pl.UInt16)
            xi_one(rec, x, [v // k - 3 for v in x], pl.Float64, pl.Int8 if n < 127 else pl.Int16)
    rec.outcome(case)


# ---------------------------------------------------------------- weighted statistics, means
def dot(*v):
    return math.fsum(math.prod(t) for t in zip(*v))


def wcov(x, y, w):
    mx, my = dot(x, w) / sum(w), dot(y, w) / sum(w)
    return math.fsum(c * (a - mx) * (b - my) for a, b, c in zip(x, y, w)) / sum(w)


def weighted(x, y, w):
    s = sum(w)
    m = dot(x, w) / s
    q = {
        "weighted_mean": (pds.weighted_mean("x", "w"), m),
        "weighted_mean|normalized": (pds.weighted_mean(pl.col("x"), "w", is_normalized=True), dot(x, w)),
        "weighted_var": (pds.weighted_var("x", pl.col("w")), wcov(x, x, w)),
        "weighted_cov": (pds.weighted_cov("x", "y", pl.col("w")), wcov(x, y, w)),
    }
    if s > 1:
        q["weighted_var|freq"] = (pds.weighted_var("x", "w", freq_weights=True), wcov(x, x, w) * s / (s - 1))
    vx, vy = wcov(x, x, w), wcov(y, y, w)
    if vx > 1e-9 * max(1, max(a * a for a in x)) and vy > 1e-9 * max(1, max(a * a for a in y)):
        q["weighted_corr"] = (pds.weighted_corr("x", pl.col("y"), "w"), wcov(x, y, w) / math.sqrt(vx * vy))
    if any(x) and any(y):
        q["cosine_sim"] = (pds.cosine_sim("x", pl.col("y")), dot(x, y) / math.sqrt(dot(x, x) * dot(y, y)))
        q["weighted_cosine_sim"] = (pds.weighted_cosine_sim("x", "y", pl.col("w")), dot(x, y, w) / math.sqrt(dot(x, x, w) * dot(y, y, w)))
    if min(x) > 0:
        lg = [math.log(v) for v in x]
        iv = [1 / v for v in x]
        q["gmean"] = (pds.gmean("x"), math.exp(math.fsum(lg) / len(x)))
        q["hmean"] = (pds.hmean("x"), len(x) / math.fsum(iv))
        q["weighted_gmean"] = (pds.weighted_gmean("x", "w"), math.exp(dot(lg, w) / s))
        q["weighted_hmean"] = (pds.weighted_hmean(pl.col("x"), "w"), s / dot(iv, w))
        if dot(lg, w) < 600:
            q["weighted_gmean|normalized"] = (pds.weighted_gmean("x", pl.col("w"), is_normalized=True), math.exp(dot(lg, w)))
        q["weighted_hmean|normalized"] = (pds.weighted_hmean("x", pl.col("w"), True), 1 / dot(iv, w))
    return q


def w_one(rec, x, y, w, dts, tol=1e-9):
    q = weighted(x, y, w)
    rec.state()
    rec.trans(len(q))
    out = pl.DataFrame({"x": x, "y": y, "w": w}, schema=dict(zip("xyw", dts))).select(e.alias(k) for k, (e, _) in q.items())
    for k, (_, v) in q.items():
        if k == "weighted_cov" and out.height == 1 and out[k][0] is not None and abs(out[k][0] - v) <= 1e-12 * max(map(abs, x)) * max(map(abs, y)):
            continue  # the difference of large products
        rec.check(out.height == 1 and near(out[k][0], v, tol * 1e3 if k.endswith("normalized") and tol > 1e-8 else tol), k.split("|")[0], lambda: f"{k} of {x} {y} by {w} {dts}: {out[k].to_list()} want {v}")


def w_cases(tier):
    return [["words", a, b, c] for a in (1, 2, 5) for b in (-1, 0, 4) for c in (1, 2)] + [["types", t] for t in range(len(TYPES))] + [["long", n] for n in (*range(4, 90, 5), 600, 70_000)] + [["short", tier != "quick"]]


def bicor(x, y, c):
    def part(v):
        med = median(v)
        d = [a - med for a in v]
        mad = median([abs(a) for a in d])
        if mad == 0:
            return None
        u = [a / (c * mad) for a in d]
        return [a * (1 - b * b) ** 2 if abs(b) < 1 else 0.0 for a, b in zip(d, u)]
    a, b = part(x), part(y)
    return None if a is None or b is None else dot(a, b) / math.sqrt(dot(a, a) * dot(b, b))


def median(v):
    s = sorted(v)
    n = len(s)
    return (s[(n - 1) // 2] + s[n // 2]) / 2


def bi_one(rec, x, y):
    for c in (9.0, 2.25):
        w = bicor(x, y, c)
        if w is None:
            continue
        rec.trans()
        got = pl.DataFrame({"x": x, "y": y}).select(a=pds.bicor("x", pl.col("y"), c), b=pds.corr("x", "y", "bicor")).rows()
        rec.check(len(got) == 1 and near(got[0][0], w) and near(got[0][1], bicor(x, y, 9.0)), "bicor", lambda: f"{x} {y} c={c}: {got} want {w}")


def w_run(case, rec):
    f64 = (pl.Float64,) * 3
    if case[0] == "words":
        _, a, b, c = case
        for rx in product((1, 2, 5), repeat=2):
            for ry in product((-1, 0, 4), repeat=2):
                for rw in product((1, 2), repeat=2):
                    w_one(rec, [a, *rx], [b, *ry], [c, *rw], (pl.Int64, pl.Int32, pl.Int64) if sum(rx) % 2 else f64)
    elif case[0] == "types":
        t = TYPES[case[1]]
        hi = {pl.Int8: 127, pl.UInt8: 255, pl.Int16: 32767, pl.UInt32: 2**32 - 1}.get(t, 4000)
        tol = 1e-5 if t == pl.Float32 else 1e-9
        for x in product((1, hi // 3, hi), repeat=3):
            for w in product((1, hi // 2), repeat=3):
                y = [x[1], w[0], x[2]]
                if t == pl.Float32 and len(set(x)) < 2 + (hi in x):
                    continue  # spread lost to rounding
                w_one(rec, list(x), y, list(w), (t, t, t), tol)
                w_one(rec, list(x), y, [v / 8 for v in w], (t, t, pl.Float64), tol)
                w_one(rec, [v / 4 for v in x], y, list(w), (pl.Float64, t, t), tol)
    elif case[0] == "long":
        n = case[1]
        for k in range(6):
            x = [1 + (i * 37) % 29 for i in range(n)]
            y = [(i * i * 7 + k * i) % 23 - 9 for i in range(n)]
            w = [1 + (i * 5) % 7 for i in range(n)]
            w_one(rec, x, y, w, (pl.Float64, pl.Int64, pl.Float64))
            bi_one(rec, x, y)
            bi_one(rec, [v + 300 * (i == k) for i, v in enumerate(x)], y)
    else:
        # short columns: biweight midcorrelation, convenience function, nulls in means, refusals
        for x in product((0, 1, 3, 30), repeat=4 if not case[1] else 5):
            rec.state()
            bi_one(rec, list(x), [(2 * v + i) % 7 for i, v in enumerate(x)])
            bi_one(rec, [(5 * v + i * i) % 11 for i, v in enumerate(x)], list(x))
        for x in product((1, 2, 8, None), repeat=3):
            v = [a for a in x if a is not None]
            if v:
                rec.trans(2)
                got = pl.DataFrame({"x": x}, schema={"x": pl.Int32}).select(a=pds.gmean("x"), b=pds.hmean("x")).rows()
                rec.check(len(got) == 1 and near(got[0][0], math.prod(v) ** (1 / len(v))) and near(got[0][1], len(v) / sum(1 / a for a in v)), "means with nulls", lambda: f"{x}: {got}")
        df = pl.DataFrame({"x": [1.0, 2.0, 4.0, 8.0], "y": [1.0, 3.0, 2.0, 8.0]})
        got = df.select(a=pds.corr("x", "y"), b=pds.corr("x", "y", "spearman")).row(0)
        w = (wcov([1, 2, 4, 8], [1, 3, 2, 8], [1] * 4) / math.sqrt(wcov([1, 2, 4, 8], [1, 2, 4, 8], [1] * 4) * wcov([1, 3, 2, 8], [1, 3, 2, 8], [1] * 4)), 0.8)
        rec.check(all(near(a, b) for a, b in zip(got, w)), "corr", f"{got} want {w}")
        rec.check(outcome_of(lambda: pds.corr("x", "y", "cosine"))[0] == "err", "corr|unknown method", "")
    rec.outcome(case)


FAMILIES = [
    Family("ranks", rank_cases, rank_run, "Kendall and xi: every pair of columns of up to 4 (5) of 2 values with nulls, NaN and infinity, every permutation of up to 6 (7), lengths to 1100 and 70,000, 8 numeric types; every order of ties"),
    Family("weights", w_cases, w_run, "every column of 3 values x weights; every triple of the ends of 8 numeric types; lengths to 600 and 70,000; biweight midcorrelation of every column of 4 (5)"),
]
