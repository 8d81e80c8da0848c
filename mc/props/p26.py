"""P26: hypothesis tests give the statistic and p-value of their definitions."""
import math
from collections import Counter
from itertools import product

import numpy as np
import polars as pl
import polars_ds as pds
from scipy.special import chdtrc, fdtrc, ndtr, stdtr

from ..core import Family, outcome_of

NAN = math.nan
ALTS = ("two-sided", "less", "greater")


def near(g, w, tol=1e-9):
    if w != w:
        return g is not None and g != g
    if g is None:
        return False
    if math.isinf(w):
        return g == w
    return abs(g - w) <= tol * (1 + abs(w))


def pair(got, want, tol=1e-8):
    """statistic and p-value; small p-values also agree relatively"""
    return got is not None and near(got["statistic"], want[0], tol) and near(got["pvalue"], want[1], tol) and (
        want[1] != want[1] or want[1] < 1e-280 and got["pvalue"] < 1e-270 or abs(got["pvalue"] - want[1]) <= 1e-7 * want[1])


def fin(x):
    return [v for v in x if v is not None and v == v and not math.isinf(v)]


def mean(x):
    return math.fsum(x) / len(x)


def var(x, ddof=1):
    m = mean(x)
    return math.fsum((v - m) ** 2 for v in x) / (len(x) - ddof)


def t_p(t, df, alt):
    if alt == "less":
        return float(stdtr(df, t))
    if alt == "greater":
        return float(stdtr(df, -t))
    return 2 * float(stdtr(df, -abs(t)))


def t_one(m, v, n, pop, alt):
    t = (m - pop) / math.sqrt(v / n)
    return t, t_p(t, n - 1, alt)


def t_welch(m1, v1, n1, m2, v2, n2, alt):
    a, b = v1 / n1, v2 / n2
    t = (m1 - m2) / math.sqrt(a + b)
    return t, t_p(t, (a + b) ** 2 / (a * a / (n1 - 1) + b * b / (n2 - 1)), alt)


def t_equal(m1, v1, m2, v2, n, alt):
    t = (m1 - m2) / math.sqrt((v1 + v2) / n)
    return t, t_p(t, 2 * n - 2, alt)


def t_cases(tier):
    n = 3 if tier == "quick" else 4
    return [["pairs", n, a, b] for a in (0, 1, 4, None) for b in (0, 1, 4, NAN)] + [["words", k] for k in range(2, 6 if tier == "quick" else 7)] + [["long", n] for n in (*range(6, 300, 21), 501, 1200, 3000, 70_000)] + [["grid", n] for n in (2, 3, 5, 10, 40, 1000, 7000, 15_000, 70_000)]


def t_one_case(rec, x, y, dts, alts=ALTS):
    rec.state()
    fx, fy = fin(x), fin(y)
    q = {}
    for alt in alts:
        if len(fx) > 1 and var(fx) > 0:
            s = (mean(fx), var(fx), len(fx))
            q[f"one sample|{alt}"] = (pds.ttest_1samp("x", 1.25, alt), t_one(*s, 1.25, alt))
            q[f"against statistics|{alt}"] = (pds.ttest_ind_from_stats("x", 0.5, 2.25, 7, alt), t_welch(*s, 0.5, 2.25, 7, alt))
            if None not in x and len(fx) == len(x):
                q[f"against statistics, equal variances|{alt}"] = (pds.ttest_ind_from_stats(pl.col("x"), 0.5, 2.25, len(x), alt, equal_var=True), t_equal(s[0], s[1], 0.5, 2.25, len(x), alt))
        if len(fx) > 1 and len(fy) > 1 and var(fx) + var(fy) > 0:
            q[f"Welch|{alt}"] = (pds.ttest_ind("x", pl.col("y"), alt), t_welch(mean(fx), var(fx), len(fx), mean(fy), var(fy), len(fy), alt))
            if len(fx) == len(x) and len(fy) == len(y):
                q[f"Student|{alt}"] = (pds.ttest_ind(pl.col("x"), "y", alt, equal_var=True), t_equal(mean(x), var(x), mean(y), var(y), len(x), alt))
    if not q:
        return
    rec.trans(len(q))
    out = pl.DataFrame({"x": x, "y": y}, schema=dts).select(e.alias(k) for k, (e, _) in q.items())
    for k, (_, w) in q.items():
        rec.check(out.height == 1 and pair(out[k][0], w), k.split("|")[0], lambda: f"{k} of {x} {y} {dts}: {out[k].to_list()} want {w}")


F64 = {"x": pl.Float64, "y": pl.Float64}


def t_run(case, rec):
    if case[0] == "pairs":
        _, n, a, b = case
        for rx in product((0, 1, 4, None), repeat=n - 1):
            for ry in product((0, 2, NAN, math.inf) if n < 4 else (0, NAN), repeat=n - 1):
                t_one_case(rec, [a, *rx], [b, *ry], F64, ALTS if n < 4 else ALTS[1:2])
    elif case[0] == "words":
        n = case[1]
        for x in product((0, 1, 4), repeat=n):
            y = [v * 2 + i % 2 for i, v in enumerate(x)][::-1]
            t_one_case(rec, list(x), y, {"x": pl.Int64, "y": pl.UInt8})
            t_one_case(rec, list(x), y, {"x": pl.Float32, "y": pl.Float32 if sum(x) % 2 else pl.Int8})
    elif case[0] == "long":
        n = case[1]
        x = [(i * i * 7 + 3 * i) % 31 - 15 for i in range(n)]
        for k in range(6):
            y = [(i * 11) % 17 - 8 + 2 * k for i in range(n)]
            t_one_case(rec, x, y, F64)
            t_one_case(rec, x, [v if i % 4 else (None, NAN, math.inf)[i % 3] for i, v in enumerate(y)], F64)
            t_one_case(rec, x, y, {"x": pl.Int16, "y": pl.Float32})
    else:
        # chosen statistics: every (t, degrees of freedom) of a grid
        n = case[1]
        x = [float((i * 7) % n) for i in range(n)]
        m, v = mean(x), var(x)
        df = pl.DataFrame({"x": x})
        for step in range(-60, 61):
            t = step * abs(step) / 60
            pop = m - t * math.sqrt(v / n)
            for alt in ALTS:
                rec.state()
                rec.trans(2)
                got = df.select(a=pds.ttest_1samp("x", pop, alt), b=pds.ttest_ind_from_stats("x", pop, v * (1 + step % 3), n + step % 4, alt)).to_dicts()[0]
                w1, w2 = t_one(m, v, n, pop, alt), t_welch(m, v, n, pop, v * (1 + step % 3), n + step % 4, alt)
                rec.check(pair(got["a"], w1), "one sample", lambda: f"t={t} n={n} {alt}: {got['a']} want {w1}")
                rec.check(pair(got["b"], w2), "against statistics", lambda: f"t={t} n={n} {alt} step={step}: {got['b']} want {w2}")
    rec.outcome(case)


# ---------------------------------------------------------------- Mann-Whitney
def mwu(x, y, alt):
    n1, n2 = len(x), len(y)
    n = n1 + n2
    cx, cy = Counter(x), Counter(y)
    u1 = sum(p * q * (1.0 if a > b else 0.5) for a, p in cx.items() for b, q in cy.items() if a >= b)
    mu = n1 * n2 / 2
    s = math.sqrt(max(0.0, n1 * n2 / 12 * ((n + 1) - sum(c**3 - c for c in (cx + cy).values()) / (n * (n - 1)))))
    u, f = {"two-sided": (max(u1, n1 * n2 - u1), 2), "less": (n1 * n2 - u1, 1), "greater": (u1, 1)}[alt]
    return u1, 1.0 if s == 0 else min(1.0, f * float(ndtr(-(u - mu - 0.5) / s)))


def mw_cases(tier):
    return [["pairs", a, b] for a in (0, 1, 2, None) for b in (0, 1, 2, NAN)] + [["words", k] for k in range(1, 6 if tier == "quick" else 7)] + [["long", n] for n in (*range(5, 200, 15), 600, 1500, 66_000, 140_000)]


def mw_one(rec, x, y, dts):
    fx, fy = fin(x), fin(y)
    if not fx or not fy:
        return
    rec.state()
    rec.trans(3)
    out = pl.DataFrame({"x": x, "y": y}, schema=dts).select(pds.mann_whitney_u("x", pl.col("y"), a).alias(a) for a in ALTS)
    for a in ALTS:
        w = mwu(fx, fy, a)
        rec.check(out.height == 1 and pair(out[a][0], w), f"Mann-Whitney|{a}", lambda: f"{a} {x} {y} {dts}: {out[a].to_list()} want {w}")


def mw_run(case, rec):
    if case[0] == "pairs":
        _, a, b = case
        for rx in product((0, 1, 2, None), repeat=2):
            for ry in product((0, 1, 2, math.inf), repeat=2):
                mw_one(rec, [a, *rx], [b, *ry], F64)
    elif case[0] == "words":
        n = case[1]
        for x in product((0, 1, 3), repeat=n):
            mw_one(rec, list(x), [v * 2 + i % 2 for i, v in enumerate(x)][::-1], {"x": pl.Int64, "y": pl.Int32})
            mw_one(rec, list(x), [(v + i) % 5 for i, v in enumerate(x)], {"x": pl.UInt8, "y": pl.Float32})
    else:
        n = case[1]
        for k in range(8):
            x = [(i * i * 7 + 3 * i) % (3 + 4 * k) for i in range(n)]
            y = [(i * 11) % 17 - 8 + k for i in range(n)]
            mw_one(rec, x, y, F64)
            mw_one(rec, x, [v if i % 4 else (None, NAN, -math.inf)[i % 3] for i, v in enumerate(y)], F64)
    rec.outcome(case)


# ---------------------------------------------------------------- Kolmogorov-Smirnov
def ks_cases(tier):
    return [["words", a, b] for a in (0, 3, 9, None) for b in (0, 5, 12, NAN)] + [["long", n] for n in (*range(25, 160, 7), 500, 2000, 70_000)] + [["binary", n] for n in (*range(40, 140, 10), 900, 70_000)]


def ks_want(x, y, alpha):
    n, m = len(x), len(y)
    if n < 30 or m < 30:
        return 0.0, NAN
    if n == 30 or m == 30:
        return None
    cx, cy = Counter(x), Counter(y)
    a = b = d = 0
    for v in sorted(cx | cy):
        a, b = a + cx[v], b + cy[v]
        d = max(d, abs(a / n - b / m))
    return d, math.sqrt(-0.5 * math.log(alpha / 2) * (n + m) / (n * m))


def ks_one(rec, x, y, dts, alpha=0.05):
    w = ks_want(fin(x), fin(y), alpha)
    if w is None:
        return
    rec.state()
    rec.trans()
    out = pl.DataFrame({"x": x, "y": y}, schema=dts).select(o=pds.ks_2samp("x", pl.col("y"), alpha))["o"].to_list()
    rec.check(len(out) == 1 and near(out[0]["statistic"], w[0]) and near(out[0]["pvalue"], w[1]), "Kolmogorov-Smirnov", lambda: f"{x} {y} {alpha} {dts}: {out} want {w}")


def ks_run(case, rec):
    if case[0] == "words":
        _, a, b = case
        base = [(i * 7) % 11 for i in range(30)]
        base2 = [(i * 5) % 13 for i in range(30)]
        for rx in product((0, 3, 9, None), repeat=2):
            for ry in product((0, 5, 12, math.inf), repeat=2):
                ks_one(rec, base + [a, *rx], base2 + [b, *ry], F64, 0.01)
    elif case[0] == "long":
        n = case[1]
        for k in range(10):
            x = [(i * i * 7 + 3 * i) % (5 + 3 * k) for i in range(n)]
            y = [(i * 11) % 17 + k for i in range(n)]
            ks_one(rec, x, y, F64, 0.05 + 0.03 * k)
            ks_one(rec, x, y, {"x": pl.Int32, "y": pl.UInt16})
            ks_one(rec, x, y, {"x": pl.Float32, "y": pl.Int64})
            ks_one(rec, sorted(x), [v if i % 5 else (None, NAN, -math.inf)[i % 3] for i, v in enumerate(y)], F64)
    else:
        n = case[1]
        for k in range(6):
            g = [(i * (k + 1)) % 5 % 2 for i in range(n)]
            v = [float((i * i + k * i) % 23) if i % 9 else NAN for i in range(n)]
            w = ks_want(fin([a for a, b in zip(v, g) if b]), fin([a for a, b in zip(v, g) if not b]), 0.1)
            if w is None:
                continue
            rec.state()
            rec.trans(2)
            df = pl.DataFrame({"g": g, "v": v})
            out = df.select(a=pds.ks_2samp("g", "v", 0.1, is_binary=True), b=pds.ks_2samp(pl.col("g").cast(pl.Float64), "v", 0.1, is_binary=True)).to_dicts()
            rec.check(len(out) == 1 and all(near(out[0][c]["statistic"], w[0]) and near(out[0][c]["pvalue"], w[1]) for c in "ab"), "Kolmogorov-Smirnov|binary", lambda: f"{v} by {g}: {out} want {w}")
    rec.outcome(case)


# ---------------------------------------------------------------- chi squared, F, normality
def chi_cases(tier):
    n = 6 if tier == "quick" else 7
    return [["words", k, a] for k in range(1, n + 1) for a in range(3)] + [["long", n] for n in (*range(10, 200, 19), 700, 2000, 70_000, 210_000)]


def chi_one(rec, x, y, dts):
    n = len(x)
    cx, cy, cxy = Counter(x), Counter(y), Counter(zip(x, y))
    ex = {(a, b): cx[a] * cy[b] / n for a in cx for b in cy}
    stat = sum((cxy[k] - e) ** 2 / e for k, e in ex.items())
    dof = (len(cx) - 1) * (len(cy) - 1)
    want = (stat, float(chdtrc(dof, stat)) if dof else 1.0)
    rec.state()
    rec.trans(2)
    df = pl.DataFrame({"x": x, "y": y}, schema=dts)
    out = df.select(o=pds.chi2("x", "y"))["o"].to_list()
    rec.check(len(out) == 1 and pair(out[0], want), "chi squared", lambda: f"{x} {y}: {out} want {want}")
    full = df.select(pds.chi2(pl.col("x"), pl.col("y"), return_full=True).alias("o")).unnest("o")
    rows = full.rows()
    ok = full.columns == ["statistic", "pvalue", "dof", "x", "y", "E[freq]"] and len(rows) == len(ex) and len({(r[3], r[4]) for r in rows}) == len(rows)
    ok = ok and all(pair(dict(statistic=r[0], pvalue=r[1]), want) and r[2] == dof and near(r[5], ex.get((r[3], r[4]), NAN)) for r in rows)
    rec.check(ok, "chi squared|full", lambda: f"{x} {y}: {full.columns} {rows} want {want} {dof} {ex}")


def f_one(rec, x, x2, g, dts):
    def ref(v):
        gs = {}
        for a, b in zip(v, g):
            gs.setdefault(b, []).append(a)
        n, k = len(v), len(gs)
        m = mean(v)
        ms = {b: mean(s) for b, s in gs.items()}
        ssb = sum(len(s) * (ms[b] - m) ** 2 for b, s in gs.items())
        ssw = math.fsum((a - ms[b]) ** 2 for b, s in gs.items() for a in s)
        if ssw < 1e-9:
            return None
        f = ssb / (k - 1) / (ssw / (n - k))
        return f, float(fdtrc(k - 1, n - k, f))

    if len(set(g)) < 2 or len(set(g)) == len(g):
        return
    rec.state()
    rec.trans(2)
    df = pl.DataFrame({"x": x, "x2": x2, "g": g}, schema=dts)
    w, w2 = ref(x), ref(x2)
    one = df.select(o=pds.f_test("x", group="g"))["o"].to_list()
    two = df.select(o=pds.f_test(pl.col("x"), "x2", group=pl.col("g")))["o"].to_list()
    if w is not None:
        rec.check(len(one) == 1 and pair(one[0], w), "F test", lambda: f"{x} by {g}: {one} want {w}")
        rec.check(len(two) == 2 and pair(two[0], w), "F test|several", lambda: f"{x} by {g}: {two} want {w}")
    if w2 is not None:
        rec.check(len(two) == 2 and pair(two[1], w2, 1e-5 if dts["x2"] == pl.Float32 else 1e-8), "F test|several", lambda: f"{x2} by {g}: {two} want {w2}")


def chi_run(case, rec):
    if case[0] == "words":
        _, k, a = case
        for i, rest in enumerate(product(range(3), repeat=k - 1)):
            g = [a, *rest]
            n = 3 if k < 5 else 2
            y = [(v * 2 + j * (i % 3) + (j * i) % 2) % n for j, v in enumerate(g)]
            chi_one(rec, ["pqr"[v] for v in g], y, {"x": pl.String, "y": pl.Int32})
            chi_one(rec, [bool(v) for v in g], ["uvw"[v] for v in y], {"x": pl.Boolean, "y": pl.String})
            f_one(rec, [(j * j + v) % 4 for j, v in enumerate(y)], y, ["pqr"[v] for v in g], {"x": pl.Float64, "x2": pl.Int64, "g": pl.String})
            f_one(rec, y, [(3 * v + j) % 5 for j, v in enumerate(g)], g, {"x": pl.UInt8, "x2": pl.Float32, "g": pl.Int16})
    else:
        n = case[1]
        for k in range(2, 8):
            g = [(i * i + i // 3) % k for i in range(n)]
            y = [(i * 7 + i // 5) % (9 - k) for i in range(n)]
            z = [v if i % 3 else (v + i) % (9 - k) for i, v in enumerate(y)]
            chi_one(rec, g, y, {"x": pl.Int64, "y": pl.Int8})
            chi_one(rec, y, z, {"x": pl.Int64, "y": pl.Int8})
            for s in (0, 1, 3):
                x = [(i * i * 7 + 3 * i) % 31 + s * v for i, v in enumerate(g)]
                f_one(rec, x, [(i * 11) % 17 + s * v * v for i, v in enumerate(g)], g, {"x": pl.Float64, "x2": pl.Int32, "g": pl.Int64})
    rec.outcome(case)


def normal_want(x):
    n = len(x)
    m = mean(x)
    m2, m3, m4 = (mean([(v - m) ** p for v in x]) for p in (2, 3, 4))
    g1, b2 = m3 / m2**1.5, m4 / m2**2
    y = g1 * math.sqrt((n + 1) * (n + 3) / (6 * (n - 2)))
    bb = 3 * (n * n + 27 * n - 70) * (n + 1) * (n + 3) / ((n - 2) * (n + 5) * (n + 7) * (n + 9))
    w2 = math.sqrt(2 * (bb - 1)) - 1
    z1 = math.asinh(y / math.sqrt(2 / (w2 - 1))) / math.sqrt(0.5 * math.log(w2))
    e = 3 * (n - 1) / (n + 1)
    v = 24 * n * (n - 2) * (n - 3) / ((n + 1) ** 2 * (n + 3) * (n + 5))
    q = (b2 - e) / math.sqrt(v)
    sb = 6 * (n * n - 5 * n + 2) / ((n + 7) * (n + 9)) * math.sqrt(6 * (n + 3) * (n + 5) / (n * (n - 2) * (n - 3)))
    a = 6 + 8 / sb * (2 / sb + math.sqrt(1 + 4 / sb**2))
    den = 1 + q * math.sqrt(2 / (a - 4))
    z2 = (1 - 2 / (9 * a) - math.copysign(abs((1 - 2 / a) / den) ** (1 / 3), den)) / math.sqrt(2 / (9 * a))
    k2 = z1 * z1 + z2 * z2
    return k2, math.exp(-k2 / 2)


def norm_cases(tier):
    return [["words", a] for a in (0, 1, 7, 30, None)] + [["long", n] for n in (*range(20, 400, 20), 1500, 10_000, 70_000)] + [["short"]]


def norm_one(rec, x, dt):
    f = fin(x)
    rec.state()
    rec.trans()
    r = outcome_of(lambda: pl.DataFrame({"x": x}, schema={"x": dt}).select(o=pds.normal_test("x"))["o"].to_list())
    if len(f) < 20:
        rec.check(r[0] == "err", "normality|short", lambda: f"{x}: {r}")
        return
    w = normal_want(f)
    rec.check(r[0] != "err" and len(r[1]) == 1 and pair(r[1][0], w), "normality", lambda: f"{x} {dt}: {r} want {w}")


def norm_run(case, rec):
    base = [(i * i * 3 + i) % 17 for i in range(17)]
    if case[0] == "words":
        for rest in product((0, 7, 30, NAN), repeat=3):
            norm_one(rec, [float(v) for v in base] + [case[1] if case[1] is None else float(case[1]), *rest], pl.Float64)
    elif case[0] == "long":
        n = case[1]
        for k in range(1, 12):
            x = [((i * k * 7) % 31) ** (1 + k % 3) % 97 + (1000 * (i == 3) if k == 5 else 0) for i in range(n)]
            if len(set(x)) > 2:
                norm_one(rec, x, pl.Int64)
                norm_one(rec, x, pl.Float64)
    else:
        for n in range(4, 20):
            norm_one(rec, [float(v) for v in range(n)] + [NAN] * 5 + [None], pl.Float64)
        df = pl.DataFrame({"x": [1.0, 2.0, 3.0], "g": [1, 1, 1]})
        rec.trans(2)
        rec.check(outcome_of(lambda: df.select(pds.f_test("x", group="g")))[0] == "err", "F test|one group", "")
        rec.check(outcome_of(lambda: pds.f_test(group="g"))[0] == "err", "F test|no variable", "")
    rec.outcome(case)


# ---------------------------------------------------------------- many categories and many groups
def many_cases(tier):
    return [[n, g] for n, g in ((2000, 40), (9000, 90), (20000, 30), (20000, 300), (70000, 150), (70000, 7000), (100000, 30000))]


def many_run(case, rec):
    """Tables of up to 300 x 300 and up to 30,000 groups: hundreds to ten thousands of degrees of freedom."""
    n, g = case
    i = np.arange(n, dtype=np.int64)
    grp = i * i * 7 % 10007 * 13 % g if g <= 300 else i % g
    grp = np.unique(grp, return_inverse=True)[1]
    k = int(grp.max()) + 1
    cnt = np.bincount(grp)
    for salt in (3, 8, 21):
        base = ((i * i * salt + 5 * i) % 1009 + i * salt % 17).astype(float)
        for lift in (0.0, 0.5, 3.0):
            x = np.floor(base + lift * (grp % 11))
            m = np.bincount(grp, x) / cnt
            ssb, ssw = float((cnt * (m - x.mean()) ** 2).sum()), float(((x - m[grp]) ** 2).sum())
            f = (ssb / (k - 1)) / (ssw / (n - k))
            rec.state()
            rec.trans()
            got = pl.DataFrame({"x": x, "g": grp}).select(pds.f_test("x", group="g").alias("o"))["o"][0]
            p = float(fdtrc(k - 1, n - k, f))
            rec.check(math.isclose(got["statistic"], f, rel_tol=1e-9) and math.isclose(got["pvalue"], p, rel_tol=1e-6, abs_tol=1e-9), "F test|many groups", lambda: f"{case} {salt} {lift}: {got} want {f} {p}")
            rec.outcome((case[1], round(p, 3)))
        if g <= 300:
            for step in (0, 40, 7):
                y = (i * salt + i * i // 5) % k
                y = np.where(i % 50 < step // 4, (y + grp) % k, y)
                table = np.zeros((k, k))
                np.add.at(table, (grp, y), 1)
                table = table[:, table.sum(0) > 0]
                e = table.sum(1)[:, None] * table.sum(0)[None] / n
                stat = float(((table - e) ** 2 / e).sum())
                df = (table.shape[0] - 1) * (table.shape[1] - 1)
                rec.state()
                rec.trans()
                got = pl.DataFrame({"a": grp, "b": y}).select(pds.chi2("a", "b").alias("o"))["o"][0]
                p = float(chdtrc(df, stat))
                rec.check(math.isclose(got["statistic"], stat, rel_tol=1e-9) and math.isclose(got["pvalue"], p, rel_tol=1e-6, abs_tol=1e-9), "chi squared|many categories", lambda: f"{case} {salt} {step}: {got} want {stat} {p}")
                rec.outcome((df, round(p, 3)))


FAMILIES = [
    Family("many groups", many_cases, many_run, "up to 100,000 rows in up to 30,000 groups and tables of up to 300 x 300 categories, associated and not: p-values for up to 90,000 degrees of freedom"),
    Family("t", t_cases, t_run, "every pair of columns of 3 values with nulls, NaN and infinities; every column of 2 to 5 (6) of 3 values as integers and Float32; lengths to 70,000; a grid of t x degrees of freedom; 3 alternatives"),
    Family("mann-whitney", mw_cases, mw_run, "every pair of columns of 3 values with nulls and infinities; every column of up to 5 (6) of 3 values; lengths to 140,000"),
    Family("kolmogorov-smirnov", ks_cases, ks_run, "every pair of endings of 3 values behind 30 fixed ones; lengths 25 to 160, 2000 and 70,000 in several types; binary splits"),
    Family("tables", chi_cases, chi_run, "every grouping of up to 6 (7) rows into 3 x associated columns: chi squared and F test; lengths to 210,000, up to 7 groups"),
    Family("normality", norm_cases, norm_run, "every ending of 4 of {0,7,30,NaN}; lengths 20 to 400 and to 70,000; fewer than 20 values refused"),
]
