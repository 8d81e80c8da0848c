"""P34: plots show the numbers they claim to show."""
import math
import re
import warnings
from itertools import combinations, product

import altair as alt
import polars as pl

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from polars_ds.eda import plots as P
    from polars_ds.eda.diagnosis import DIA

from ..core import Family, outcome_of
from .p33 import near, qrange, some

NAN = math.nan


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return outcome_of(f, *a, **k)


def tables(c):
    """The data frames of a chart, in order of layers and rows."""
    if isinstance(c, alt.VConcatChart):
        return [t for x in c.vconcat for t in tables(x)]
    own = [c.data] if isinstance(c.data, pl.DataFrame) else []
    return own + ([t for x in c.layer for t in tables(x)] if isinstance(c, alt.LayerChart) else [])


def titles(c):
    return [t for x in c.layer for t in [x.encoding.x._kwds.get("title")] if isinstance(t, list)]


# ---------------------------------------------------------------- distributions
def distr_cases(tier):
    return [[a, n] for a in (None, 0.0, 1.0, -2.0, NAN, math.inf) for n in range(0, 4 if tier == "quick" else 5)] + [["long", n] for n in (20, 37, 100, 1100)] + [["bad"]]


def distr_one(rec, xs):
    n = len(xs)
    df = pl.DataFrame({"x": xs, "g": ["ab"[i * i % 3 % 2] if i % 4 != 3 else None for i in range(n)], "o": [0] * n}, schema_overrides={"x": pl.Float64})
    bad = lambda v: sum(a is None or a != a or math.isinf(a) for a in v) / len(v)
    ctx = lambda: f"{xs}"
    for frame in (df, df.lazy()):
        for density in (False, True):
            rec.state()
            rec.trans(3)
            for c in (quiet(lambda: P.plot_feature_distr(feature="x", df=frame, n_bins=4, density=density)), quiet(lambda: DIA(frame).plot_feature_distr("x", density=density)),
                      quiet(lambda: P.plot_feature_distr(feature=pl.Series(xs, dtype=pl.Float64), n_bins=7, density=density))):
                if not rec.check(c[0] == "ok", "distribution|error", lambda: f"{xs}: {c[1]}"):
                    continue
                t = tables(c[1])
                rec.check(len(t) == 3 and t[0].to_series(0).equals(df["x"].alias(t[0].columns[0]), null_equal=True), "distribution|data", lambda: f"{xs}: {t}")
                rec.check(near(t[2]["pcts"].item(), bad(xs)), "distribution|bad values", lambda: f"{xs}: {t[2]}")
                v = some(xs)
                if v and not any(a != a or math.isinf(a) for a in v):
                    st = dict(zip(t[1]["names"], t[1]["stats"]))
                    s = sorted(v)
                    rec.check(near(st["avg"], math.fsum(v) / len(v)) and near(st["median"], (s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2) and st["p5"] in qrange(v, 0.05) and st["p95"] in qrange(v, 0.95), "distribution|statistics", lambda: f"{xs}: {st}")
            c = quiet(lambda: P.plot_feature_distr(feature="x", df=frame, n_bins=4, density=density, show_bad_values=False))
            rec.check(c[0] == "ok" and len(tables(c[1])) == 2, "distribution|without bad values", ctx)
            c = quiet(lambda: P.plot_feature_distr(feature="x", df=frame, n_bins=4, density=density, over="g"))
            if rec.check(c[0] == "ok", "distribution|over", lambda: f"{xs}: {c[1]}"):
                t = tables(c[1])
                want = {}
                for g, a in zip(df["g"], xs):
                    want.setdefault(g, []).append(a)
                got = dict(t[1].rows())
                rec.check(set(got) == set(want) and all(near(got[g], bad(want[g])) for g in want) and t[0].columns == ["x", "g"] and t[0]["g"].equals(df["g"], null_equal=True), "distribution|over groups", lambda: f"{xs}: {t}")
    # conditions of the inspection assistant
    for lo, hi, flt in ((0.0, None, None), (None, 0.0, None), (-1.0, 1.0, pl.col("g") == "a"), (None, None, pl.col("g") == "a")):
        rec.state()
        rec.trans()
        keep = [i for i, (a, g) in enumerate(zip(xs, df["g"])) if (lo is None or a is not None and (a >= lo or a != a)) and (hi is None or a is not None and a <= hi) and (flt is None or g == "a")]
        c = quiet(lambda: DIA(df).plot_feature_distr("x", n_bins=5, min_=lo, max_=hi, filter_by=flt))
        if keep:
            rec.check(c[0] == "ok" and tables(c[1])[0]["x"].equals(df[keep]["x"], null_equal=True), "distribution|conditions", lambda: f"{xs} {lo} {hi}: {c[1]}")


def distr_run(case, rec):
    if case[0] == "bad":
        df = pl.DataFrame({"x": [1.0, 2.0], "s": ["a", "b"]})
        for f in (lambda: P.plot_feature_distr(feature="x", df=df, n_bins=2), lambda: P.plot_feature_distr(feature="x"), lambda: P.plot_feature_distr(feature=[1.0], over="s"), lambda: DIA(df).plot_feature_distr("s", n_bins=5),
                  lambda: P.plot_pca(df, ["x"], by="s"), lambda: P.plot_pca(df, ["x", "x"], by="s", dim=4),
                  lambda: P.plot_roc_auc(target=[0, 1], pred=pl.Series([0.1, 0.2])), lambda: P.plot_roc_auc(target=[0, 1]), lambda: P.plot_roc_auc(target=[0, 1], preds=[pl.Series([0.1, 0.2])], names=["a", "b"]), lambda: P.plot_roc_auc(target=[0, 1, 1], pred=pl.Series([0.1, 0.2]), name="a"),
                  lambda: P.plot_prob_calibration(target=[0, 1], score=pl.Series([0.1, 0.2])), lambda: P.plot_prob_calibration(target=[0, 1]), lambda: P.plot_prob_calibration(target=[0, 1], scores=[pl.Series([0.1, 0.2])], names=[]), lambda: P.plot_prob_calibration(target=[0, 1, 1], score=pl.Series([0.1, 0.2]), name="a")):
            rec.state()
            rec.trans()
            rec.check(quiet(f)[0] == "err", "argument not refused", "")
        return
    if case[0] == "long":
        n = case[1]
        for k in (3, 5, 7):
            distr_one(rec, [None if i % 11 == 4 else float(i * i * k % 53) for i in range(n)])
        return
    a, n = case
    for rest in product((None, 0.0, 1.0, NAN) if n < 3 else (None, 2.0), repeat=n):
        distr_one(rec, [a, *rest])
    rec.outcome(case)


# ---------------------------------------------------------------- regression lines
def reg_cases(tier):
    return [[n] for n in range(2, 6 if tier == "quick" else 8)] + [["long", n] for n in (20, 33, 50, 700)]


def reg_one(rec, x, y, w):
    n = len(x)
    df = pl.DataFrame({"x": x, "y": y, "w": w, "other": ["?"] * n})
    for bias, weights in product((False, True), (None, "w")):
        ww = w if weights else [1.0] * n
        sw = sum(ww)
        if bias:
            mx, my = sum(a * b for a, b in zip(ww, x)) / sw, sum(a * b for a, b in zip(ww, y)) / sw
        else:
            mx = my = 0.0
        sxx = sum(c * (a - mx) ** 2 for a, c in zip(x, ww))
        if sxx < 1e-12:
            continue
        b = sum(c * (a - mx) * (d - my) for a, d, c in zip(x, y, ww)) / sxx
        a0 = my - b * mx
        pred = [b * v + a0 for v in x]
        m = sum(y) / n
        sst = sum((v - m) ** 2 for v in y)
        rec.state()
        rec.trans(3)
        for frame, cap in ((df, 20000), (df.lazy(), 20000), (df, max(1, n - 2))):
            c = quiet(lambda: P.plot_lin_reg(frame, "x", "y", add_bias=bias, weights=weights, max_points=cap))
            if not rec.check(c[0] == "ok", "regression|error", lambda: f"{x} {y}: {c[1]}"):
                continue
            t = tables(c[1])[0]
            rows = {(float(p), float(q)): r for p, q, r in zip(x, y, pred)}
            got = t.select("x", "y", "y_pred").rows()
            rec.check(len(got) == min(n, cap) and all((p, q) in rows and near(r, rows[p, q], 1e-9) for p, q, r in got) and (cap < n or [g[0] for g in got] == x), "regression|points", lambda: f"{x} {y} weights {weights} bias {bias}: {got} want {rows}")
            if sst > 1e-9:
                r2 = 1 - sum((u - v) ** 2 for u, v in zip(y, pred)) / sst
                eq = titles(c[1])[0][1]
                left, right = eq.split(", r2 = ")
                lead, _, tail = left[4:].partition(" * x")
                sign = -1 if tail.startswith(" -") else 1
                shown = float(tail[3:]) * sign if tail else 0.0
                rec.check(eq.startswith("y = ") and abs(float(lead) - b) < 6e-5 and abs(shown - a0) < 6e-5 and abs(float(right) - r2) < 6e-5, "regression|equation", lambda: f"{x} {y} weights {weights} bias {bias}: {eq} want {b} {a0} {r2}")
            c = quiet(lambda: P.plot_lin_reg(frame, "x", "y", add_bias=bias, weights=weights, show_lin_reg_eq=False))
            rec.check(c[0] == "ok" and titles(c[1]) == [["x"]], "regression|no equation", "")


def reg_run(case, rec):
    if case[0] == "long":
        n = case[1]
        for k in (1, 3, 5):
            reg_one(rec, [float(i * k % 17) for i in range(n)], [float(i * i * k % 23) - 7 for i in range(n)], [0.5 + i % 4 for i in range(n)])
        return
    n = case[0]
    for y in product((-1.0, 0.0, 2.0), repeat=n):
        reg_one(rec, [float(i * i % 5) - 1 for i in range(n)], list(y), [1.0 + i % 2 for i in range(n)])
    rec.outcome(n)


# ---------------------------------------------------------------- ROC curves
def roc_cases(tier):
    return [[n, k] for n in range(2, 6 if tier == "quick" else 8) for k in range(2)] + [["long", n] for n in (30, 200, 1300)]


def curve_of(t, s):
    P_, N_ = sum(t), len(t) - sum(t)
    pts = [(0.0, 0.0)]
    for th in sorted(set(s), reverse=True):
        pts.append((sum(a and b >= th for a, b in zip(t, s)) / P_, sum((not a) and b >= th for a, b in zip(t, s)) / N_))
    return pts, sum((b[1] - a[1]) * (a[0] + b[0]) / 2 for a, b in zip(pts, pts[1:]))


def roc_one(rec, t, s):
    rec.state()
    rec.trans(2)
    other = [1 - v for v in s]
    third = s[1:] + s[:1]
    one = quiet(lambda: P.plot_roc_auc(target=t, pred=pl.Series(s), name="model"))
    two = quiet(lambda: P.plot_roc_auc(target=pl.Series(t), preds=[pl.Series(s), other, third], names=["model", "other", "a third"], n_decimals=6))
    off = quiet(lambda: P.plot_roc_auc(target=t, pred=pl.Series(s), name="model", show_auc=False)) if len(t) < 4 else one
    ctx = lambda: f"{t} {s}: {one[1]} {two[1]} {off[1]}"
    if not rec.check(one[0] == two[0] == off[0] == "ok", "roc|error", ctx):
        return
    single, several = [("model", s)], [("model", s), ("other", other), ("a third", third)]
    for c, dec, want in ((one[1], 4, single), (two[1], 6, several), (off[1], None if off is not one else 4, single)):
        tb = tables(c)[-1]
        names = tb["name"].unique(maintain_order=True).to_list()
        rec.check(len(names) == len(want), "roc|count", lambda: f"{t} {s}: {names}")
        for (name, score) in want:
            pts, auc = curve_of(t, score)
            shown = [v for v in names if v == name or v.startswith(name + " (")]
            if not rec.check(len(shown) == 1, "roc|name", lambda: f"{t} {s}: {names}"):
                continue
            got = tb.filter(pl.col("name") == shown[0]).select("tpr", "fpr").rows()
            dedupe = [p for i, p in enumerate(got) if i == 0 or p != got[i - 1]]
            rec.check(len(dedupe) == len(pts) and all(near(a, b) and near(c_, d) for (a, c_), (b, d) in zip(dedupe, pts)), f"roc|curve of {name}", lambda: f"{t} {score}: {got} want {pts}")
            if dec is None:
                rec.check(shown == [name], "roc|name", lambda: names)
            else:
                rec.check("AUC = " in shown[0] and abs(float(shown[0].split("AUC = ")[1].rstrip(")")) - auc) <= 0.51 * 10**-dec, f"roc|auc of {name}", lambda: f"{t} {score}: {shown[0]} want {auc}")


def roc_run(case, rec):
    if case[0] == "long":
        n = case[1]
        for k in (3, 5, 11):
            roc_one(rec, [(i * i * k) % 7 < 3 and 1 or 0 for i in range(n)], [(i * k % 23) / 23 for i in range(n)])
        return
    n, k = case
    for t in product((0, 1), repeat=n):
        if t[0] == k and 0 < sum(t) < n:
            for s in product((0.25, 0.5, 0.75) if n < 4 else (0.25, 0.75), repeat=n):
                roc_one(rec, list(t), list(s))
    rec.outcome(case)


# ---------------------------------------------------------------- calibration, principal components
def cal_cases(tier):
    return [[n, b] for n in (*range(2, 9), 20, 40, 41, 100) for b in (2, 3, 4, 5, 10, 12)] + [["pca", n] for n in (3, 4, 5, 8, 30)]


def quantile_bins(t, s, b):
    """{bin: [(score, target)]}, None if rounding decides where a score falls"""
    n, srt, brk = len(s), sorted(s), []
    for j in range(1, b):
        p = (n - 1) * j / b
        lo = min(math.floor(p), n - 1)
        brk.append(srt[lo] + (p - lo) * (srt[min(lo + 1, n - 1)] - srt[lo]))
    bins = {}
    for a, v in zip(t, s):
        if any(abs(v - q) < 1e-12 for q in brk):
            return None
        bins.setdefault(sum(v > q for q in brk), []).append((v, a))
    return bins


def cal_run(case, rec):
    if case[0] == "pca":
        n = case[1]
        import polars_ds as pds
        for k in (1, 2, 5):
            df = pl.DataFrame({"i": range(n), "a": [float(i * k % 7) for i in range(n)], "b": [float(i * i % 5) for i in range(n)], "c": [float(i % 3) * k for i in range(n)], "g": ["uv"[i % 2] for i in range(n)]})
            for frame, feats, center, flt, cap in product((df, df.lazy()), (["a", "b"], ["c", "a", "b"]), (True, False), (None, pl.col("i") != 1), (10_000, 2)):
                rec.state()
                rec.trans(2)
                use = df if flt is None else df.filter(flt)
                want = {(g, round(p, 9), round(q, 9)) for p, q, g in use.select(pds.principal_components(*feats, center=center, k=2).alias("pc"), "g").unnest("pc").rows()}
                c = quiet(lambda: P.plot_pca(frame, feats, "g", center=center, filter_by=flt, max_points=cap))
                if rec.check(c[0] == "ok", "pca|error", lambda: f"{c[1]}"):
                    got = tables(c[1])[0]
                    rec.check(got.columns == ["pc1", "pc2", "g"] and len(got) == min(cap, len(use)) and all((g, round(p, 9), round(q, 9)) in want for p, q, g in got.rows()), "pca|points", lambda: f"{got.rows()} want {want}")
        return
    n, b = case
    for k in (1, 3, 7):
        # scores all different: bins by rank
        s = [((i * 2 + 1) * k % (2 * n + 1) + 1) / (2 * n + 3) for i in range(n)]
        if len(set(s)) < n:
            continue
        t = [(i * i * k) % 5 % 2 for i in range(n)]
        second = s[::-1]
        rec.state()
        rec.trans(2)
        one = quiet(lambda: P.plot_prob_calibration(target=t, score=pl.Series(s), name="m", n_bins=b))
        two = quiet(lambda: P.plot_prob_calibration(target=pl.Series(t), scores=[pl.Series(s), second], names=["m", "r"], n_bins=b))
        if not rec.check(one[0] == two[0] == "ok", "calibration|error", lambda: f"{s}: {one[1]} {two[1]}"):
            continue
        line = tables(one[1])[0]
        rec.check(line["mean_predicted_prob"].to_list() == line["fraction_of_positives"].to_list(), "calibration|diagonal", "")
        for c, name, score in ((one[1], "m", s), (two[1], "m", s), (two[1], "r", second)):
            tb = tables(c)[1]
            rec.check(set(tb["score"].to_list()) == ({"m"} if c is one[1] else {"m", "r"}), "calibration|names", lambda: f"{tb}")
            got = tb.filter(pl.col("score") == name).select("mean_predicted_prob", "fraction_of_positives").rows()
            bins = quantile_bins(t, score, b)
            if bins is None:
                rec.check(len(got) <= b and all(0 <= p <= 1 and 0 <= q <= 1 for p, q in got), "calibration|range", lambda: f"{s}: {got}")
                continue
            want = [(sum(v for v, _ in bins[j]) / len(bins[j]), sum(a for _, a in bins[j]) / len(bins[j])) for j in sorted(bins)]
            rec.check(len(got) == len(want) and all(near(p, x) and near(q, y) for (p, q), (x, y) in zip(got, want)), f"calibration|points of {name}", lambda: f"{score} {t} bins {b}: {got} want {want}")
    rec.outcome(case)


# ---------------------------------------------------------------- correlations
def corr_cases(tier):
    return [[m, n] for m in ("pearson", "spearman", "xi", "kendall", "bicor") for n in ((2, 3, 4, 9) if tier == "quick" else (2, 3, 4, 5, 6, 9, 12, 40))]


CORR = {
    "up": lambda i: float(i), "down": lambda i: -2.0 * i, "same": lambda i: 3.0, "zigzag": lambda i: float(i * 7 % 5), "near": lambda i: i + 0.1 * (i % 2),
    "gaps": lambda i: None if i % 3 == 1 else i * i * 1.0, "nan": lambda i: NAN if i == 1 else 1.0 * i, "whole": lambda i: 5 - i,
}


def corr_run(case, rec):
    method, n = case
    df = pl.DataFrame({c: [f(i) for i in range(n)] for c, f in CORR.items()})
    df = df.with_columns(pl.col("whole").cast(pl.Int32))
    names = [c for c in CORR if method != "xi" or c in ("up", "down", "near", "whole")]  # xi breaks ties at random
    for cols in [names] + [list(c) for k in (1, 2) for c in combinations(names, k)]:
        for frame in (df, df.lazy()):
            rec.state()
            rec.trans(2)
            want, got = quiet(lambda: DIA(frame).corr(cols, method)), quiet(lambda: DIA(frame).plot_corr(cols, method).as_raw_html())
            rec.outcome((want[0], got[0]))
            if not rec.check(want[0] == got[0], "correlations|outcome", lambda: f"{method} of {n} rows {cols}: {got[1]}, values {want[1]}") or got[0] != "ok":
                continue
            head = re.findall(r"<th [^>]*>(.*?)</th>", got[1], re.S)
            cells = re.findall(r"<td( style=[^>]*)? headers=\"([^\"]*)\"[^>]*>(.*?)</td>", got[1], re.S)
            W = len(want[1].columns)
            rec.check(head == want[1].columns and [c[1] for c in cells] == want[1].columns * want[1].height, "correlations|cells", lambda: f"{head} {cells}")
            seen = []
            for (style, c, text), v in zip(cells, [v for r in want[1].rows() for v in r]):
                if c == "column":
                    rec.check(text == v, "correlations|names", lambda: f"{text} want {v}")
                    continue
                color = re.search(r"background-color: #(\w{6})", style)
                color = color and color[1].lower()
                nothing = v is None or v != v
                rec.check(text in (("NaN", "nan", "None") if nothing else (f"{v:.3f}".replace("-", "\u2212"), f"{abs(v):.3f}") if abs(v) < 5e-4 else (f"{v:.3f}".replace("-", "\u2212"),)), "correlations|values", lambda: f"{method} of {n} rows: {c} shows {text} for {v}")
                if nothing:
                    rec.check(color == "000000", "correlations|no value", lambda: f"{c}: {color}")
                elif abs(abs(v) - 1) < 1e-9 and abs(v) <= 1:
                    rec.check(color == ("bd0237" if v > 0 else "0202bd"), "correlations|ends", lambda: f"{method} {c}: {v} has {color}")
                if not nothing and abs(v) <= 1 and color:
                    seen.append((v, int(color[:2], 16), -int(color[4:], 16)))
            seen.sort()
            rec.check(all(a[1] <= b[1] and a[2] <= b[2] for a, b in zip(seen, seen[1:]) if b[0] - a[0] > 1e-9), "correlations|colors", lambda: f"{seen}")


FAMILIES = [
    Family("distributions", distr_cases, distr_run, "every column of up to 4 (5) values incl. null, NaN and infinity, and longer ones x histogram and density x frame, lazy frame, Series and inspection assistant x with and without groups; conditions; refusals of all plots"),
    Family("regression lines", reg_cases, reg_run, "every target of 2 to 5 (7) of 3 values, lengths to 700 x bias x weights x all and sampled points: points, line, equation"),
    Family("roc curves", roc_cases, roc_run, "every target and score column of 2 to 5 (7) of 2 or 3 scores, lengths to 1300: curve and area"),
    Family("calibration", cal_cases, cal_run, "11 lengths x 6 numbers of bins; principal component plots of 5 lengths x options"),
    Family("correlations", corr_cases, corr_run, "5 methods x 4 (8) lengths x every one, two and all of 8 columns (monotone, constant, with nulls, NaN, integer): numbers, names and colours of the table"),
]
