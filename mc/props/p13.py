"""P13: ROC AUC, Gini, average precision, TPR/FPR curves and multi-class AUC by counting pairs."""
from itertools import product
from collections import Counter
import math

import polars as pl
import polars_ds as pds
from polars_ds.exprs.metrics import query_gini

from ..core import Family, outcome_of

NAN = float("nan")


def ref_auc(y, s):
    pos, neg = [b for a, b in zip(y, s) if a], [b for a, b in zip(y, s) if not a]
    if not pos or not neg:
        return None if pos else NAN
    cp, cn = Counter(pos), Counter(neg)
    below = won = 0  # twice the pairs won
    for v in sorted(cp | cn):
        won += cp[v] * (2 * below + cn[v])
        below += cn[v]
    return won / 2 / (len(pos) * len(neg))


def ref_curve(y, s):
    P, N = sum(y), len(y) - sum(y)
    cp, cn = Counter(b for a, b in zip(y, s) if a), Counter(b for a, b in zip(y, s) if not a)
    out, tp, fp = [], 0, 0
    for t in sorted(set(s), reverse=True):
        tp, fp = tp + cp[t], fp + cn[t]  # those at or above t
        out.append((t, tp / P, fp / N if N else NAN, tp / (tp + fp)))
    return out[::-1]


def ref_ap(y, s):
    prev, ap = 0.0, 0.0
    for _, r, _, p in reversed(ref_curve(y, s)):
        ap += (r - prev) * p
        prev = r
    return ap


def at_threshold(y, s, t):
    P = sum(y)
    tp = sum(1 for a, b in zip(y, s) if a and b >= t)
    pp = sum(1 for b in s if b >= t)
    prec = tp / pp if pp else NAN
    rec = tp / P
    f = 2 * prec * rec / (prec + rec) if prec + rec else NAN
    return prec, rec, f


def one(rec, y, s, ts, tag, cast=pl.Float64):
    df = pl.DataFrame({"y": y, "s": s}, schema={"y": pl.Int64, "s": cast})
    rec.state()
    rec.trans(3 + len(ts))
    P = sum(y)
    out = df.select(auc=pds.query_roc_auc("y", "s"), gini=query_gini("y", "s"), c=pds.query_tpr_fpr("y", "s").implode(),
                    **{f"m{i}": pds.query_binary_metrics("y", "s", threshold=t) for i, t in enumerate(ts)}).row(0, named=True)
    ctx = f"y={y} s={s}" if len(y) < 12 else f"{tag} n={len(y)}"
    auc = ref_auc(y, s)
    if auc is not None:
        rec.same(out["auc"], auc, f"{tag}|auc", ctx)
        rec.same(out["gini"], 2 * auc - 1, f"{tag}|gini", ctx)
    if not P:
        return
    want = ref_curve(y, s)
    if auc is not None:
        rec.same([tuple(c.values()) for c in out["c"]], [w[:3] for w in want], f"{tag}|curve", ctx)
    else:
        rec.same([(c["threshold"], c["tpr"]) for c in out["c"]], [w[:2] for w in want], f"{tag}|curve", ctx)
    ap = ref_ap(y, s)
    for i, t in enumerate(ts):
        m = out[f"m{i}"]
        p, r, f = at_threshold(y, s, t)
        rec.same(m["average_precision"], ap, f"{tag}|ap", ctx)
        if auc is not None:
            rec.same(m["roc_auc"], auc, f"{tag}|combo-auc", ctx)
        rec.same([m["precision"], m["recall"]], [p, r], f"{tag}|precision-recall", f"{ctx} t={t}")
        rec.same(m["f"], f, f"{tag}|f", f"{ctx} t={t}")
    rec.outcome((auc, ap))


def small_cases(tier):
    for n, levels in ((1, 3), (2, 3), (3, 3), (4, 3), (5, 3)) + (((6, 3), (7, 2)) if tier != "quick" else ((6, 2),)):
        for y in product((0, 1), repeat=n):
            yield [levels, list(y)]


LEVELS = [0.25, 0.5, 0.75]


def small_run(case, rec):
    levels, y = case
    for s in product(LEVELS[:levels], repeat=len(y)):
        one(rec, y, list(s), [0.2, 0.5, 0.6, 0.9], "small")


def size_cases(tier):
    for n in (10, 33, 257, 1000, 5000, 150_000) + ((20000,) if tier != "quick" else ()):
        for lv in (2, 7, 50, n):
            for frac in (2, 5, n):
                yield [n, lv, frac]


def size_run(case, rec):
    n, lv, frac = case
    y = [int((i * 7 + i // 3) % frac == 0) for i in range(n)]
    k = [(i * 13 + (i * i) % 11) % lv for i in range(n)]
    for tag, cast, s in (("f64", pl.Float64, [v / lv for v in k]), ("int", pl.Int32, k), ("negative", pl.Float64, [v / 4 - lv / 8 for v in k])):
        if n <= 2000 or n > 20000:
            one(rec, y, s, [0.0, 0.5, max(s)], tag, cast)
        else:
            df = pl.DataFrame({"y": y, "s": s})
            from sklearn.metrics import average_precision_score, roc_auc_score

            rec.state()
            rec.trans(2)
            rec.same(df.select(pds.query_roc_auc("y", "s")).item(), float(roc_auc_score(y, s)), f"{tag}|auc", case)
            rec.same(df.select(pds.query_binary_metrics("y", "s")).item()["average_precision"], float(average_precision_score(y, s)), f"{tag}|ap", case)


def refuse_cases(tier):
    return [[n] for n in (1, 2, 3, 4)]


def refuse_run(case, rec):
    (n,) = case
    for y in product((0, 1, None), repeat=n):
        for s in product((0.25, 0.75, None), repeat=n):
            if None not in y + s or not any(y):
                continue
            df = pl.DataFrame({"y": y, "s": s}, schema={"y": pl.Int64, "s": pl.Float64})
            rec.state()
            for nm, e in (("auc", pds.query_roc_auc("y", "s")), ("combo", pds.query_binary_metrics("y", "s")), ("curve", pds.query_tpr_fpr("y", "s"))):
                rec.trans()
                o = outcome_of(lambda: df.select(e))
                rec.check(o[0] == "err", f"null-accepted|{nm}", lambda: f"{df.rows()} {nm}: {o}")
    for s in product((0.25, 0.75), repeat=n):
        df = pl.DataFrame({"y": [0] * n, "s": s})
        rec.trans(2)
        rec.check(math.isnan(df.select(pds.query_roc_auc("y", "s")).item()), "no-positive", s)
        rec.check(all(math.isnan(v) for v in df.select(pds.query_binary_metrics("y", "s")).item().values()), "no-positive-combo", s)


def multi_cases(tier):
    for n, c in ((3, 2), (4, 2), (3, 3), (4, 3)) + (((5, 3),) if tier != "quick" else ()):
        for y in product(range(c), repeat=n):
            if len(set(y)) == c:
                yield [n, c, list(y)]
    for n in (20, 61, 130, 1001, 70_000, *(() if tier == "quick" else (*range(21, 60, 4), 3000))):
        for c in (2, 3, 4, 7, 10):
            yield [n, c, "long"]


PROBS = [[0.2, 0.3, 0.5], [0.5, 0.2, 0.3], [0.3, 0.5, 0.2], [0.2, 0.5, 0.3]]


def multi_run(case, rec):
    n, c, y = case
    if y == "long":
        y = [(i * i * 3 + i // 2 + i // 5) % c if i >= c else i for i in range(n)]
        for lv in (2, 5, 17, 1000):
            p = [[((i * 5 + k * k * 3 + i * k + (3 if y[i] == k else 0)) % lv + 1) for k in range(c)] for i in range(n)]
            p = [[v / 1024 for v in r] for r in p]
            aucs = [ref_auc([int(a == k) for a in y], [r[k] for r in p]) for k in range(c)]
            for dt in (pl.Int64, pl.UInt32, pl.UInt8):
                rec.state()
                rec.trans(2)
                got = pl.DataFrame({"y": y, "p": p}, schema_overrides={"y": dt}).select(m=pds.query_multi_roc_auc("y", "p", c, "macro"), w=pds.query_multi_roc_auc("y", "p", c, "weighted")).row(0)
                rec.same(got[0], sum(aucs) / c, "macro|long", (n, c, lv))
                rec.same(got[1], sum(a * y.count(k) for k, a in enumerate(aucs)) / n, "weighted|long", (n, c, lv))
        rec.outcome((n, c))
        return
    for idx in product(range(len(PROBS)), repeat=n):
        p = [PROBS[i][:c] for i in idx]
        df = pl.DataFrame({"y": y, "p": p})
        rec.state()
        rec.trans(2)
        aucs = [ref_auc([int(a == k) for a in y], [r[k] for r in p]) for k in range(c)]
        got = df.select(m=pds.query_multi_roc_auc("y", "p", c, "macro"), w=pds.query_multi_roc_auc("y", "p", c, "weighted")).row(0)
        rec.same(got[0], sum(aucs) / c, "macro", (y, p))
        rec.same(got[1], sum(a * y.count(k) for k, a in enumerate(aucs)) / n, "weighted", (y, p))
        rec.outcome(tuple(aucs))


FAMILIES = [
    Family("small", small_cases, small_run, "every pair of labels and scores (3 levels, ties included) of 1 to 5 (6) rows, thresholds on, between, below and above the scores"),
    Family("sizes", size_cases, size_run, "10 to 150,000 rows x 2 to n score levels x positive rates, float, integer and negative scores"),
    Family("refuse", refuse_cases, refuse_run, "every placement of nulls in labels and scores of 1 to 4 rows, and tables without a positive"),
    Family("multi", multi_cases, multi_run, "every label sequence using all of 2 or 3 classes on 3 or 4 (5) rows x every assignment of 4 probability vectors; 2 to 10 classes in 20 to 1001 rows"),
]
