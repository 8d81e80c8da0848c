"""P14: confusion matrices and the statistics derived from them, by counting."""
from itertools import product
import math

import polars as pl
import polars_ds as pds

from ..core import Family

NAN = float("nan")


def div(a, b):
    return NAN if b == 0 or math.isnan(a) or math.isnan(b) else a / b


def sqrt(x):
    return math.sqrt(x) if x >= 0 else NAN


def stats(tn, fp, fn, tp):
    p, n = tp + fn, fp + tn
    tpr, fpr, prec, fom = div(tp, p), div(fp, n), div(tp, tp + fp), div(fn, fn + tn)
    fnr, tnr, npv, fdr = 1 - tpr, 1 - fpr, 1 - fom, 1 - prec
    plr, nlr = div(tpr, fpr), div(fnr, tnr)
    return {
        "tp": tp, "tn": tn, "fp": fp, "fn": fn, "tpr": tpr, "tnr": tnr, "fpr": fpr, "fnr": fnr, "prevalence": div(p, p + n),
        "prevalence_threshold": div(sqrt(tpr * fpr) - fpr, tpr - fpr), "informedness": tpr + tnr - 1, "precision": prec, "false_omission_rate": fom,
        "plr": plr, "nlr": nlr, "acc": div(tp + tn, p + n), "balanced_accuracy": (tpr + tnr) / 2, "f1": div(2 * prec * tpr, prec + tpr),
        "folkes_mallows_index": sqrt(prec * tpr),
        "mcc": sqrt(tpr * tnr * prec * npv) - sqrt(fnr * fpr * fom * fdr),
        "threat_score": div(tp, tp + fn + fp), "markedness": prec - fom, "fdr": fdr, "npv": npv, "dor": div(plr, nlr),
    }


def count(y, x):
    c = [0, 0, 0, 0]
    for a, b in zip(y, x):
        if a is not None and b is not None:
            c[2 * int(a) + int(b)] += 1
    return c


def verify(rec, df, y, s, t, ctx, key):
    rec.trans(3)
    x = [None if v is None else int(v > t) for v in s]
    c = count(y, x)
    out = df.select(a=pds.query_confusion_matrix("y", "s", threshold=t, all_metrics=True), b=pds.query_confusion_matrix("y", "s", threshold=t),
                    m=pds.query_mcc("y", (pl.col("s") > t).cast(pl.UInt32))).row(0, named=True)
    want = stats(*c)
    got = out["a"]
    rec.check(list(got) == list(want), f"{key}|fields", lambda: f"{list(got)}")
    for k in want:
        rec.same(got.get(k), want[k], f"{key}|{k}", f"{ctx} counts={c}")
    rec.same(out["b"], dict(tn=c[0], fp=c[1], fn=c[2], tp=c[3]), f"{key}|counts", ctx)
    tn, fp, fn, tp = c
    rec.same(out["m"], div(tp * tn - fp * fn, sqrt((tp + fn) * (tp + fp) * (fp + tn) * (fn + tn))), f"{key}|query_mcc", f"{ctx} counts={c}")
    rec.outcome(tuple(c))


def small_cases(tier):
    for n in (1, 2, 3, 4) + ((5,) if tier != "quick" else ()):
        for y in product((0, 1, None), repeat=n):
            yield [list(y)]


def small_run(case, rec):
    (y,) = case
    for s in product((0.2, 0.5, 0.8, None) if len(y) < 4 else (0.2, 0.8, None), repeat=len(y)):
        rec.state()
        df = pl.DataFrame({"y": y, "s": s}, schema={"y": pl.Int64, "s": pl.Float64})
        for t in (0.5, 0.1) if len(y) < 4 else (0.5,):
            verify(rec, df, y, list(s), t, f"y={y} s={s} t={t}", "small")


def count_cases(tier):
    top = 7 if tier == "quick" else 11
    return [[a, b] for a in range(top) for b in range(top)] + [["large", n] for n in (3_000, 70_000, 300_000)]


def count_run(case, rec):
    """Every confusion matrix with entries up to a bound, and scaled ones."""
    a, b = case
    if a == "large":
        for k in range(2, 12):
            y = [int((i * i + i // 3) % k == 0) for i in range(b)]
            s = [((i * 7 + i // 5) % 11 + 3 * v) / 16 for i, v in enumerate(y)]
            rec.state()
            for t in (0.25, 0.5):
                verify(rec, pl.DataFrame({"y": y, "s": s}), y, s, t, f"n={b} k={k} t={t}", "large")
        return
    top = 7
    for c, d in product(range(top), repeat=2):
        for scale in (1, 37):
            tn, fp, fn, tp = (v * scale for v in (a, b, c, d))
            if tn + fp + fn + tp == 0:
                continue
            rec.state()
            y = [0] * (tn + fp) + [1] * (fn + tp)
            x = [0] * tn + [1] * fp + [0] * fn + [1] * tp
            k = [(i * 7919) % len(y) for i in range(len(y))]
            if len(set(k)) == len(y):
                y, x = [y[i] for i in k], [x[i] for i in k]
            df = pl.DataFrame({"y": y, "s": [float(v) for v in x]})
            if scale == 37:
                df = df.with_columns(pl.col("y").cast(pl.Boolean).cast(pl.UInt8))
            verify(rec, df, y, x, 0.5, f"tn={tn} fp={fp} fn={fn} tp={tp}", "counts")


def fair_cases(tier):
    return [[n, list(z)] for n in (2, 3, 4, 5) for z in product((False, True), repeat=n) if any(z) and not all(z)] + [[n, k] for n in (7, 20, 101, 500, 3000, 70_000, *(() if tier == "quick" else (*range(8, 60, 3), 15000))) for k in range(6)]


def fair_long(n, k, rec):
    mean = lambda v: sum(v) / len(v)
    z = [(i * i + i // 2) % 7 < k + 1 for i in range(n)]
    if len(set(z)) < 2:
        return
    for p in ([(i * 3 + i // 4) % 2 for i in range(n)], [int(i % 5 == 0) for i in range(n)], [int(not c) for c in z], [((i * 7) % 19 - 4) / 4 for i in range(n)], [(i % 11) / 10 for i in range(n)]):
        a, b = mean([v for v, c in zip(p, z) if c]), mean([v for v, c in zip(p, z) if not c])
        for dt in (pl.Float64, pl.Int8, pl.Boolean) if all(v in (0, 1) for v in p) else (pl.Float64,):
            rec.state()
            rec.trans(2)
            df = pl.DataFrame({"p": pl.Series(p).cast(dt), "z": z})
            rec.same(df.select(pds.query_fairness(pl.col("p").cast(pl.Float64) if dt == pl.Boolean else "p", pl.col("z"))).item(), abs(a - b), "fairness|long", (n, k, p[:8]))
            if set(p) <= {0, 1} and (a or b):
                rec.same(df.select(pds.query_p_pct_score("p", pl.col("z"))).item(), min(a / b, b / a) if a and b else 0.0, "p_pct|long", (n, k, p[:8]))
    rec.outcome(n)


def fair_run(case, rec):
    n, z = case
    if isinstance(z, int):
        return fair_long(n, z, rec)
    mean = lambda v: sum(v) / len(v) if v else None
    for p in product((0, 1) if n == 5 else (0, 1, 3), repeat=n):
        rec.state()
        rec.trans(2)
        df = pl.DataFrame({"p": p, "z": z})
        a, b = mean([v for v, c in zip(p, z) if c]), mean([v for v, c in zip(p, z) if not c])
        out = df.select(f=pds.query_fairness("p", pl.col("z")), s=pds.query_p_pct_score("p", pl.col("z"))).row(0)
        rec.same(out[0], abs(a - b), "fairness", (p, z))
        if max(p) <= 1 and a and b:
            rec.same(out[1], min(a / b, b / a), "p_pct", (p, z))
        elif max(p) <= 1 and (a or b):
            rec.same(out[1], 0.0, "p_pct", (p, z))
        rec.outcome((a, b))


FAMILIES = [
    Family("small", small_cases, small_run, "every label sequence over {0, 1, null} and score sequence over {below, at, above the threshold, null} of 1 to 4 (5) rows: 25 statistics, counts, query_mcc"),
    Family("counts", count_cases, count_run, "every confusion matrix with entries 0..6, and the same times 37, rows shuffled; 20 each of 3000, 70,000 and 300,000 rows"),
    Family("fairness", fair_cases, fair_run, "every prediction sequence and sensitive group of 2 to 5 rows; longer ones of 7 to 70,000 rows"),
]
