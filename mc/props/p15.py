"""P15: loss functions, error metrics and NDCG against their formulas."""
from itertools import product
import math

import polars as pl
import polars_ds as pds
from polars_ds.exprs.metrics import calculate_ndcg

from ..core import Family, equal

NAN = float("nan")
AL = [0.0, 0.5, 1.0, 3.0, -2.0, None]


def mean(v):
    return sum(v) / len(v) if v else None


def median(v):
    v = sorted(v)
    n = len(v)
    return None if not n else (v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2)


def huber(d, delta):
    return 0.5 * d * d if d <= delta else delta * (d - 0.5 * delta)


def losses(pairs):
    """name -> (expression, expected | None when undefined); pairs without nulls."""
    d = [a - p for a, p in pairs]
    out = {}
    for norm in (True, False):
        red = (lambda v: mean(v)) if norm else sum
        out[f"l1{norm}"] = pds.query_l1("a", "p", normalize=norm), red([abs(v) for v in d])
        out[f"l2{norm}"] = pds.query_l2("a", "p", normalize=norm), red([v * v for v in d])
        out[f"cosh{norm}"] = pds.query_log_cosh("a", "p", normalize=norm), red([math.log(math.cosh(v)) for v in d])
        if all(a > -1 and p > -1 for a, p in pairs):
            out[f"msle{norm}"] = pds.query_msle("a", "p", normalize=norm), red([(math.log1p(a) - math.log1p(p)) ** 2 for a, p in pairs])
    out["l1"] = pds.query_l1("a", "p"), mean([abs(v) for v in d])
    out["l2"] = pds.query_l2("a", "p"), mean([v * v for v in d])
    out["cosh"] = pds.query_log_cosh("a", "p"), mean([math.log(math.cosh(v)) for v in d])
    if all(a > -1 and p > -1 for a, p in pairs):
        out["msle"] = pds.query_msle("a", "p"), mean([(math.log1p(a) - math.log1p(p)) ** 2 for a, p in pairs])
    out["linf"] = pds.query_l_inf("a", "p"), max(abs(v) for v in d)
    for delta in (0.5, 1.0, 2.0):
        out[f"huber{delta}"] = pds.query_hubor_loss("a", "p", delta=delta), mean([huber(abs(v), delta) for v in d])
    if all(abs(a) + abs(p) for a, p in pairs):
        out["smape"] = pds.query_smape("a", "p"), mean([abs(a - p) / (abs(a) + abs(p)) for a, p in pairs])
    if all(a for a, _ in pairs):
        out["mape"] = pds.query_mape("a", "p"), mean([abs(1 - p / a) for a, p in pairs])
    return out


def nonull(a, p):
    """Those that are only specified without nulls."""
    d = [x - y for x, y in zip(a, p)]
    out = {}
    if any(a):
        out["wmape"] = pds.query_mape("a", "p", weighted=True), sum(abs(v) for v in d) / sum(abs(v) for v in a)
    m = mean(a)
    tot = sum((v - m) ** 2 for v in a)
    if tot:
        out["r2"] = pds.query_r2("a", "p"), 1 - sum(v * v for v in d) / tot
        for k in (1, 2):
            if len(a) > k:
                out[f"adj{k}"] = pds.query_adj_r2("a", "p", p=k), 1 - (sum(v * v for v in d) / (len(a) - k)) / (tot / (len(a) - 1))
    for train in (2.0, 0.25):
        out[f"mase{train}"] = pds.query_mase("a", "p", train=train), mean([abs(v) for v in d]) / train
        out[f"mdase{train}"] = pds.query_mase("a", "p", train=train, use_mean=False), median([abs(v) for v in d]) / train
    for freq in (1, 2):
        if len(a) > freq:
            tr = [abs(a[i] - a[i - freq]) for i in range(freq, len(a))]
            if mean(tr):
                out[f"mase-t{freq}"] = pds.query_mase("a", "p", train="a", freq=freq), mean([abs(v) for v in d]) / mean(tr)
            if median(tr):
                out[f"mdase-t{freq}"] = pds.query_mase("a", "p", train=pl.col("a"), freq=freq, use_mean=False), median([abs(v) for v in d]) / median(tr)
    return out


def loss_cases(tier):
    n = 3 if tier == "quick" else 4
    for k in range(1, n + 1):
        for a in product(AL if k <= 3 else AL[1:], repeat=k):
            yield [list(a)]


def loss_run(case, rec):
    (a,) = case
    for p in product(AL if len(a) <= 2 else AL[1:], repeat=len(a)):
        pairs = [(x, y) for x, y in zip(a, p) if x is not None and y is not None]
        rec.state()
        df = pl.DataFrame({"a": a, "p": p}, schema={"a": pl.Float64, "p": pl.Float64})
        if not pairs:
            continue
        want = losses(pairs)
        if len(pairs) == len(a):
            want |= nonull(a, p)
        rec.trans(len(want))
        got = df.select(e.alias(k) for k, (e, _) in want.items()).row(0, named=True)
        for k, (_, w) in want.items():
            rec.same(got[k], w, k.rstrip("TrueFalse0123456789."), f"{k} a={a} p={p}", rtol=1e-9, atol=1e-9)
        rec.outcome(round(want["l1True"][1], 4))


def prob_cases(tier):
    n = 3 if tier == "quick" else 4
    return [[list(y)] for k in range(1, n + 1) for y in product((0, 1, None), repeat=k)]


def prob_run(case, rec):
    (y,) = case
    xlogy = lambda x, q: 0.0 if x == 0 else (x * math.log(q) if q > 0 else -math.inf)
    for q in product((0.0, 0.1, 0.5, 0.9, 1.0, None), repeat=len(y)):
        pairs = [(a, b) for a, b in zip(y, q) if a is not None and b is not None]
        rec.state()
        if not pairs:
            continue
        rec.trans(2)
        df = pl.DataFrame({"y": y, "q": q}, schema={"y": pl.Int32, "q": pl.Float64})
        t = [-(xlogy(a, b) + xlogy(1 - a, 1 - b)) for a, b in pairs]
        got = df.select(n=pds.query_log_loss("y", "q"), s=pds.query_log_loss("y", "q", normalize=False)).row(0)
        rec.same(got[0], sum(t) / len(t), "log_loss", (y, q))
        rec.same(got[1], sum(t), "log_loss", (y, q))
        rec.outcome(round(got[1], 3))


def cce_cases(tier):
    return [[n, list(y)] for n in (1, 2, 3, 4) for y in product(range(3), repeat=n)]


def cce_run(case, rec):
    n, y = case
    P = [[0.2, 0.3, 0.5], [0.7, 0.1, 0.2], [0.25, 0.5, 0.25]]
    for idx in product(range(3), repeat=n):
        p = [P[i] for i in idx]
        rec.state()
        rec.trans(4)
        df = pl.DataFrame({"y": y, "o": [[int(k == c) for k in range(3)] for c in y], "p": p})
        t = [-math.log(r[c]) for r, c in zip(p, y)]
        got = df.select(a=pds.query_cat_cross_entropy("y", "p"), b=pds.query_cat_cross_entropy("y", "p", normalize=False),
                        c=pds.query_cat_cross_entropy("o", "p", dense=False), d=pds.query_cat_cross_entropy("o", "p", normalize=False, dense=False)).row(0)
        rec.same(list(got), [sum(t) / n, sum(t), sum(t) / n, sum(t)], "cce", (y, p))
    v = [float(c) for c in y]
    df = pl.DataFrame({"v": v})
    rec.same(df.select(a=pds.query_mad("v"), b=pds.query_mad("v", use_mean=False)).row(0),
             (mean([abs(x - mean(v)) for x in v]), median([abs(x - median(v)) for x in v])), "mad", v)
    rec.outcome(tuple(y))


def size_cases(tier):
    return [[n] for n in (17, 100, 1001, 10007, 140_000)] + [[kind, n] for kind in ("classes", "ranking") for n in (6, 13, 40, 150, 1200, *(() if tier == "quick" else (*range(7, 60, 3), 999, 4000)))]


def classes_run(n, rec):
    """Log loss, and cross-entropy of 2 to 12 classes."""
    y = [None if i % 9 == 4 else (i * i + i // 3) % 2 for i in range(n)]
    q = [None if i % 8 == 5 else ((i * 7 + i // 5) % 30 + 0.5) / 31 for i in range(n)]
    for ints in (pl.Int32, pl.UInt8, pl.Int64, pl.Float64):
        rec.trans(2)
        pairs = [(a, b) for a, b in zip(y, q) if a is not None and b is not None]
        t = [-math.log(b if a else 1 - b) for a, b in pairs]
        got = pl.DataFrame({"y": y, "q": q}, schema={"y": ints, "q": pl.Float64}).select(n=pds.query_log_loss("y", "q"), s=pds.query_log_loss("y", "q", normalize=False)).row(0)
        rec.same(list(got), [sum(t) / len(t), sum(t)], "size-log_loss", n, rtol=1e-9)
    for c in (2, 3, 5, 12):
        y = [(i * i * 3 + i // 2) % c for i in range(n)]
        p = [[((i * 5 + k * k * 3 + i * k) % 17 + 1) for k in range(c)] for i in range(n)]
        p = [[v / sum(r) for v in r] for r in p]
        t = [-math.log(r[k]) for r, k in zip(p, y)]
        want = [sum(t) / n, sum(t)] * 2
        for yt, pt in ((pl.Int64, pl.Float64), (pl.UInt32, pl.Float64), (pl.UInt8, pl.Float64)):
            rec.state()
            rec.trans(4)
            df = pl.DataFrame({"y": y, "o": [[int(k == j) for k in range(c)] for j in y], "p": p}, schema={"y": yt, "o": pl.List(yt), "p": pl.List(pt)})
            got = df.select(a=pds.query_cat_cross_entropy("y", "p"), b=pds.query_cat_cross_entropy("y", "p", normalize=False),
                            c=pds.query_cat_cross_entropy("o", "p", dense=False), d=pds.query_cat_cross_entropy("o", "p", normalize=False, dense=False)).row(0)
            rec.same(list(got), want, "size-cce", f"n={n} classes={c} {yt}", rtol=1e-9)
    rec.outcome(n)


def ranking_run(n, rec):
    """NDCG of groups of many sizes, their rows mixed."""
    for sizes in ([n], [n, 1, 2, 3], [5, n // 2, n - n // 2, 1, 1], list(range(1, min(n, 30)))):
        for pat in range(3):
            groups = [[((i * i + g + i // 2) % 5 if pat < 2 else int((i + g) % 6 == 0), ((i * 7 + g * 3 + i // 3) % 97 + (i / 1000 if pat else 0)) / (8 if pat else 64)) for i in range(m)] for g, m in enumerate(sizes)]
            rows = [(r, s, g) for g, m in enumerate(groups) for r, s in m]
            rows = [rows[i] for i in sorted(range(len(rows)), key=lambda i: (i * 37 % 101, i))]
            df = pl.DataFrame(rows, schema={"rel": pl.Int64, "sc": pl.Float64, "q": pl.Int64}, orient="row")
            for names in (False, True):
                if names:
                    df = df.with_columns(q=pl.format("q{}", "q"), rel=pl.col("rel").cast(pl.Float64))
                for k in (None, 1, 3, 10, n, n + 5):
                    for ties in (True, False):
                        if not ties and any(len({t[1] for t in g}) < len(g) for g in groups):
                            continue
                        rec.state()
                        rec.trans()
                        got, want = calculate_ndcg(df, "rel", "sc", "q", k=k, ignore_ties=ties).item(), ref_ndcg(groups, k, ties)
                        rec.check(equal(got, want, 1e-9, 1e-12), f"size-ndcg|{ties}", lambda: f"groups {sizes} pattern {pat} k={k}: {got} want {want}")
    rec.outcome(n)


def size_run(case, rec):
    if len(case) == 2:
        return dict(classes=classes_run, ranking=ranking_run)[case[0]](case[1], rec)
    (n,) = case
    a = [((i * 7) % 23 - 5) / 4 + 0.125 for i in range(n)]
    p = [((i * 5 + i // 7) % 19 - 4) / 4 for i in range(n)]
    for nulls in (False, True):
        aa = [None if nulls and i % 11 == 4 else v for i, v in enumerate(a)]
        pp = [None if nulls and i % 13 == 2 else v for i, v in enumerate(p)]
        pairs = [(x, y) for x, y in zip(aa, pp) if x is not None and y is not None]
        want = losses(pairs) | ({} if nulls else nonull(a, p))
        df = pl.DataFrame({"a": aa, "p": pp})
        rec.state()
        rec.trans(len(want))
        got = df.select(e.alias(k) for k, (e, _) in want.items()).row(0, named=True)
        for k, (_, w) in want.items():
            rec.same(got[k], w, "size-" + k.rstrip("TrueFalse0123456789."), f"{k} n={n} nulls={nulls}", rtol=1e-9)
        rec.outcome(n)


# ---------------------------------------------------------------- NDCG
def dcg(rels, k):
    return sum(r / math.log2(i + 2) for i, r in enumerate(rels[: k or len(rels)]))


def ref_ndcg(groups, k, ties):
    vals = []
    for g in groups:
        if len(g) == 1:
            continue
        order = sorted(g, key=lambda t: -t[1])
        if ties:
            rels = []
            for s in sorted({t[1] for t in g}, reverse=True):
                same = [t[0] for t in order if t[1] == s]
                rels += [sum(same) / len(same)] * len(same)
        else:
            rels = [t[0] for t in order]
        ideal = dcg(sorted((t[0] for t in g), reverse=True), k)
        vals.append(dcg(rels, k) / ideal if ideal else 0.0)
    return sum(vals) / len(vals) if vals else None


def ndcg_cases(tier):
    for n in (1, 2, 3, 4):
        for rel in product((0, 1, 3), repeat=n):
            yield [list(rel)]


def ndcg_run(case, rec):
    (rel,) = case
    n = len(rel)
    other = [(2, 0.4), (1, 0.7), (0, 0.1)]
    for sc in product((0.1, 0.5, 0.9) if n < 4 else (0.1, 0.9, 0.5), repeat=n):
        for k in (None, 1, 2, 3, 5):
            for two in (False, True):
                groups = [list(zip(rel, sc))] + ([other] if two else [])
                rows = [(r, s, g) for g, m in enumerate(groups) for r, s in m]
                rows = rows[1::2] + rows[::2]
                df = pl.DataFrame(rows, schema={"rel": pl.Int64, "sc": pl.Float64, "q": pl.Int64}, orient="row")
                rec.state()
                for ties in (True, False):
                    if not ties and len(set(sc)) < n:
                        continue  # the order of tied items is not specified then
                    if n == 4 and (two or k == 5):
                        continue
                    rec.trans()
                    got = calculate_ndcg(df, "rel", "sc", "q", k=k, ignore_ties=ties).item()
                    want = ref_ndcg(groups, k, ties)
                    rec.check(equal(got, want), f"ndcg|{ties}", lambda: f"rel={rel} score={sc} k={k} ties={ties} two={two}: {got} want {want}")
                    rec.outcome(None if want is None else round(want, 4))


FAMILIES = [
    Family("losses", loss_cases, loss_run, "every pair of actual and predicted sequences of up to 3 (4) values over 5 numbers and null: 20 losses, normalised or not"),
    Family("log_loss", prob_cases, prob_run, "every label sequence over {0, 1, null} and probability sequence over {0, .1, .5, .9, 1, null} of up to 3 (4) rows"),
    Family("cross_entropy", cce_cases, cce_run, "every class sequence of up to 4 rows x every assignment of 3 probability vectors, dense and one-hot; mean and median absolute deviation"),
    Family("sizes", size_cases, size_run, "17 to 140,000 rows with and without nulls; log loss and cross-entropy of 2 to 12 classes, NDCG of up to 29 groups of up to 1200 (4000) rows"),
    Family("ndcg", ndcg_cases, ndcg_run, "every relevance and score sequence of 1 to 4 items x cut-offs x one or two groups x tie handling"),
]
