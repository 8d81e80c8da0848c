"""P04: row masks and rows with nulls or NaNs in neighbour queries."""
from itertools import product

import numpy as np
import polars as pl
import polars_ds as pds

from ..clouds import METRICS, check_knn, check_within, dist_matrix, pattern
from ..core import Family
from .p01 import NORM, SHAPES

TRI = (True, False, None)


def base(n, d=2):
    return pattern("wide", n, d) / 8


def frame(P, nulls=(), nan=False):
    cols = {}
    d = P.shape[1]
    for j in range(d):
        v = [float(x) for x in P[:, j]]
        for i in nulls:
            if (i + j) % d == 0 or d == 1:  # a different column per row
                v[i] = float("nan") if nan else None
        cols[f"x{j}"] = pl.Series(v, dtype=pl.Float64)
    n = len(P)
    return pl.DataFrame(cols).with_columns(pl.Series("id", [5 + 2 * i for i in range(n)], dtype=pl.UInt32),
                                            pl.Series("t", [float((i * 5) % 7) for i in range(n)]))


def ask(df, d, m, k, ev, dm, rec, key, ctx, P, bad, parallel=False):
    n = len(P)
    F = [f"x{j}" for j in range(d)]
    ids = np.array([5 + 2 * i for i in range(n)])
    kw = dict(index="id", k=k, dist=m, parallel=parallel)
    if ev is not None:
        df = df.with_columns(pl.Series("ev", ev, dtype=pl.Boolean))
        kw["eval_mask"] = "ev"
    if dm is not None:
        df = df.with_columns(pl.Series("dm", dm, dtype=pl.Boolean))
        kw["data_mask"] = pl.col("dm")
    r = df.select(pds.query_knn_ptwise(*F, **kw).alias("i"), pds.query_knn_ptwise(*F, return_dist=True, **kw).alias("w"))
    rec.trans(2)
    w = r["w"].struct.unnest()
    gi, wi, wd = r["i"].to_list(), w["idx"].to_list(), w["dist"].to_list()
    pool = [i for i in range(n) if i not in bad and (dm is None or dm[i] is True)]
    asked = [i for i in range(n) if i not in bad and (ev is None or ev[i] is True)]
    for i in range(n):
        if i not in asked:
            rec.check(gi[i] is None and wi[i] is None and wd[i] is None, key + "|null",
                      lambda: f"{ctx}: row {i} should have a null result, got {gi[i]} {wi[i]} {wd[i]}")
        else:
            rec.check(gi[i] is not None and wi[i] is not None, key + "|missing", lambda: f"{ctx}: row {i} has no result")
    fc = df.select(pds.query_knn_freq_cnt(*F, **kw).alias("f"))["f"].struct.unnest()
    rec.trans()
    seen = [v for g in gi if g is not None for v in g]
    rec.same(dict(zip(fc.to_series(0).to_list(), fc.to_series(1).to_list())), {v: seen.count(v) for v in set(seen)}, key + "|freq", ctx)
    ok = [i for i in asked if gi[i] is not None and wi[i] is not None]
    D = dist_matrix(P[ok], P[pool], m)
    check_knn(rec, key, ctx, None, [gi[i] for i in ok], D, k + 1, 99999.0, ids[pool], False)
    check_knn(rec, key, ctx, [wd[i] for i in ok], [wi[i] for i in ok], D, k + 1, 99999.0, ids[pool], False)
    rec.outcome((len(pool), len(asked), k))


def mask_cases(tier):
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for dm in product(TRI, repeat=n):
            yield [n, list(dm)]


def run_mask(case, rec):
    n, dm = case
    P = base(n)
    df = frame(P)
    for ev in list(product(TRI, repeat=n)) + [None]:
        rec.state()
        m = METRICS[sum(1 for x in (ev or []) if x) % 4]
        ask(df, 2, m, 2, list(ev) if ev else None, dm, rec, "masks", f"n={n} eval={ev} data={dm} {m}", P, set())


def null_cases(tier):
    for n in range(1, 7 if tier == "quick" else 9):
        for bits in range(2 ** n):
            for nan in (False, True):
                yield [n, bits, nan]


def run_null(case, rec):
    n, bits, nan = case
    bad = {i for i in range(n) if bits >> i & 1}
    P = base(n)
    df = frame(P, bad, nan)
    F = ["x0", "x1"]
    ids = np.array([5 + 2 * i for i in range(n)])
    good = [i for i in range(n) if i not in bad]
    tgt = np.array([float((i * 5) % 7) for i in range(n)])
    for m in METRICS:
        rec.state()
        for k in (1, 3):
            ask(df, 2, m, k, None, None, rec, f"nulls|{nan}", f"{case} {m} k={k}", P, bad)
        dm = [i % 2 == 0 for i in range(n)]
        ask(df, 2, m, 2, dm[1:] + dm[:1], dm, rec, f"nullmask|{nan}", f"{case} {m}", P, bad)
        D = dist_matrix(P, P[good], m)
        r = float(np.ceil(np.median(D))) + 0.5 if good else 1.0
        o = df.select(pds.query_radius_ptwise(*F, index="id", r=r, dist=m).alias("r"), pds.query_nb_cnt(*F, r=r, dist=m).alias("c"),
                      pds.query_dist_from_kth_nb(*F, k=1, dist=m).alias("k"),
                      pds.query_knn_avg(*F, target="t", k=1, dist=m).alias("a"))
        rec.trans(4)
        for i in range(n):
            row = o.row(i, named=True)
            if i in bad:
                rec.same([row["r"], row["c"], row["k"], row["a"]], [None] * 4, f"badrow|{nan}|{m}", (case, i))
                continue
            check_within(rec, f"radius|{nan}|{m}", f"{case} {m} row {i}", [row["r"]], D[i:i + 1], r, True, False, ids[good])
            rec.same(row["c"], int((D[i] <= r).sum()), f"cnt|{nan}|{m}", (case, i, r))
            s = np.sort(D[i])
            if len(good) > 1:
                rec.same(row["k"], float(s[1]), f"kth|{nan}|{m}", (case, i))
                others = [j for j in good if j != i]
                ds = dist_matrix(P[i:i + 1], P[others], m)[0]
                if (ds == ds.min()).sum() == 1:
                    rec.same(row["a"], float(tgt[others[int(ds.argmin())]]), f"avg|{nan}|{m}", (case, i))
            else:
                rec.same(row["a"], None, f"avg1|{nan}|{m}", (case, i))


# masks over clouds large enough to split, and with NaN rows among them
def big_cases(tier):
    for p in ("mix", "grid", "clusters", "neg", "frac"):
        for n in (12, 25, 60, 150) if tier == "quick" else (12, 25, 60, 150, 520):
            for kind in range(6):
                yield [p, n, kind]


def run_big(case, rec):
    p, n, kind = case
    for d in (1, 2, 6):
        P = pattern(p, n, d)
        bad = {i for i in range(n) if kind % 2 and (i * 7) % 5 == 0}
        df = frame(P, bad, kind >= 3)
        if d > 1:
            bad = {i for i in bad}  # frame() puts one null into every bad row
        dm = [TRI[(i * 3 + kind) % 5 % 3] for i in range(n)]
        ev = [TRI[(i // 2 + kind) % 4 % 3] for i in range(n)]
        for m in METRICS:
            rec.state()
            for k in (1, 5):
                ask(df, d, m, k, None, dm, rec, f"big|{p}", f"{case} d={d} {m} k={k}", P, bad)
                ask(df, d, m, k, ev, dm, rec, f"big|{p}", f"{case} d={d} {m} k={k} eval", P, bad, parallel=kind == 2)


def many_cases(tier):
    for n in (9000, 70001):
        for i in range(len(SHAPES)):
            for kind in range(4):
                yield [n, i, kind]


def run_many(case, rec):
    """Masks and bad rows over tens of thousands of points, against another tree over the points that count."""
    from scipy.spatial import cKDTree

    n, i, kind = case
    p, d = SHAPES[i]
    m = METRICS[(i + kind) % 4]
    P = pattern(p, n, d)
    P = P * 8 if p == "frac" else P
    if p == "clusters":
        P = P + np.array([(j * 7919 // 13 + c * 31) % 50 for j in range(n) for c in range(d)], float).reshape(n, d)
    row = np.arange(n)
    bad = (row * 7 % 5 == 0) & (kind % 2 == 1)
    df = frame(P, np.flatnonzero(bad).tolist(), kind == 3)
    dm = (row * 3 + kind) % 5 % 3 == 0
    ev = (row // 2 + kind) % 4 % 3 == 0
    df = df.with_columns(dm=pl.Series([TRI[(j * 3 + kind) % 5 % 3] for j in range(n)]), ev=pl.Series([TRI[(j // 2 + kind) % 4 % 3] for j in range(n)]))
    F = [f"x{j}" for j in range(d)]
    measure = (lambda x: x ** 2) if m == "sql2" else (lambda x: x)

    def real(A, B):
        diff = np.abs(A - B)
        return diff.sum(-1) if m == "l1" else diff.max(-1) if m == "inf" else measure(np.sqrt((diff * diff).sum(-1)))

    for masked in (False, True):
        kw = dict(data_mask="dm", eval_mask="ev") if masked else {}
        pool = np.flatnonzero(~bad & dm) if masked else np.flatnonzero(~bad)
        asked = ~bad & ev if masked else ~bad
        true = cKDTree(P[pool])
        k = 3
        far = measure(true.query(P[asked], k=k + 1, p=NORM[m])[0])
        rec.state()
        rec.trans(3)
        o = df.select(pds.query_knn_ptwise(*F, index="id", k=k, dist=m, return_dist=True, **kw).alias("w"), pds.query_knn_ptwise(*F, index="id", k=k, dist=m, parallel=True, **kw).alias("i"))
        w = o["w"].struct.unnest()
        for name, c in (("dist", w["dist"]), ("idx", w["idx"]), ("parallel", o["i"])):
            ctx = f"{case} {p} {m} masked={masked} {name}"
            if not rec.check((c.is_not_null().to_numpy() == asked).all(), f"many|rows|{m}", lambda: f"{ctx}: row {int((c.is_not_null().to_numpy() != asked).argmax())}"):
                continue
            c = c.drop_nulls()
            if not rec.check(c.list.len().eq(k + 1).all(), f"many|slots|{m}", ctx):
                continue
            v = np.array(c.to_list(), dtype=float)
            if name != "dist":
                at = ((v - 5) / 2).astype(np.int64)
                rec.check(np.isin(at, pool).all() and (np.diff(np.sort(at, axis=1), axis=1) > 0).all(), f"many|pool|{m}", ctx)
                v = real(P[asked][:, None, :], P[at])
            rec.check(bool(np.isclose(v, far, rtol=1e-9, atol=1e-9).all()), f"many|ptwise|{m}", ctx)
        rec.trace(n)
    near = true.query(P[asked][0], k=40, p=NORM[m])[0]
    good = ~bad
    all_true = cKDTree(P[good])
    edge = np.floor(near[-1] ** 2) + 0.5
    r = float(edge) if m == "sql2" else float(np.sqrt(edge)) if m == "l2" else float(np.floor(near[-1]) + 0.5)
    pairs = all_true.query_ball_point(P[good], np.sqrt(r) if m == "sql2" else r, p=NORM[m], return_sorted=True)
    length = np.array([len(x) for x in pairs])
    o = df.select(pds.query_radius_ptwise(*F, index="id", r=r, dist=m, sort=False).alias("r"), pds.query_nb_cnt(*F, r=r, dist=m, parallel=True).alias("c"), pds.query_dist_from_kth_nb(*F, k=2, dist=m).alias("k"))
    rec.trans(3)
    for c in "rck":
        rec.check((o[c].is_not_null().to_numpy() == good).all(), f"many|rows {c}|{m}", str(case))
    o = o.filter(pl.Series(good))
    if rec.check((o["c"].to_numpy() == length).all() and (o["r"].list.len().to_numpy() == length).all(), f"many|counts|{m}", str(case)):
        got = o["r"].list.sort().explode().to_numpy().astype(np.int64)
        rec.check((got == np.flatnonzero(good)[np.concatenate(pairs).astype(np.int64)] * 2 + 5).all(), f"many|members|{m}", str(case))
    far = measure(all_true.query(P[good], k=3, p=NORM[m])[0][:, 2])
    rec.check(bool(np.isclose(o["k"].to_numpy(), far, rtol=1e-9, atol=1e-9).all()), f"many|kth|{m}", str(case))
    rec.outcome((n, p, d, kind))


FAMILIES = [
    Family("masks", mask_cases, run_mask, "frames of up to 4 (5) rows x every three-valued data mask x every three-valued evaluation mask"),
    Family("nulls", null_cases, run_null, "frames of up to 6 (8) rows x every set of rows with a null (or NaN) feature x 4 metrics x every neighbour expression"),
    Family("large", big_cases, run_big, "5 patterns x 4 (5) sizes to 150 (520) x 3 dimensions x 4 metrics x 6 mask/null layouts"),
    Family("many", many_cases, run_many, "9,000 and 70,001 rows of 4 shapes x 4 mask/null layouts: every row's neighbours, radius members and counts, against another tree over the rows that count"),
]
