"""P02: radius queries and neighbour counts equal brute force."""
import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.spatial import KDTree

from ..clouds import METRICS, PATTERNS, check_within, dist_matrix, lcg, pattern, queries_for, seqs
from ..core import Family
from .p01 import NORM, SHAPES, df_of, feats
from ..ref import haversine


def radii_for(D):
    u = np.unique(D[D > 0])
    out = {0.25, 1.0}
    if len(u):  # radii well inside a gap between distances, or exactly on an exactly representable one
        for j in (0, len(u) // 4, len(u) // 2, len(u) - 1):
            if float(u[j]).is_integer():
                out.add(float(u[j]))
            else:
                out.add(float(u[j]) * 1.000001)
    out.add(1e6)
    return sorted(out)


def seq_cases(tier):
    L = 11 if tier == "quick" else 12
    for pre in seqs((0, 1), L - 5):
        yield [L, list(pre)]


def run_seq(case, rec):
    L, pre = case
    Q = np.array([[-1.0], [0], [0.5], [1], [2], [4]])
    for suf in seqs((0, 2), L - len(pre)):
        P = np.array(list(pre) + list(suf), float)[:, None]
        D = dist_matrix(Q, P, "l1")
        t = KDTree(P, distance="l1")
        rec.state()
        for r in (0.5, 1.0, 2.0, 3.5):
            check_within(rec, "seq", f"P={P[:, 0].tolist()}", t.within(Q, r), D, r, False, False)
            c = t.within_count(Q, r)
            rec.trans(2)
            rec.outcome(tuple(int(v) for v in c))
            rec.same([int(v) for v in c], (D <= r).sum(1).tolist(), "seqc", (P[:, 0].tolist(), r))


def cloud_cases(tier):
    sizes = (1, 2, 10, 11, 12, 22, 45, 101) if tier == "quick" else (1, 2, 3, 9, 10, 11, 12, 20, 21, 22, 41, 45, 64, 101, 301)
    dims = (1, 2, 3, 5, 10, 15, 16, 20) if tier == "quick" else (1, 2, 3, 4, 5, 6, 9, 10, 14, 15, 16, 17, 19, 20, 24)
    for n in sizes:
        for d in dims:
            for p in PATTERNS:
                yield [p, n, d]
    for p in PATTERNS:
        yield [p, 300, 2]
        if tier == "thorough":
            yield [p, 250, 15]
    for p in ("mix", "wide", "clusters", "same", "line", "frac"):  # long ones
        yield [p, 700, 3]
        yield [p, 1100, 1]
        yield [p, 2100, 2]


def run_cloud(case, rec):
    p, n, d = case
    P = pattern(p, n, d)
    Q = queries_for(P)
    for m in METRICS:
        t = KDTree(P, distance=m)
        D = dist_matrix(Q, P, m)
        rec.state()
        R = radii_for(D)
        for r in R:
            c = t.within_count(Q, r)
            rec.trans()
            rec.outcome(int(c.sum()))
            rec.same([int(v) for v in c], (D <= r).sum(1).tolist(), f"count|{p}|{m}", (case, m, r))
            for sort in (False, True):
                for wd in (False, True):
                    rec.trans()
                    check_within(rec, f"within|{p}|{m}", f"{case} {m} sort={sort}", t.within(Q, r, sort=sort, return_dist=wd), D, r, sort, wd)
        vec = np.array([R[i % len(R)] for i in range(len(Q))])
        c = t.within_count(Q, vec)
        rec.same([int(v) for v in c], [int((D[i] <= vec[i]).sum()) for i in range(len(Q))], f"countv|{p}|{m}", (case, m))
        for wd in (False, True):
            rec.trans()
            check_within(rec, f"withinv|{p}|{m}", f"{case} {m} vector r", t.within(Q, vec, sort=True, return_dist=wd), D, vec, True, wd)
        # an array with a single radius, with one query and with many
        for q in (Q[:1], Q):
            Dq = dist_matrix(q, P, m)
            one = np.array([R[0]])
            for wd in (False, True):
                check_within(rec, f"within1|{p}|{m}", f"{case} {m} r of length 1", t.within(np.ascontiguousarray(q), one, sort=True, return_dist=wd), Dq, R[0], True, wd)
            rec.same([int(v) for v in t.within_count(np.ascontiguousarray(q), one)], (Dq <= R[0]).sum(1).tolist(), f"count1|{p}|{m}", (case, m))
            rec.trans(3)


def expr_cases(tier):
    sizes = (1, 2, 3, 10, 11, 12, 22, 45) if tier == "quick" else (1, 2, 3, 10, 11, 12, 21, 22, 45, 64, 101, 200)
    for n in sizes:
        for d in (1, 2, 3, 6, 16):
            for p in PATTERNS:
                yield [p, n, d]
    for p, n, d in (("mix", 260, 2), ("clusters", 301, 1), ("same", 520, 3), ("wide", 520, 3), ("frac", 521, 2), ("line", 600, 2), ("wide", 1030, 3)):
        yield [p, n, d]


def run_expr(case, rec):
    p, n, d = case
    P = pattern(p, n, d)
    F = feats(d)
    ids = (np.arange(n) * 3 + 7).astype(np.uint32)
    df = df_of(P).with_columns(pl.Series("id", ids))
    for m in METRICS:
        D = dist_matrix(P, P, m)
        rec.state()
        R = radii_for(D)
        for r in R[:4]:
            e = [pds.query_radius_ptwise(*F, index="id", r=r, dist=m, sort=s).alias(f"s{s}") for s in (False, True)]
            e += [pds.query_nb_cnt(*F, r=r, dist=m).alias("c")]
            o = df.select(e)
            rec.trans(3)
            for s in (False, True):
                check_within(rec, f"radius|{p}|{m}", f"{case} {m} sort={s}", o[f"s{s}"].to_list(), D, r, s, False, ids)
            cnt = (D <= r).sum(1).tolist()
            rec.same(o["c"].to_list(), cnt, f"nb_cnt|{p}|{m}", (case, m, r))
        r = R[len(R) // 2]
        fc = df.select(pds.query_radius_freq_cnt(*F, index="id", r=r, dist=m).alias("f"))["f"].struct.unnest()
        got = dict(zip(fc.to_series(0).to_list(), fc.to_series(1).to_list()))
        rec.same(got, {int(i): int(c) for i, c in zip(ids, (D <= r).sum(0))}, f"freq|{p}|{m}", (case, m, r))
        rr = [R[(i * 2) % len(R)] for i in range(n)]
        want = [int((D[i] <= rr[i]).sum()) for i in range(n)]
        rec.trans(4)
        g = df.with_columns(pl.Series("r", rr)).select(
            pds.query_nb_cnt(*F, r="r", dist=m).alias("a"), pds.query_nb_cnt(*F, r=pl.col("r"), dist=m).alias("b"),
            pds.query_nb_cnt(*F, r=rr, dist=m).alias("c"))
        for c in "abc":
            rec.same(g[c].to_list(), want, f"nb_cnt_r|{p}|{m}", (case, m, rr, c))
    pts = [P[n // 2].tolist(), [float(3 - i) for i in range(d)]]
    for m in METRICS + ("cosine", "haversine", "h"):
        for pt in pts:
            a = np.array(pt)
            if m in ("h", "haversine"):
                if d != 2 or np.abs(P).max() > 85 or max(map(abs, pt)) > 85:
                    continue
                dist = np.array([haversine(x[0], x[1], a[0], a[1]) for x in P])
                R = [float(np.median(dist)) + 13.7, 50.0]
            elif m == "cosine":
                nn = (P * P).sum(1) * (a * a).sum()
                if (nn == 0).any():
                    continue
                dist = 1 - (P @ a) / np.sqrt(nn)
                R = [0.017, 0.3, 1.01]
            else:
                dist = dist_matrix(a[None], P, m)[0]
                R = radii_for(dist[None])
            R = [r for r in R if (np.abs(dist - r) > 1e-9).all() or (m in ("l1", "sql2", "inf"))]
            if not R:
                continue
            vr = [R[i % len(R)] for i in range(n)]
            o = df.with_columns(pl.Series("r", vr)).select(
                *[pds.within_dist_from(*F, pt=pt, r=r, dist=m).alias(f"r{i}") for i, r in enumerate(R)],
                pds.within_dist_from(*F, pt=pt, r=pl.col("r"), dist=m).alias("v"))
            rec.trans(len(R) + 1)
            for i, r in enumerate(R):
                rec.same(o[f"r{i}"].to_list(), (dist <= r).tolist(), f"within_dist_from|{p}|{m}", (case, m, pt, r))
            rec.same(o["v"].to_list(), [bool(x <= y) for x, y in zip(dist, vr)], f"within_dist_from_v|{p}|{m}", (case, m, pt))


def many_cases(tier):
    for n in (9000, 70000) + ((200000,) if tier != "quick" else ()):
        for i in range(len(SHAPES)):
            for m in METRICS:
                yield [n, i, m]


def run_many(case, rec):
    """Every row's neighbours within a radius among all rows, against another tree; counts of up to all points."""
    from scipy.spatial import cKDTree

    n, i, m = case
    p, d = SHAPES[i]
    P = pattern(p, n, d)
    if p == "clusters":
        P = P + np.array(lcg(n * d, 23, 50), float).reshape(n, d)
    if p == "frac":
        P = np.ascontiguousarray(P * 8)
    true = cKDTree(P)
    ctx = f"{case} {p}"

    def radius(x):  # between two possible distances of integer points
        return float(np.floor(x * x) + 0.5) if m == "sql2" else float(np.sqrt(np.floor(x * x) + 0.5)) if m == "l2" else float(np.floor(x) + 0.5)

    plain = (lambda r: np.sqrt(r)) if m == "sql2" else (lambda r: r)  # as a radius of the other tree
    near, _ = true.query(P[n // 2], k=60, p=NORM[m])
    r = radius(near[-1])
    widest = radius(float(np.ptp(P, axis=0).sum()) + 1)
    ids = (np.arange(n) * 3 + 7).astype(np.uint32)
    rr = np.array([widest if j % (n // 4) == 1 else radius(near[j % 40]) for j in range(n)])
    F = feats(d)
    df = df_of(P).with_columns(pl.Series("id", ids), pl.Series("r", rr))
    pairs = true.query_ball_point(P, plain(r), p=NORM[m], return_sorted=True)
    flat = np.concatenate(pairs).astype(np.int64)
    length = np.array([len(x) for x in pairs])
    rec.state()
    rec.trans(6)
    o = df.select(pds.query_radius_ptwise(*F, index="id", r=r, dist=m).alias("l"), pds.query_radius_ptwise(*F, index="id", r=r, dist=m, sort=True, parallel=True).alias("p"),
                  pds.query_nb_cnt(*F, r=r, dist=m).alias("c"), pds.query_nb_cnt(*F, r=r, dist=m, parallel=True).alias("d"), pds.query_nb_cnt(*F, r="r", dist=m).alias("v"))
    for c in "lp":
        if rec.check((o[c].list.len().to_numpy() == length).all(), f"many|lengths|{m}", ctx):
            got = o[c].list.sort().explode().to_numpy().astype(np.int64)
            rec.check((got == flat * 3 + 7).all(), f"many|members|{m}", ctx)
    rows = np.repeat(np.arange(n), length)
    got = (o["p"].explode().to_numpy().astype(np.int64) - 7) // 3
    if len(got) == len(rows):
        diff = np.abs(P[rows] - P[got])
        dist = diff.sum(1) if m == "l1" else diff.max(1) if m == "inf" else (diff * diff).sum(1)
        rec.check(not ((np.diff(dist) < 0) & (np.diff(rows) == 0)).any(), f"many|sorted|{m}", ctx)
    rec.check((o["c"].to_numpy() == length).all() and (o["d"].to_numpy() == length).all(), f"many|counts|{m}", ctx)
    want = true.query_ball_point(P, plain(rr), p=NORM[m], return_length=True)
    rec.check((o["v"].to_numpy() == want).all(), f"many|counts by row|{m}", lambda: f"{ctx}: row {int((o['v'].to_numpy() != want).argmax())}")
    fc = df.select(pds.query_radius_freq_cnt(*F, index="id", r=r, dist=m).alias("f"))["f"].struct.unnest()
    tally = np.zeros(n, int)
    tally[(fc.to_series(0).to_numpy().astype(np.int64) - 7) // 3] = fc.to_series(1).to_numpy()
    rec.check((tally == np.bincount(flat, minlength=n)).all(), f"many|freq|{m}", ctx)
    rec.trace(n)
    Q = np.ascontiguousarray(np.vstack([P[:2], P.mean(0) + 0.25, P.max(0) + 3]))
    D = dist_matrix(Q, P, m)
    t = KDTree(P, distance=m)
    for r in (r, radius(np.median(np.abs(P - P[0]).sum(1)) / 2) + 0.25, widest):
        for par in (False, True):
            rec.trans(3)
            rec.same([int(v) for v in t.within_count(Q, r, parallel=par)], (D <= r).sum(1).tolist(), f"many|tree count|{m}", (ctx, r))
            for sort, wd in ((False, False), (True, True)):
                for q, g in enumerate(t.within(Q, r, sort=sort, return_dist=wd, parallel=par)):
                    ii = np.array([x[0] for x in g] if wd else g, dtype=np.int64)
                    if rec.check((np.sort(ii) == np.flatnonzero(D[q] <= r)).all() if len(ii) == (D[q] <= r).sum() else False, f"many|tree within|{m}", lambda: f"{ctx} r={r} query {q}: {len(ii)} points"):
                        rec.check(not wd or (np.allclose([x[1] for x in g], D[q][ii]) and (np.diff(D[q][ii]) >= -1e-9).all()), f"many|tree order|{m}", f"{ctx} r={r} query {q}")
        pt = [float(x) for x in Q[2]]
        near = df.select(pds.within_dist_from(*F, pt=pt, r=r, dist=m)).to_series().to_numpy()
        rec.check((near == (D[2] <= r)).all(), f"many|within_dist_from|{m}", f"{ctx} r={r}")
    rec.outcome((n, p, d, int(length.sum())))


FAMILIES = [
    Family("sequences", seq_cases, run_seq, "every insertion sequence of 11 (12) one-dimensional points, the first six over {0,1}, the rest over {0,2} x 6 query points x 4 radii"),
    Family("clouds", cloud_cases, run_cloud, "12 patterns x sizes to 300 (6 of them to 2100) x 1-20 (24) dimensions x 4 metrics x all radii kinds (scalar, per-row, one-element) x sort x return_dist"),
    Family("expressions", expr_cases, run_expr, "12 patterns x sizes to 45 (200), and 7 clouds of 260 to 1030 points, x 5 dimensions x 4 metrics through every radius expression, plus within_dist_from with 7 metric names"),
    Family("many", many_cases, run_many, "9,000 and 70,000 (200,000) points of 4 shapes x 4 metrics: every row's neighbours within a radius and with a radius per row, through every radius expression and the tree, counts of up to all points, against another tree"),
]
