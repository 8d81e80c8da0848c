"""P01: k-nearest-neighbour answers equal brute force."""
import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.spatial import KDTree

from ..clouds import METRICS, PATTERNS, check_knn, close, dist_matrix, lcg, pattern, queries_for, seqs
from ..core import Family, outcome_of


def feats(d):
    return [f"x{i}" for i in range(d)]


def df_of(P):
    return pl.DataFrame({f"x{i}": P[:, i] for i in range(P.shape[1])}).with_columns(
        pl.int_range(pl.len(), dtype=pl.UInt32).alias("id"))


def bounds_for(D):
    u = np.unique(np.round(D, 12))
    u = u[u > 0]
    out = [9999.0]
    if len(u):
        out += [float(u[len(u) // 4]), float(u[len(u) // 2]), float(u[0]) / 2]
    return sorted(set(out))


def tree_case(P, Q, ks, rec, ctx, metrics=METRICS, bounds=None):
    for m in metrics:
        t = KDTree(P, distance=m)
        rec.state()
        D = dist_matrix(Q, P, m)
        for k in ks:
            for b in bounds or bounds_for(D):
                dd, ii = t.knn(Q, k, max_dist_bound=b)
                rec.trans()
                rec.outcome((k, int((D <= b).sum())))
                check_knn(rec, "tree|" + ctx, f"KDTree {m} k={k} bound={b}", dd, ii, D, k, b)


# -- every sequence of points: splitting of the node, ties and duplicates -------------------------
def seq_cases(tier):
    L = 11 if tier == "quick" else 12
    for pre in seqs((0, 1), L - 5):
        yield ["b", L, list(pre)]
    if tier == "thorough":
        for pre in seqs((0, 1, 2), 6):
            yield ["t", 11, list(pre)]


def run_seq(case, rec):
    kind, L, pre = case
    alpha = (0, 1) if kind == "b" else (0, 1, 2)
    Q = np.array([[-1.0], [0], [0.5], [1], [1.5], [2], [3]])
    for suf in seqs(alpha, L - len(pre)):
        P = np.array(list(pre) + list(suf), float)[:, None]
        D = dist_matrix(Q, P, "l1")
        t = KDTree(P, distance="l1")
        rec.state()
        n0 = int((P[:, 0] == 0).sum())
        for k in {1, max(1, n0), min(L, n0 + 1), L}:
            dd, ii = t.knn(Q, k)
            rec.trans()
            rec.outcome((k, n0))
            check_knn(rec, f"seq|{kind}|{L}", f"P={P[:, 0].tolist()} k={k}", dd, ii, D, k, 9999.0)
        dd, ii = t.knn(Q, 4, max_dist_bound=1.0)
        rec.trans()
        check_knn(rec, f"seqb|{kind}|{L}", f"P={P[:, 0].tolist()} k=4 bound=1", dd, ii, D, 4, 1.0)


# -- 2-d: eleven fixed points and every placement of the last ones --------------------------------
def grid_cases(tier):
    for pat in ("mix", "axis", "grid", "same"):
        for a in range(16):
            yield [pat, a]


def run_grid(case, rec):
    pat, a = case
    base = pattern(pat, 10, 2)
    Q = np.array([[x, y] for x in (-1, 0, 1.5, 3, 5) for y in (-1, 1, 2, 4)], float)
    for b in range(16):
        P = np.vstack([base, [[a % 4, a // 4]], [[b % 4, b // 4]]])
        tree_case(P, Q, (1, 3, 12), rec, f"grid|{pat}", bounds=(9999.0, 2.0))


# -- structured clouds across sizes and dimensions ------------------------------------------------
def cloud_cases(tier):
    sizes = (1, 2, 3, 9, 10, 11, 12, 21, 22, 45, 101) if tier == "quick" else (
        1, 2, 3, 5, 9, 10, 11, 12, 20, 21, 22, 33, 41, 45, 64, 101, 160, 301)
    dims = (1, 2, 3, 5, 10, 15, 16, 20) if tier == "quick" else (1, 2, 3, 4, 5, 6, 10, 14, 15, 16, 17, 19, 20, 24)
    for n in sizes:
        for d in dims:
            for p in PATTERNS:
                yield [p, n, d]
    for p in PATTERNS:  # bigger than the largest leaf capacity
        if tier == "thorough" or p in ("mix", "clusters", "axis"):
            yield [p, 400, 2]
            yield [p, 150, 15]
    for p in ("mix", "wide", "clusters", "same", "line", "frac"):  # long ones
        yield [p, 700, 3]
        yield [p, 1100, 1]
        yield [p, 2100, 2]
    if tier == "thorough":
        for p in ("mix", "wide", "clusters"):
            yield [p, 4200, 20]


def run_cloud(case, rec):
    p, n, d = case
    P = pattern(p, n, d)
    Q = queries_for(P)
    ks = sorted({1, 2, min(n, 5), n, n + 2})
    tree_case(P, Q, ks, rec, f"cloud|{p}|{d}")
    # epsilon only loses neighbours within epsilon of the truth
    for m in METRICS:
        D = dist_matrix(Q, P, m)
        for eps in (0.5, 3.0):
            for k in (1, min(n, 4)):
                dd, _ = KDTree(P, distance=m).knn(Q, k, epsilon=eps, max_dist_bound=1e15)
                rec.trans()
                truth = np.sort(D, 1)[:, :k]
                rec.check(bool((dd <= truth + eps + 1e-9).all() and (dd >= truth - 1e-9).all()), f"eps|{p}|{m}",
                          lambda: f"{case} {m} eps={eps} k={k}: {dd.tolist()} vs {truth.tolist()}")


# -- the dataframe surfaces -----------------------------------------------------------------------
def expr_cases(tier):
    sizes = (2, 3, 10, 11, 12, 22, 45, 101) if tier == "quick" else (2, 3, 5, 10, 11, 12, 21, 22, 45, 64, 101, 200)
    for n in sizes:
        for d in (1, 2, 3, 6, 16):
            for p in PATTERNS:
                yield [p, n, d]
    for p, n, d in (("mix", 260, 2), ("clusters", 301, 1), ("same", 520, 3), ("wide", 520, 3), ("frac", 521, 2), ("line", 600, 2)):
        yield [p, n, d]


def knn_avg_ref(D, tgt, k, weighted, lo, hi):
    """(value, tied): value of the average of the k+1 nearest filtered by lo; tied when the choice is ambiguous."""
    out = []
    for row in D:
        o = np.argsort(row, kind="stable")
        o = o[row[o] <= hi]
        sel, rest = o[: k + 1], o[k + 1:]
        tied = len(rest) > 0 and close(row[rest[0]], row[sel[-1]])
        sel = sel[row[sel] >= lo]
        if len(sel) == 0:
            out.append((None, tied and row[o[k]] >= lo))
            continue
        w = np.ones(len(sel))
        if weighted:
            w = 1 / (1 + row[sel]) if lo <= 2.3e-16 else 1 / row[sel]
        out.append((float((w * tgt[sel]).sum() / w.sum()), tied))
    return out


def run_expr(case, rec):
    p, n, d = case
    P = pattern(p, n, d)
    F = feats(d)
    ids = (np.arange(n) * 3 + 7).astype(np.uint32)
    tgt = np.array([(i * 37) % 11 for i in range(n)], float)
    df = df_of(P).with_columns(pl.Series("id", ids), pl.Series("t", tgt))
    for m in METRICS:
        D = dist_matrix(P, P, m)
        rec.state()
        for k in sorted({1, 3, n - 1, n + 1}):
            for b in ([99999.0] + bounds_for(D)[:2] if k == 3 else [99999.0]):
                e = [pds.query_knn_ptwise(*F, index="id", k=k, dist=m, return_dist=True, max_bound=b).alias("w"),
                     pds.query_knn_ptwise(*F, index="id", k=k, dist=m, max_bound=b).alias("i"),
                     pds.query_dist_from_kth_nb(*F, k=k, dist=m, max_bound=b).alias("kth")]
                r = df.select(e)
                rec.trans(3)
                w = r["w"].struct.unnest()
                ctx = f"{case} {m} k={k} bound={b}"
                check_knn(rec, f"ptwise_dist|{p}|{m}", ctx, w["dist"].to_list(), w["idx"].to_list(), D, k + 1, b, ids, False)
                check_knn(rec, f"ptwise|{p}|{m}", ctx, None, r["i"].to_list(), D, k + 1, b, ids, False)
                S = np.sort(D, 1)
                for q, g in enumerate(r["kth"].to_list()):
                    if k < n and S[q][k] <= b:
                        rec.same(g, float(S[q][k]), f"kth|{p}|{m}", (ctx, q))
        for k in (1, 4):
            fc = df.select(pds.query_knn_freq_cnt(*F, index="id", k=k, dist=m).alias("f"))["f"].struct.unnest()
            rec.trans()
            lst = df.select(pds.query_knn_ptwise(*F, index="id", k=k, dist=m).alias("i"))["i"].explode().to_list()
            want = {}
            for v in lst:
                want[v] = want.get(v, 0) + 1
            got = dict(zip(fc.to_series(0).to_list(), fc.to_series(1).to_list()))
            rec.same(got, want, f"freq|{p}|{m}", (case, m, k))
            for b in bounds_for(D)[:2]:
                b = b * 1.000001
                o = df.select(pds.query_knn_freq_cnt(*F, index="id", k=k, dist=m, max_bound=b, parallel=k > 1).alias("f"))["f"].struct.unnest()
                lst = df.select(pds.query_knn_ptwise(*F, index="id", k=k, dist=m, max_bound=b).alias("i"))["i"].explode().drop_nulls().to_list()
                rec.trans(2)
                rec.same(dict(zip(o.to_series(0).to_list(), o.to_series(1).to_list())), {v: lst.count(v) for v in set(lst)}, f"freq bound|{p}|{m}", (case, m, k, b))
                for weighted in (False, True):
                    g = df.select(pds.query_knn_avg(*F, target="t", k=k, dist=m, weighted=weighted, max_bound=b, parallel=weighted).alias("a"))["a"].to_list()
                    rec.trans()
                    for q, (v, tied) in enumerate(knn_avg_ref(D, tgt, k, weighted, 1e-9, b)):
                        if not tied:
                            rec.same(g[q], v, f"avg bound|{p}|{m}", (case, m, k, weighted, b, q))
            for eps in (0.5, 3.0):
                o = df.select(pds.query_dist_from_kth_nb(*F, k=k, dist=m, epsilon=eps, max_bound=1e15).alias("k"), pds.query_knn_ptwise(*F, index="id", k=k, dist=m, epsilon=eps, max_bound=1e15, return_dist=True).alias("w"))
                rec.trans(2)
                S = np.sort(D, 1)
                if k < n:
                    g = np.array(o["k"].to_list(), float)
                    rec.check(bool((g <= S[:, k] + eps + 1e-9).all() and (g >= S[:, k] - 1e-9).all()), f"kth eps|{p}|{m}", lambda: f"{case} {m} k={k} eps={eps}: {g} want {S[:, k]}")
                for q, g in enumerate(o["w"].struct.field("dist").to_list()):
                    g, w = np.array(g), S[q][:k + 1]
                    if not rec.check(len(g) == len(w) and bool((g <= w + eps + 1e-9).all() and (g >= w - 1e-9).all()), f"ptwise eps|{p}|{m}", lambda: f"{case} {m} k={k} eps={eps} row {q}: {g} want {w}"):
                        break
            for weighted in (False, True):
                for lo in (1e-9, 0.0, 2.0):
                    g = df.select(pds.query_knn_avg(*F, target="t", k=k, dist=m, weighted=weighted, min_bound=lo).alias("a"))["a"].to_list()
                    rec.trans()
                    for q, (v, tied) in enumerate(knn_avg_ref(D, tgt, k, weighted, lo, 99999.0)):
                        if not tied:
                            rec.same(g[q], v, f"avg|{p}|{m}", (case, m, k, weighted, lo, q))
    for bad in (lambda: pds.is_knn_from("c0", "c1", pt=[1.0, 2.0, 3.0], k=1, dist="h"), lambda: pds.is_knn_from("c0", "c1", pt=[1.0], k=1, dist="haversine"), lambda: pds.is_knn_from("c0", pt=[1.0, 2.0], k=1, dist="h"), lambda: pds.is_knn_from("c0", "c1", pt=[1.0], k=1, dist="l1")):
        rec.check(outcome_of(bad)[0] == "err", "is_knn|accepted", case)
    for m in METRICS + ("cosine",):
        for pt in ([1.0] * d, P[n // 2].tolist(), [float(3 - i) for i in range(d)]):
            a = np.array(pt)
            if m == "cosine":
                nn = (P * P).sum(1) * (a * a).sum()
                if (nn == 0).any():
                    continue
                dist = 1 - (P @ a) / np.sqrt(nn)
            else:
                dist = dist_matrix(a[None], P, m)[0]
            for k in (1, 2, n):
                g = df.select(pds.is_knn_from(*F, pt=pt, k=k, dist=m).alias("a"))["a"].to_list()
                rec.trans()
                kth = np.sort(dist)[k - 1]
                near = np.abs(dist - kth) <= 1e-12
                for q in range(n):
                    if m != "cosine" or not near[q]:
                        rec.same(g[q], bool(dist[q] <= kth), f"is_knn|{p}|{m}", (case, m, pt, k, q))


# -- tens of thousands of points ------------------------------------------------------------------
SHAPES = (("wide", 1), ("wide", 2), ("frac", 3), ("clusters", 2))
NORM = {"l1": 1, "l2": 2, "sql2": 2, "inf": np.inf}


def many_cases(tier):
    for n in (9000, 70000) + ((200000,) if tier != "quick" else ()):
        for i in range(len(SHAPES)):
            for m in METRICS:
                yield [n, i, m]


def run_many(case, rec):
    """Every row's neighbours among all rows; the tree class with queries inside and outside."""
    from scipy.spatial import cKDTree

    n, i, m = case
    p, d = SHAPES[i]
    P = pattern(p, n, d)
    if p == "clusters":
        P = P + np.array(lcg(n * d, 23, 50), float).reshape(n, d)
    true = cKDTree(P)
    measure = (lambda x: x ** 2) if m == "sql2" else (lambda x: x)

    def real(A, B):
        diff = np.abs(A - B)
        return diff.sum(-1) if m == "l1" else diff.max(-1) if m == "inf" else measure(np.sqrt((diff * diff).sum(-1)))

    ids = (np.arange(n) * 3 + 7).astype(np.uint32)
    df = df_of(P).with_columns(pl.Series("id", ids))
    F = feats(d)
    for k in (1, 4):
        far, _ = true.query(P, k=k + 1, p=NORM[m])
        far = measure(far)
        rec.state()
        rec.trans(3)
        o = df.select(pds.query_knn_ptwise(*F, index="id", k=k, dist=m, return_dist=True).alias("w"),
                      pds.query_dist_from_kth_nb(*F, k=k, dist=m).alias("kth"), pds.query_knn_ptwise(*F, index="id", k=k, dist=m, parallel=True).alias("i"))
        w = o["w"].struct.unnest()
        ctx = f"{case} {p} k={k}"
        if rec.check(o["i"].list.len().eq(k + 1).all() and w["idx"].list.len().eq(k + 1).all() and w["dist"].list.len().eq(k + 1).all(), f"many|slots|{m}", ctx):
            got = np.array(w["dist"].to_list())
            idx = np.array(w["idx"].to_list(), dtype=np.int64)
            idx2 = np.array(o["i"].to_list(), dtype=np.int64)
            for name, x in (("reported", got), ("by index", real(P[:, None, :], P[(idx - 7) // 3])), ("by index, parallel", real(P[:, None, :], P[(idx2 - 7) // 3])), ):
                off = ~np.isclose(x, far, rtol=1e-9, atol=1e-9).all(axis=1)
                rec.check(not off.any(), f"many|ptwise|{m}", lambda: f"{ctx} {name}: row {int(off.argmax())}: {x[off.argmax()]} want {far[off.argmax()]}")
            rec.check((idx % 3 == 1).all() and (np.diff(np.sort(idx, axis=1), axis=1) > 0).all(), f"many|distinct|{m}", ctx)
        rec.check(bool(np.isclose(o["kth"].to_numpy(), far[:, k], rtol=1e-9, atol=1e-9).all()), f"many|kth|{m}", ctx)
        rec.trace(n)
    Q = queries_for(P)
    tree_case(P, Q, (1, 5, 130) if n > 9000 else (1, 130, n - 1, n + 1), rec, f"many|{p}", metrics=(m,))
    tree = KDTree(P, distance=m)
    dd, ii = tree.knn(np.ascontiguousarray(P + 0.25), 3)
    far = measure(true.query(P + 0.25, k=3, p=NORM[m])[0])
    rec.trans()
    rec.check(bool(np.isclose(dd, far, rtol=1e-9, atol=1e-9).all() and np.isclose(real((P + 0.25)[:, None, :], P[ii.astype(np.int64)]), far, rtol=1e-9, atol=1e-9).all()), f"many|tree|{m}", ctx)
    rec.outcome((n, p, d))


FAMILIES = [
    Family("sequences", seq_cases, run_seq,
           "every insertion sequence of 11 (thorough: 12, and ternary 11) one-dimensional points over {0,1} x 7 query points x k in 4 values and one bound"),
    Family("grid2d", grid_cases, run_grid,
           "4 ten-point prefixes x every pair of further points of a 4x4 grid x 20 query points x 4 metrics x 3 k x 2 bounds"),
    Family("clouds", cloud_cases, run_cloud,
           "12 point patterns x sizes around every leaf capacity up to 101 (thorough 4200) x 1-20 (24) dimensions x 4 metrics x 5 k x up to 4 bounds x 10 query points; two epsilons"),
    Family("expressions", expr_cases, run_expr,
           "12 patterns x sizes to 101 (200) x 5 dimensions x 4 metrics x k x bounds through every kNN expression"),
    Family("many", many_cases, run_many, "9,000 and 70,000 (200,000) points of 4 shapes x 4 metrics: every row's neighbours, 10 queries of up to all points and one query per point, against another tree"),
]
