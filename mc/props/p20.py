"""P20: PCA and principal components satisfy the defining equations of the singular value decomposition."""
from itertools import product

import numpy as np
import polars as pl
import polars_ds as pds

from ..core import Family, outcome_of


def frame(a, nulls=(), dt=pl.Float64):
    cols = {f"x{j}": [None if (i, j) in nulls else v for i, v in enumerate(a[:, j].tolist())] for j in range(a.shape[1])}
    return pl.DataFrame(cols, schema={c: dt for c in cols})


def prepared(a, center):
    a = a.astype(float)
    return a - a.mean(axis=0) if center else a


def check_pca(rec, out, b, key, ctx):
    """out: the struct rows; b: the matrix that is decomposed."""
    m, n = b.shape
    s, v = np.array([r["singular_value"] for r in out]), [r["weight_vector"] for r in out]
    top = 1 + np.sqrt((b * b).sum())
    tol = 1e-9 * top
    if not rec.check(len(out) == min(m, n) and all(len(w) == n for w in v), f"{key}|shape", lambda: f"{ctx}: {len(out)} rows"):
        return
    v = np.array(v, float).reshape(min(m, n), n)
    want = np.linalg.svd(b, compute_uv=False)
    rec.check(np.allclose(s, want, atol=tol, rtol=1e-9), f"{key}|singular values", lambda: f"{ctx}: {s} want {want}")
    rec.check(np.allclose(v @ v.T, np.eye(len(v)), atol=1e-8), f"{key}|orthonormal", lambda: f"{ctx}: {v}")
    rec.check(np.allclose(b.T @ b @ v.T, v.T * s**2, atol=tol * top), f"{key}|principal vectors", lambda: f"{ctx}: {v} for {s}")


def check_pc(rec, out, b, k, key, ctx):
    m, n = b.shape
    if m < k:
        rec.check(out.columns == [f"pc{i + 1}" for i in range(k)] and out.height == m and all(x != x for r in out.rows() for x in r), f"{key}|few rows", lambda: f"{ctx}: {out}")
        return
    if not rec.check(out.columns == [f"pc{i + 1}" for i in range(k)] and out.height == m, f"{key}|shape", lambda: f"{ctx}: {out}"):
        return
    z = out.to_numpy()
    s = np.linalg.svd(b, compute_uv=False)
    top, s = 1 + s[0], s[:k]
    tol = 1e-9 * top**2
    rec.check(np.allclose(z.T @ z, np.diag(s**2), atol=tol), f"{key}|variances", lambda: f"{ctx}: {z} singular values {s}")
    rec.check(np.allclose(b @ (b.T @ z), z * s**2, atol=tol * top), f"{key}|directions", lambda: f"{ctx}: {z}")


def check_values(rec, df, cols, b, center, key, ctx):
    """The singular values alone, as they are, as explained variance, and as shares."""
    s = np.linalg.svd(b, compute_uv=False)
    tol = 1e-9 * (1 + s[0])
    for var in (False, True) if len(b) > 1 else (False,):
        want = s**2 / (len(b) - 1) if var else s
        for ratio in (False, True):
            if ratio and want.sum() < 1e-9:
                continue
            rec.trans()
            got = df.select(pds.singular_values(*cols, center=center, as_explained_var=var, as_ratio=ratio).alias("s"))["s"].to_list()
            w = want / want.sum() if ratio else want
            rec.check(len(got) == 1 and len(got[0]) == len(w) and np.allclose(got[0], w, atol=1e-9 if ratio else tol * (1 + s[0]), rtol=1e-9), f"{key}|variance={var}, ratio={ratio}", lambda: f"{ctx}: {got} want {w}")


def one(rec, a, dt=pl.Float64):
    df = frame(a, dt=dt)
    cols = df.columns
    rec.state()
    for center in (True, False):
        b = prepared(a, center)
        rec.trans(1 + len(cols))
        check_pca(rec, df.select(pds.pca(*cols, center=center)).to_series().to_list(), b, f"pca|center={center}", a.tolist())
        check_values(rec, df, cols, b, center, f"values|center={center}", a.tolist())
        for k in range(1, len(cols) + 1):
            out = df.select(pds.principal_components(*cols, k=k, center=center).alias("p")).unnest("p")
            check_pc(rec, out, b, k, f"components|center={center}", (a.tolist(), k))


def small_cases(tier):
    q = [(1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2), (3, 2), (1, 3), (2, 3)] + ([(4, 2), (3, 3)] if tier != "quick" else [])
    return [[m, n, a] for m, n in q for a in (-1, 0, 2)]


def small_run(case, rec):
    m, n, a = case
    for rest in product((-1, 0, 2), repeat=m * n - 1):
        one(rec, np.array([a, *rest]).reshape(m, n))
    rec.outcome(case)


def size_cases(tier):
    return [[m, n] for n in (1, 2, 3, 4, 5, 8, 13, 17) for m in ((1, 2, 3, 5, 8, 16, 33, 70) if tier == "quick" else (*range(1, 40), 70, 150))] + [[400, 7], [600, 12], [1000, 3], [500, 20], [60, 40], [2100, 5], [20000, 6], [70000, 3]]


def size_run(case, rec):
    m, n = case
    a = np.array([[(i * i * 7 + j * j * 5 + 3 * i * j) % 23 - 11 for j in range(n)] for i in range(m)])
    one(rec, a, pl.Float64)
    one(rec, a, pl.Int32)
    one(rec, np.abs(a), pl.UInt8)
    rec.outcome(case)


def null_cases(tier):
    return [[m, n, r] for m, n in ((3, 2), (4, 2), (3, 3), (5, 2)) for r in range(1, 3)]


def null_run(case, rec):
    """Rows with a null are left out by pca and singular_values, which centre the others; principal_components, which keeps the rows, refuses nulls."""
    m, n, r = case
    a = np.array([[(i * i * 7 + j * 5 + 3 * i * j) % 23 - 11 for j in range(n)] for i in range(m)])
    cells = list(product(range(m), range(n)))
    for nulls in product(cells, repeat=r):
        if list(nulls) != sorted(set(nulls)):
            continue
        keep = [i for i in range(m) if not any(x == i for x, _ in nulls)]
        df = frame(a, nulls)
        cols = df.columns
        rec.state()
        rec.trans(3)
        for center in (True, False) if keep else ():
            b = prepared(a[keep], center)
            check_pca(rec, df.select(pds.pca(*cols, center=center)).to_series().to_list(), b, f"pca|nulls|center={center}", (a.tolist(), nulls))
            check_values(rec, df, cols, b, center, f"values|nulls|center={center}", (a.tolist(), nulls))
        for center in (True, False):
            got = outcome_of(lambda: df.select(pds.principal_components(*cols, k=1, center=center)))
            rec.check(got[0] == "err", "components|nulls not refused", lambda: f"{nulls}: {got}")
    for k in (0, -1, n + 1):
        rec.check(outcome_of(lambda: pds.principal_components(*[f"x{j}" for j in range(n)], k=k))[0] == "err", "components|k not refused", str(k))
    rec.outcome(case)


FAMILIES = [
    Family("small", small_cases, small_run, "every matrix over {-1,0,2} of up to 4x1, 3x2, 2x3 (4x2, 3x3) x centring x every k; singular values as they are, as variances and as shares"),
    Family("sizes", size_cases, size_run, "1..70 (150) rows x 1..17 columns and 60 to 70,000 rows x 3 to 40 columns of integers, three column types"),
    Family("nulls", null_cases, null_run, "every position of 1 and 2 nulls in matrices up to 5x2 and 3x3; k out of range"),
]
