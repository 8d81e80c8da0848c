"""P09: lasso and elastic net solutions satisfy the optimality (KKT) conditions of their objective."""
from itertools import product

import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds import config
from polars_ds.linear_models import ElasticNet

from .. import f32
from ..core import Family, outcome_of
from .p08 import DATA, big, close, design, fill, names

TOL = 1e-13


def kkt(X, y, b, b0, l1, l2):
    """Largest violation of the optimality conditions of |y-Xb-b0|^2/2m + l1|b|_1 + l2|b|^2/2 (b0 None: no bias)."""
    m = len(y)
    r = y - X @ b - (0.0 if b0 is None else b0)
    g = X.T @ r / m - l2 * b
    v = [abs(gj) - l1 if bj == 0 else abs(gj - l1 * np.sign(bj)) for gj, bj in zip(g, b)]
    if b0 is not None:
        v.append(abs(r.mean()))
    return max(v + [0.0])


def judge(rec, X, y, c, bias, l1, l2, key, ctx, tol=1e-6):
    c = np.asarray(c, float)
    k = X.shape[1]
    if not rec.check(c.shape == (k + bias,) and np.isfinite(c).all(), f"{key}|shape", lambda: f"{ctx}: {c.tolist()}"):
        return
    b, b0 = (c[:-1], c[-1]) if bias else (c, None)
    v = kkt(X, y, b, b0, l1, l2)
    rec.check(v <= tol * max(1.0, np.abs(y).max(), np.abs(X).max() ** 2), key, lambda: f"{ctx}: coefficients {c.tolist()} violate optimality by {v}")
    rec.outcome((key, tuple(np.round(c, 2))))


REGS = [(0.1, 0.0), (1.0, 0.0), (4.0, 0.0), (0.1, 0.5), (1.0, 2.0)]


def small_cases(tier):
    grid = {(2, 1): (-1, 0, 1, 2, 5), (3, 1): (-1, 0, 1, 3), (3, 2): (-1, 0, 2), (4, 2): (0, 1, 3)}
    if tier != "quick":
        grid |= {(4, 2): (-1, 0, 1, 3), (3, 3): (-1, 0, 2)}
    for (n, k), al in grid.items():
        for y in [(10, 0, 3, -4)[:n], (1, 4, 2, 2)[:n]]:
            for first in product(range(len(al)), repeat=2):
                yield [n, k, list(al), list(y), list(first)]


def small_run(case, rec):
    n, k, al, y, first = case
    y = np.array(y, float)
    nm = names(k)
    for rest in product(al, repeat=n * k - 2):
        X = np.array([al[i] for i in first] + list(rest), float).reshape(n, k)
        if k > 1 and not X.any(axis=0).all():
            pass
        df = pl.DataFrame({f"x{j}": X[:, j] for j in range(k)} | {"y": y})
        rec.state()
        plans = []
        for bias, (l1, l2) in product((False, True), REGS):
            A = X - X.mean(axis=0) if bias else X
            s = np.linalg.svd(A / np.maximum(1e-300, np.abs(A).max()), compute_uv=False) if A.any() else np.zeros(1)
            if l2 == 0 and k > 1 and s.min() < 1e-3:  # coordinate descent need not converge quickly
                continue
            plans.append((bias, l1, l2))
        rec.trans(len(plans))
        out = df.select(pds.lin_reg(*nm, target="y", add_bias=b, l1_reg=l1, l2_reg=l2, tol=TOL).alias(f"c{i}") for i, (b, l1, l2) in enumerate(plans)) if plans else None
        for i, (b, l1, l2) in enumerate(plans):
            judge(rec, X, y, out[f"c{i}"][0].to_list(), b, l1, l2, f"expr|bias={b}", f"X={X.tolist()} y={y.tolist()} l1={l1} l2={l2} bias={b}")


def size_cases(tier):
    for n in (8, 50, 400) + ((3000,) if tier != "quick" else ()):
        for k in (1, 3, 7, 17):
            if n > k + 1:
                yield [n, k]
    yield [70000, 3]


def size_run(case, rec):
    n, k = case
    X, y, _ = big(n, k, 1)
    nm = names(k)
    df = pl.DataFrame({f"x{j}": X[:, j] for j in range(k)} | {"y": y})
    for bias, (l1, l2) in product((False, True), REGS + [(0.01, 0.0), (0.0, 1.0), (20.0, 1.0)]):
        if l2 == 0 and np.linalg.cond(X - X.mean(axis=0) if bias else X) > 60:
            continue
        rec.state()
        kw = dict(target="y", add_bias=bias, l1_reg=l1, l2_reg=l2, tol=TOL)
        ctx = f"n={n} k={k} l1={l1} l2={l2} bias={bias}"
        if l1 > 0:
            rec.trans(2)
            c = df.select(pds.lin_reg(*nm, **kw).alias("c"))["c"][0].to_list()
            judge(rec, X, y, c, bias, l1, l2, "expr", ctx)
            p = df.select(pds.lin_reg(*nm, return_pred=True, **kw).alias("c")).unnest("c")
            rec.check(close(p["pred"], design(X, bias) @ np.array(c)) and close(p["resid"], y - design(X, bias) @ np.array(c)), "pred", ctx)
            if k <= 3:
                config.LIN_REG_EXPR_F64 = False
                try:
                    c32 = df.select(pds.lin_reg(*nm, **(kw | {"tol": 1e-6})).alias("c"))["c"][0].to_list()
                finally:
                    config.LIN_REG_EXPR_F64 = True
                rec.check(close(c32, c, 1e-2, 1e-2 * max(1, np.abs(c).max())), "float32", lambda: f"{ctx}: {c32} want {c}")
        rec.trans(2)
        en = ElasticNet(l1, l2, has_bias=bias, tol=TOL).fit(X, y)
        c = list(en.coeffs()) + ([en.bias()] if bias else [])
        judge(rec, X, y, c, bias, l1, l2, "class", ctx)
        rec.check(close(en.predict(X)[:, 0], design(X, bias) @ np.array(c)), "class-predict", ctx)
        rec.check(bias or en.bias() == 0.0, "class-bias", ctx)


def null_cases(tier):
    for pol in ("skip", "zero", "one", "2.5", "raise"):
        for first in product((0, 1), repeat=3):
            yield [pol, list(first)]


def null_run(case, rec):
    pol, first = case
    n, l1, l2 = 4, 0.2, 0.3
    for rest in product((0, 1), repeat=3 * n - 3):
        m = np.array(first + list(rest), bool).reshape(n, 3)
        df = pl.DataFrame({c: [None if m[i, j] else DATA[i, j] for i in range(n)] for j, c in enumerate(("y", "x0", "x1"))}, schema={c: pl.Float64 for c in ("y", "x0", "x1")})
        rec.state()
        used = ~m.any(axis=1) if pol == "skip" else ~m[:, 0]
        X = DATA[:n, 1:].copy()
        if pol not in ("skip", "raise"):
            X[m[:, 1:]] = fill(pol)
        for bias in (False, True):
            rec.trans()
            o = outcome_of(lambda: df.select(pds.lin_reg("x0", "x1", target="y", add_bias=bias, l1_reg=l1, l2_reg=l2, tol=TOL, null_policy=pol).alias("c"))["c"].to_list())
            if (pol == "raise" and m.any()) or used.sum() < 2:
                rec.check(o[0] != "ok", f"accepted|{pol}", lambda: f"{df.to_dict(as_series=False)} {pol}: {o}")
            elif rec.check(o[0] == "ok", f"fails|{pol}", lambda: f"{df.to_dict(as_series=False)} {pol}: {o}"):
                judge(rec, X[used], DATA[:n, 0][used], o[1][0], bias, l1, l2, f"nulls|{pol}", f"{df.to_dict(as_series=False)} bias={bias}")


def f32_calls(pol, bias):
    return {f"lin_reg l1={l1} l2={l2} pred={pred}": (lambda l1=l1, l2=l2, pred=pred: pds.lin_reg("x0", "x1", target="y", l1_reg=l1, l2_reg=l2, add_bias=bias, null_policy=pol, return_pred=pred, tol=1e-5))
            for l1 in (0.05, 0.4) for l2 in (0.0, 0.2) for pred in (False, True)}



FAMILIES = [
    Family("small", small_cases, small_run, "every design of 2 to 4 rows and 1 or 2 (3) features over 3 to 5 values x two targets x 5 regularisations x bias; optimality conditions to 1e-6"),
    Family("sizes", size_cases, size_run, "8 to 400 (3000) rows x 1 to 17 features x 8 regularisations x bias, expression, predictions, float32 mode and the ElasticNet class"),
    Family("nulls", null_cases, null_run, "every null pattern over target and two features on 4 rows x 5 null policies x bias"),
    f32.family(f32_calls, 1e-2),
]
