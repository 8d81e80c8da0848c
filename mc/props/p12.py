"""P12: lin_reg_report against the textbook formulas."""
import contextlib
import io
from itertools import product

import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds import config
from polars_ds.linear_models import LR
from scipy import stats

from .. import f32
from ..core import Family, outcome_of
from .p08 import DATA, big, close, design, fill, names, reference

KINDS = ("se", "hc0", "hc1", "hc2", "hc3")
FIELDS = ("features", "beta", "std", "t", "p", "lo", "hi", "r2", "adj")


def expected(X, y, bias, kind="se", w=None):
    A = design(X, bias)
    n, p = A.shape
    b = reference(X, y, bias, 0.0, w)
    if b is None or n <= p or len(set(y)) == 1:
        return None
    W = np.ones(n) if w is None else w
    inv = np.linalg.inv(A.T @ (A * W[:, None]))
    r = y - A @ b
    if np.abs(r).max() < 1e-9:
        return None  # a perfect fit has no t values
    dof = n - p
    h = np.einsum("ij,jk,ik->i", A, inv, A)
    if kind == "se":
        cov = inv * ((W * r * r).sum() / dof)
    else:
        if kind in ("hc2", "hc3") and (1 - h).min() < 1e-6:
            return None
        s = r * r * {"hc0": 1.0, "hc1": n / dof, "hc2": 1 / (1 - h), "hc3": 1 / (1 - h) ** 2}[kind]
        cov = inv @ (A.T * s) @ A @ inv
    se = np.sqrt(np.maximum(np.diag(cov), 0))
    if se.min() < 1e-7:
        return None
    t = b / se
    q = stats.t.ppf(0.975, dof)
    ratio = (r @ r) / ((y - y.mean()) ** 2).sum()
    vars_ = p - bias
    adj = 1 - ratio * (n - 1) / (n - vars_ - 1) if n > vars_ + 1 else None
    return b, se, t, 2 * stats.t.sf(np.abs(t), dof), b - q * se, b + q * se, 1 - ratio, adj


def verify(rec, out, want, feats, kind, key, ctx, tol=1e-5):
    rows = out.unnest("r")
    std = "std_err" if kind == "se" else f"{kind}_se"
    cols = ["features", "beta", std, "t", "p>|t|", "0.025", "0.975", "r2", "adj_r2"]
    if not rec.check(rows.columns == cols and rows["features"].to_list() == feats, f"{key}|layout", lambda: f"{ctx}: {rows}"):
        return
    for name, c, w in zip(FIELDS[1:7], cols[1:7], want):
        sc = 1.0 if name == "p" else max(1.0, np.abs(w).max())
        rec.check(close(rows[c], w, tol, tol * sc), f"{key}|{name}", lambda: f"{ctx} {c}: {rows[c].to_list()} want {w.tolist()}")
    for c, w in zip(cols[7:], want[6:]):
        if w is not None:
            rec.check(close(rows[c], [w] * len(feats), tol, tol * max(1, abs(w))), f"{key}|{c}", lambda: f"{ctx} {c}: {rows[c].to_list()} want {w}")
    rec.outcome((kind, tuple(np.round(want[1], 3))))


def small_cases(tier):
    grid = {(3, 1): (-1, 0, 1, 3), (4, 1): (-2, 0, 1, 4), (4, 2): (0, 1, 3), (5, 1): (0, 1, 3)}
    if tier != "quick":
        grid |= {(5, 2): (0, 1, 3), (4, 2): (-1, 0, 1, 3)}
    for (n, k), al in grid.items():
        for first in product(range(len(al)), repeat=min(2, n * k)):
            yield [n, k, list(al), list(first)]


def small_run(case, rec):
    n, k, al, first = case
    y = np.array((3, -1, 4, 7, 2)[:n], float)
    w = np.array((1, 2, 0.5, 3, 1)[:n], float)
    nm = names(k)
    for rest in product(al, repeat=n * k - len(first)):
        X = np.array([al[i] for i in first] + list(rest), float).reshape(n, k)
        df = pl.DataFrame({f"x{j}": X[:, j] for j in range(k)} | {"y": y, "w": w})
        rec.state()
        for bias in (False, True):
            feats = nm + ["__bias__"] * bias
            for kind in KINDS + ("w",):
                want = expected(X, y, bias, "se" if kind == "w" else kind, w if kind == "w" else None)
                if want is None:
                    continue
                rec.trans()
                kw = dict(weights="w") if kind == "w" else dict(std_err=kind)
                out = df.select(pds.lin_reg_report(*nm, target="y", add_bias=bias, **kw).alias("r"))
                verify(rec, out, want, feats, "se" if kind == "w" else kind, kind, f"X={X.tolist()} bias={bias} {kind}")


def size_cases(tier):
    for n in (12, 40, 250, 1500) + ((10000,) if tier != "quick" else ()):
        for k in (1, 2, 4, 9):
            if n > k + 2:
                yield [n, k]
    yield [70000, 2]


def size_run(case, rec):
    n, k = case
    X, y, w = big(n, k, 5)
    nm = names(k)
    df = pl.DataFrame({f"x{j}": X[:, j] for j in range(k)} | {"y": y, "w": w})
    for bias in (False, True):
        A = design(X, bias)
        if np.linalg.cond(A.T @ A) > 1e6:
            continue
        feats = nm + ["__bias__"] * bias
        for kind in KINDS + ("w", "other"):
            rec.state()
            rec.trans(2)
            k2 = "se" if kind in ("w", "other") else kind
            want = expected(X, y, bias, k2, w if kind == "w" else None)
            kw = dict(weights="w") if kind == "w" else dict(std_err=kind.upper())
            ctx = f"n={n} k={k} bias={bias} {kind}"
            verify(rec, df.select(pds.lin_reg_report(*nm, target="y", add_bias=bias, **kw).alias("r")), want, feats, k2, kind, ctx)
            if k <= 2 and n <= 250:
                config.LIN_REG_EXPR_F64 = False
                try:
                    out = df.select(pds.lin_reg_report(*nm, target="y", add_bias=bias, **kw).alias("r"))
                finally:
                    config.LIN_REG_EXPR_F64 = True
                verify(rec, out, want, feats, k2, f"f32|{kind}", ctx, 2e-2)


def null_cases(tier):
    for pol in ("skip", "zero", "one", "2.5", "raise"):
        for kind in ("se", "hc1", "hc3"):
            for first in product((0, 1, 2), repeat=2):
                yield [pol, kind, list(first)]


def null_run(case, rec):
    """Target null, feature null, or complete: 3 states per row of 6."""
    pol, kind, first = case
    n = 6
    for rest in product((0, 1, 2), repeat=n - 2):
        st = np.array([*first, *rest])
        cols = {"y": [None if s == 1 else v for s, v in zip(st, DATA[:, 0])], "x0": [None if s == 2 else v for s, v in zip(st, DATA[:, 1])], "x1": list(DATA[:, 2])}
        df = pl.DataFrame(cols, schema={c: pl.Float64 for c in cols})
        used = st == 0 if pol == "skip" else st != 1
        X = DATA[:, 1:].copy()
        if pol not in ("skip", "raise"):
            X[st == 2, 0] = fill(pol)
        rec.state()
        for bias in (False, True):
            rec.trans()
            o = outcome_of(lambda: df.select(pds.lin_reg_report("x0", "x1", target="y", add_bias=bias, std_err=kind, null_policy=pol).alias("r")))
            if (pol == "raise" and st.any()) or used.sum() < 2:
                rec.check(o[0] != "ok", f"accepted|{pol}", lambda: f"{cols} {pol}: {o}")
                continue
            want = expected(X[used], DATA[used, 0], bias, kind)
            if want is not None and rec.check(o[0] == "ok", f"fails|{pol}", lambda: f"{cols}: {o}"):
                verify(rec, o[1], want, ["x0", "x1"] + ["__bias__"] * bias, kind, f"nulls|{pol}|{kind}", f"{cols} {pol} bias={bias}")


def print_cases(tier):
    return [[bias, pol, n] for bias in (False, True) for pol in ("skip", "zero", "one", "2.5", "raise") for n in (5, 6)]


def print_run(case, rec):
    """LR.fit_df(show_report=True) prints the report of the model that it fits."""
    bias, pol, n = case
    for st in product((0, 1, 2), repeat=n):
        if n > 5 and sum(map(bool, st)) > 2 or pol == "raise" and any(st) and st[0] == 0:
            continue
        cols = {"y": [None if s == 1 else v for s, v in zip(st, DATA[:, 0])], "x0": [None if s == 2 else v for s, v in zip(st, DATA[:, 1])], "x1": list(DATA[:n, 2])}
        df = pl.DataFrame(cols, schema={c: pl.Float64 for c in cols})
        used = [s == 0 if pol == "skip" else s != 1 for s in st]
        if sum(used) < 4:
            continue
        rec.state()
        rec.trans(2)
        text = io.StringIO()
        model = LR(has_bias=bias)
        with contextlib.redirect_stdout(text), pl.Config(tbl_cols=-1, tbl_width_chars=400, float_precision=9):
            o = outcome_of(model.fit_df, df if sum(st) % 2 else df.lazy(), ["x0", "x1"], "y", null_policy=pol, show_report=True)
        if pol == "raise" and any(st):
            rec.check(o[0] != "ok", "printed|accepted", lambda: f"{cols}: {text.getvalue()}")
            continue
        if not rec.check(o[0] == "ok", f"printed|fails|{pol}", lambda: f"{cols} bias={bias}: {o}"):
            continue
        X = np.array([[fill(pol) if s == 2 and pol != "skip" else v, w] for s, v, w in zip(st, DATA[:, 1], DATA[:, 2])])[used]
        want = expected(X, DATA[:n, 0][used], bias)
        rows = [[c.strip() for c in l.strip("\u2502").split("\u2506")] for l in text.getvalue().splitlines() if l.startswith("\u2502")]
        head = next((i for i, r in enumerate(rows) if "beta" in r), None)
        if want is None or not rec.check(head is not None, "printed|nothing", lambda: f"{cols}: {text.getvalue()}"):
            continue
        body = [r for r in rows[head + 1:] if r[0] in ("x0", "x1", "__bias__")]
        beta = [float(r[rows[head].index("beta")]) for r in body]
        ctx = lambda: f"{cols} {pol} bias={bias}: {text.getvalue()}"
        rec.check([r[0] for r in body] == ["x0", "x1"] + ["__bias__"] * bias, "printed|features", ctx)
        fitted = [*model.coeffs()] + [model.bias()] * bias
        rec.check(len(beta) == len(fitted) and close(beta, fitted, 1e-6, 1e-6), f"printed|{pol}", ctx)
        rec.check(len(beta) == len(want[0]) and close(beta, want[0], 1e-6, 1e-6), f"printed|formula|{pol}", ctx)
    # a ridge regression has no such report, and nothing is printed unless asked for
    df = pl.DataFrame(DATA, schema=["y", "x0", "x1"], orient="row")
    for kw, ask in (({"lambda_": 0.5}, True), ({}, False)):
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            LR(has_bias=bias, **kw).fit_df(df, ["x0", "x1"], "y", show_report=ask)
        rec.check(text.getvalue() == "", "printed|unasked", text.getvalue)
    rec.outcome((bias, pol))


def f32_calls(pol, bias):
    out = {f"report {k}": (lambda k=k: pds.lin_reg_report("x0", "x1", target="y", std_err=k, add_bias=bias, null_policy=pol)) for k in ("se", "hc0", "hc1", "hc2", "hc3")}
    return out | {"report weights": lambda: pds.lin_reg_report("x0", "x1", target="y", weights="w", add_bias=bias, null_policy=pol)}



FAMILIES = [
    Family("small", small_cases, small_run, "every design of 3 to 5 rows and 1 or 2 features over 3 or 4 values x bias x 5 kinds of standard error and weighted reports"),
    Family("sizes", size_cases, size_run, "12 to 1500 (10000) rows x 1 to 9 features x bias x kinds, float32 mode"),
    Family("nulls", null_cases, null_run, "every assignment of {complete, target null, feature null} to 6 rows x 5 null policies x bias x 3 kinds"),
    Family("printed", print_cases, print_run, "LR.fit_df(show_report=True) on every assignment of {complete, target null, feature null} to 5 rows (up to 2 nulls in 6) x 5 null policies x bias: the printed report is that of the fitted model"),
    f32.family(f32_calls),
]
