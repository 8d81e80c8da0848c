"""P10: rolling and recursive regressions are the ordinary regression on each window / prefix."""
from itertools import product

import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds import config

from .. import f32
from ..core import Family, outcome_of
from .p08 import big, close, design, fill, names, reference

# integer data whose windows of 3 or more rows are of full rank (checked below, else the case is left out)
ROWS = np.array([[3, 1, 2], [1, 4, -1], [-2, 2, 5], [6, -3, 1], [0, 5, 4], [4, -1, -2], [-3, 2, 0.5], [7, 3, -4], [2, -2, 3]], float)  # y x0 x1


def model(y, X, valid, windows, bias, l2, need):
    """[(coefficients, prediction) | None] per row; windows[i] lists the rows the regression of row i is made of.  "free": not determined."""
    out = []
    ok = True
    for i, win in enumerate(windows):
        if win is None:
            out.append(None)
            continue
        rows = [j for j in win if valid[j]]
        if len(rows) < need(i):
            out.append(None)
            continue
        ref = reference(X[rows], y[rows], bias, l2) if len(rows) >= 1 else None
        if ref is None:
            ok = False  # rank deficient: neither it nor what is updated from it is determined
        out.append("free" if not ok else (ref, float(design(X[i : i + 1], bias)[0] @ ref)))
    return out


def compare(rec, got, want, key, ctx, tol=1e-5):
    rows = got.unnest("o")
    cs, ps = rows["coeffs"].to_list(), rows["pred"].to_list()
    if not rec.check(len(cs) == len(want), f"{key}|length", lambda: f"{ctx}: {len(cs)} rows"):
        return
    for i, w in enumerate(want):
        if isinstance(w, str):
            rec.outcome("rank deficient")
            continue
        if w is None:
            rec.check(cs[i] is None and ps[i] is None, f"{key}|null", lambda: f"{ctx} row {i}: {cs[i]} {ps[i]} want null")
        else:
            sc = max(1.0, np.abs(w[0]).max())
            rec.check(cs[i] is not None and ps[i] is not None and close(cs[i], w[0], tol, tol * sc) and (np.isnan(w[1]) or close(ps[i], w[1], tol, tol * 20 * sc)),
                      f"{key}|value", lambda: f"{ctx} row {i}: {cs[i]} {ps[i]} want {w}")
            rec.outcome(tuple(np.round(w[0], 2)))


def frame(y, X, mask=None):
    cols = {"y": y} | {f"x{j}": X[:, j] for j in range(X.shape[1])}
    if mask is not None:
        cols = {c: [None if m else float(v) for v, m in zip(vals, mask[:, j])] for j, (c, vals) in enumerate(cols.items())}
    return pl.DataFrame(cols, schema={c: pl.Float64 for c in cols})


def windows_of(n, size):
    return [list(range(i - size + 1, i + 1)) if i >= size - 1 else None for i in range(n)]


# ------------------------------------------------------------- without nulls
def full_cases(tier):
    for n in range(2, 10):
        for k in (1, 2):
            for bias in (False, True):
                for l2 in (0.0, 0.7):
                    for size in range(1, n + 3):
                        yield [n, k, bias, l2, size]
    for n, k, size in ((60, 3, 5), (60, 3, 20), (300, 5, 9), (300, 2, 2), (300, 8, 30), (1200, 3, 7), (1500, 2, 700), (1200, 4, 129)):
        for bias in (False, True):
            yield [n, k, bias, 0.0, size]
            yield [n, k, bias, 1.5, size]


def full_run(case, rec):
    n, k, bias, l2, size = case
    X, y, _ = big(n, k, 3)
    if n <= 9:
        X, y = ROWS[:n, 1 : 1 + k], ROWS[:n, 0]
    if n < k:
        return
    df = frame(y, X)
    valid = [True] * n
    rec.state()
    nm = names(k)
    need = lambda i: 0
    for mode in ("f64", "f32"):
        if mode == "f32" and (l2 == 0.0 or n > 9):
            continue
        config.LIN_REG_EXPR_F64 = mode == "f64"
        try:
            tol = 1e-5 if mode == "f64" else 2e-2
            if size >= k and size >= 2:
                rec.trans()
                got = df.select(pds.rolling_lin_reg(*nm, target="y", window_size=size, add_bias=bias, l2_reg=l2).alias("o"))
                compare(rec, got, model(y, X, valid, windows_of(n, size), bias, l2, need), "rolling", f"n={n} k={k} bias={bias} l2={l2} window={size} {mode}", tol)
            rec.trans()
            got = df.select(pds.recursive_lin_reg(*nm, target="y", start_with=size, add_bias=bias, l2_reg=l2).alias("o"))
            pre = [list(range(i + 1)) if i >= size - 1 else None for i in range(n)]
            compare(rec, got, model(y, X, valid, pre, bias, l2, need), "recursive", f"n={n} k={k} bias={bias} l2={l2} start={size} {mode}", tol)
        finally:
            config.LIN_REG_EXPR_F64 = True


# ------------------------------------------------------------- every null pattern
def null_cases(tier):
    n = 6 if tier == "quick" else 8
    for k in (1, 2):
        for policy in ("skip", "zero", "2.5", "raise"):
            for first in product((0, 1), repeat=3):
                yield [n, k, policy, list(first)]
    for n, k in ((60, 1), (60, 2), (300, 2)):
        for policy in ("skip", "zero", "2.5", "raise"):
            for salt in (3, 4, 11, 50):
                yield [n, k, policy, salt]


def null_states(n, first):
    if isinstance(first, int):  # nulls here and there, and runs of them
        return [[(1 + i // first % 2 if i % first == first // 2 or i % (5 * first) in (7, 8, 9) else 0) for i in range(n)]]
    return ([*first, *rest] for rest in product((0, 1, 2), repeat=n - 3))


def null_run(case, rec):
    """Null in the target, in x0, or nowhere: 3 states per row."""
    n, k, policy, first = case
    nm = names(k)
    rows = ROWS if n <= len(ROWS) else np.column_stack(big(n, 2, 3)[1::-1])
    for st in null_states(n, first):
        mask = np.zeros((n, 1 + k), bool)
        for i, s in enumerate(st):
            if s:
                mask[i, s - 1] = True
        y, X = rows[:n, 0], rows[:n, 1 : 1 + k].copy()
        df = frame(y, X, mask)
        rec.state()
        if policy not in ("skip", "raise"):
            X[mask[:, 1:]] = fill(policy)
            valid = ~mask[:, 0]
        else:
            valid = ~mask.any(axis=1)
        for bias, l2 in ((False, 0.0), (True, 0.0), (False, 0.6), (True, 0.6)):
            for size in (2, 3, 4) if n <= 9 else (5, 40):
                ctx = f"{df.to_dict(as_series=False)} {policy} bias={bias} l2={l2} size={size}"
                # recursive: the valid rows only, the first regression once `size` of them are seen
                rec.trans()
                got = outcome_of(lambda: df.select(pds.recursive_lin_reg(*nm, target="y", start_with=size, add_bias=bias, l2_reg=l2, null_policy=policy).alias("o")))
                if policy == "raise":
                    if mask.any():
                        rec.check(got[0] != "ok", "raise", ctx)
                        continue
                elif valid.sum() >= k:
                    pre, seen = [], 0
                    for i in range(n):
                        seen += bool(valid[i])
                        pre.append(list(range(i + 1)) if valid[i] and seen >= size else None)
                    if rec.check(got[0] == "ok", "recursive|fails", lambda: f"{ctx}: {got}"):
                        compare(rec, got[1], model(y, X, valid, pre, bias, l2, lambda i: 0), f"recursive|{policy}", ctx)
                if size < k or policy == "raise":
                    continue
                Xn = X.copy()
                yn = y.copy()
                yn[mask[:, 0]] = np.nan
                if policy == "skip":
                    Xn[mask[:, 1:]] = np.nan
                for mv in (None, 1, 2, 3):
                    if mv is not None and mv > size:
                        continue
                    rec.trans()
                    minr = min(k, size) if mv is None else mv
                    got = outcome_of(lambda: df.select(pds.rolling_lin_reg(*nm, target="y", window_size=size, add_bias=bias, l2_reg=l2, null_policy=policy, min_valid_rows=mv).alias("o")))
                    if rec.check(got[0] == "ok", "rolling|fails", lambda: f"{ctx}: {got}"):
                        any_null = mask.any() if policy == "skip" else mask[:, 0].any()
                        want = model(yn, Xn, valid, windows_of(n, size), bias, l2, (lambda i: minr) if any_null else (lambda i: 0))
                        # below the number of coefficients a window is rank deficient, but the next full one is not affected
                        fixed = []
                        for i, win in enumerate(windows_of(n, size)):
                            left = [j for j in win if valid[j]] if win else []
                            if any_null and win and len(left) >= minr and len(left) < k + bias and l2 == 0.0:
                                fixed.append("free")
                            else:
                                fixed.append(None)
                        if any(f == "free" for f in fixed):
                            want = patched(yn, Xn, valid, n, size, bias, l2, minr, k)
                        compare(rec, got[1], want, f"rolling|{policy}", f"{ctx} min={mv}")


def patched(y, X, valid, n, size, bias, l2, minr, k):
    out, ok = [], True
    for i, win in enumerate(windows_of(n, size)):
        rows = [j for j in win if valid[j]] if win else []
        if win is None or len(rows) < minr:
            out.append(None)
            ok = True if win is not None else ok
        elif len(rows) < k + bias:
            out.append("free")
            ok = True
        else:
            ref = reference(X[rows], y[rows], bias, l2)
            ok = ok and ref is not None
            out.append("free" if not ok else (ref, float(design(X[i : i + 1], bias)[0] @ ref)))
    return out


# ------------------------------------------------------------- very long columns
def stream_cases(tier):
    for n in (5000, 40000, 70000) + ((200000,) if tier != "quick" else ()):
        for k, size in ((1, 6), (2, 25), (3, 300)):
            for bias, nulls in product((False, True), (False, True)):
                yield [n, k, size, bias, nulls]


def stream_run(case, rec):
    """Every row of a long column, against normal equations of exact (integer) running sums."""
    n, k, size, bias, nulls = case
    X, y, _ = big(n, k, 3)
    mask = np.zeros((n, 1 + k), bool)
    if nulls:
        mask[np.arange(n) % 11 == 4, 0] = True
        mask[np.arange(n) % 13 == 9, k] = True
    valid = ~mask.any(axis=1)
    df = frame(y, X, mask) if nulls else pl.DataFrame({"y": y} | {f"x{j}": X[:, j] for j in range(k)})
    A = design(X, bias)
    G = np.cumsum(A[:, :, None] * A[:, None, :] * valid[:, None, None], axis=0)
    h = np.cumsum(A * (y * valid)[:, None], axis=0)
    cnt = np.cumsum(valid)
    nm = names(k)
    pol = "skip" if nulls else "raise"
    for l2 in (0.0, 1.5):
        pen = np.diag([l2] * k + [0.0] * bias)
        for kind in ("recursive", "rolling"):
            if kind == "recursive":
                GG, hh, has = G, h, (cnt >= size) & valid
                e = pds.recursive_lin_reg(*nm, target="y", start_with=size, add_bias=bias, l2_reg=l2, null_policy=pol)
            else:
                GG, hh = G.copy(), h.copy()
                GG[size:] -= G[:-size]
                hh[size:] -= h[:-size]
                has = np.arange(n) >= size - 1
                e = pds.rolling_lin_reg(*nm, target="y", window_size=size, add_bias=bias, l2_reg=l2, null_policy=pol)
            if np.linalg.cond(GG[has] + pen).max() > 1e4:
                rec.outcome("ill conditioned")
                continue
            rec.state()
            rec.trans()
            want = np.linalg.solve(GG[has] + pen, hh[has][:, :, None])[:, :, 0]
            out = df.select(e.alias("o")).unnest("o")
            ctx = f"{case} {kind} l2={l2}"
            isnull = out["coeffs"].is_null().to_numpy()
            if not rec.check((isnull == ~has).all(), f"stream|{kind}|null", lambda: f"{ctx}: first difference at row {int(np.argmax(isnull == has))}"):
                continue
            got = np.array(out["coeffs"].drop_nulls().to_list())
            off = np.abs(got - want).max(axis=1)
            rec.check((off <= 1e-5 * np.maximum(1, np.abs(want).max(axis=1))).all(), f"stream|{kind}|value", lambda: f"{ctx}: row {int(np.flatnonzero(has)[off.argmax()])}: {got[off.argmax()]} want {want[off.argmax()]}")
            seen = has & valid  # the prediction of a row with nulls is not defined
            p = out["pred"].to_numpy()[seen]
            q = (A[has] * want).sum(axis=1)[valid[has]]
            rec.check(np.isclose(p, q, rtol=1e-4, atol=1e-4 * max(1, np.abs(q).max())).all(), f"stream|{kind}|pred", ctx)
            rec.outcome((kind, int(has.sum())))


def f32_calls(pol, bias):
    kw = dict(target="y", add_bias=bias, null_policy=pol)
    out = {}
    for l2 in (0.2, 0.5):
        for k in (4, 7):
            out[f"recursive {k} l2={l2}"] = lambda k=k, l2=l2: pds.recursive_lin_reg("x0", "x1", start_with=k, l2_reg=l2, **kw)
            out[f"rolling {k + 2} l2={l2}"] = lambda k=k, l2=l2: pds.rolling_lin_reg("x0", "x1", window_size=k + 2, l2_reg=l2, **kw)
            out[f"rolling {k + 2} min l2={l2}"] = lambda k=k, l2=l2: pds.rolling_lin_reg("x0", "x1", window_size=k + 2, min_valid_rows=5, l2_reg=l2, **kw)
    return out



FAMILIES = [
    Family("full", full_cases, full_run, "2 to 9 rows (and 60, 300, 1200, 1500) x 1, 2 (to 8) features x bias x ridge x every window size / start up to two more than the rows, float32 mode"),
    Family("nulls", null_cases, null_run, "every assignment of {complete, target null, feature null} to 6 (8) rows, 4 layouts of nulls in 60 and 300 rows x null policies x windows x min_valid_rows x bias x ridge"),
    Family("streams", stream_cases, stream_run, "every row of columns of 5,000 to 70,000 (200,000) rows x 3 windows x bias x nulls x ridge, against exact running sums"),
    f32.family(f32_calls),
]
