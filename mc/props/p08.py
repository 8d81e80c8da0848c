"""P08: least squares, ridge and weighted regressions are the minimisers they claim to be."""
import warnings
from itertools import product

import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds import config

from .. import f32
from ..core import Family, outcome_of

SOLVERS = ("qr", "svd", "cholesky")


def design(X, bias):
    X = np.asarray(X, dtype=float)
    return np.column_stack([X, np.ones(len(X))]) if bias else X


def gram(A, bias, l2=0.0, w=None):
    w = np.ones(len(A)) if w is None else np.asarray(w, float)
    G = A.T @ (A * w[:, None])
    for i in range(A.shape[1] - bool(bias)):
        G[i, i] += l2
    return G


def reference(X, y, bias, l2=0.0, w=None):
    """Coefficients, or None when the problem has no unique (well conditioned) solution."""
    A = design(X, bias)
    if len(A) == 0:
        return None
    G = gram(A, bias, l2, w)
    s = np.linalg.svd(G, compute_uv=False)
    if s[-1] <= 1e-7 * s[0]:
        return None
    ww = np.ones(len(A)) if w is None else np.asarray(w, float)
    return np.linalg.solve(G, A.T @ (ww * np.asarray(y, float)))


def names(k):
    return [f"x{i}" for i in range(k)]


def close(a, b, rtol=1e-7, atol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))


# ---------------------------------------------------------------- all small designs
GRID = {(2, 1): (-1, 0, 1, 2, 5), (3, 1): (-1, 0, 1, 3), (3, 2): (-1, 0, 2), (4, 2): (0, 1, 3), (4, 1): (-2, 0, 1)}


def small_cases(tier):
    grid = dict(GRID)
    if tier != "quick":
        grid |= {(4, 2): (-1, 0, 1, 3), (4, 3): (0, 1), (5, 2): (0, 1, 3), (5, 1): (-2, 0, 1, 4)}
    for (n, k), al in grid.items():
        for first in product(range(len(al)), repeat=min(k * n, 3)):
            yield [n, k, list(al), list(first)]


YS = {2: [(1, 4)], 3: [(1, -2, 5)], 4: [(1, -2, 5, 7)], 5: [(1, -2, 5, 7, -3)]}
WS = {2: [(2, 1)], 3: [(1, 3, 2)], 4: [(1, 3, 2, 0.5)], 5: [(1, 3, 2, 0.5, 4)]}


def small_run(case, rec):
    n, k, al, first = case
    y, w = YS[n][0], WS[n][0]
    nm = names(k)
    for rest in product(al, repeat=n * k - len(first)):
        flat = [al[i] for i in first] + list(rest)
        X = np.array(flat, float).reshape(n, k)
        df = pl.DataFrame({f"x{j}": X[:, j] for j in range(k)} | {"y": [float(v) for v in y], "w": [float(v) for v in w]})
        rec.state()
        exprs, want = [], {}
        for bias in (False, True):
            for l2, ww in ((0.0, None), (1.5, None), (0.0, w)):
                ref = reference(X, y, bias, l2, ww)
                if ref is None:
                    continue
                A = design(X, bias)
                for s in SOLVERS:
                    kw = dict(target="y", add_bias=bias, l2_reg=l2, solver=s, weights=None if ww is None else "w")
                    key = f"{s}{bias}{l2}{ww is None}"
                    exprs.append(pds.lin_reg(*nm, **kw).alias("c" + key))
                    exprs.append(pds.lin_reg(*nm, return_pred=True, **kw).implode().alias("p" + key))
                    want["c" + key] = ref
                    want["p" + key] = A @ ref
                if k == 1 and l2 == 0.0:
                    kw = dict(add_bias=bias, weights=None if ww is None else "w")
                    key = f"simple{bias}{ww is None}"
                    exprs.append(pds.simple_lin_reg("x0", target="y", **kw).alias("c" + key))
                    exprs.append(pds.simple_lin_reg("x0", target="y", return_pred=True, **kw).implode().alias("p" + key))
                    want["c" + key], want["p" + key] = ref, A @ ref
        if not exprs:
            continue
        rec.trans(len(exprs))
        out = df.select(exprs).row(0, named=True)
        for key, ref in want.items():
            got = out[key]
            if key[0] == "c":
                rec.check(close(got, ref), f"coef|{key}", lambda: f"X={X.tolist()} y={y} {key}: {got} want {ref.tolist()}")
                rec.outcome(tuple(np.round(ref, 3)))
            else:
                p, r = [v["pred"] for v in got], [v["resid"] for v in got]
                rec.check(close(p, ref) and close(r, np.array(y) - ref), f"pred|{key}", lambda: f"X={X.tolist()} {key}: {p} {r} want {ref.tolist()}")


# ---------------------------------------------------------------- nulls
DATA = np.array([[1, 2, 3], [4, 0, 1], [2, 5, -1], [-3, 1, 2], [0, 3, 7], [5, -2, 4]], float)  # columns y, x0, x1
POLICIES = ("skip", "zero", "one", "2.5", "-1", "raise", "ignore")


def null_cases(tier):
    n = 4 if tier == "quick" else 5
    for first in product((0, 1), repeat=6 if tier == "quick" else 8):
        yield [n, list(first)]


def fill(policy):
    return {"zero": 0.0, "one": 1.0}.get(policy) if policy in ("zero", "one") else float(policy)


def null_run(case, rec):
    n, first = case
    for rest in product((0, 1), repeat=3 * n - len(first)):
        m = np.array(first + list(rest), bool).reshape(n, 3)
        cols = {c: [None if m[i, j] else DATA[i, j] for i in range(n)] for j, c in enumerate(("y", "x0", "x1"))}
        df = pl.DataFrame(cols, schema={c: pl.Float64 for c in cols})
        rec.state()
        for policy in POLICIES:
            used = ~m.any(axis=1) if policy == "skip" else ~m[:, 0]
            X = DATA[:n, 1:].copy()
            if policy not in ("skip", "raise", "ignore"):
                X[m[:, 1:]] = fill(policy)
            for bias in (False, True):
                kw = dict(target="y", add_bias=bias, null_policy=policy)
                rec.trans(2)
                c = outcome_of(lambda: df.select(pds.lin_reg("x0", "x1", **kw).alias("c"))["c"].to_list())
                p = outcome_of(lambda: df.select(pds.lin_reg("x0", "x1", return_pred=True, **kw).alias("p")).unnest("p"))
                ctx = f"{cols} {policy} bias={bias}"
                if policy == "raise" and m.any() or (policy != "ignore" and used.sum() < 2):
                    rec.check(c[0] != "ok" and p[0] != "ok", f"accepted|{policy}", lambda: f"{ctx}: {c} {p}")
                    continue
                if policy == "ignore" and m.any():
                    rec.check(p[0] == "ok" and p[1].height == n, "ignore-length", lambda: f"{ctx}: {p}")
                    continue
                rec.check(c[0] == "ok" and p[0] == "ok" and p[1].height == n and len(c[1]) == 1, f"fails|{policy}", lambda: f"{ctx}: {c} {p}")
                if c[0] != "ok" or p[0] != "ok" or p[1].height != n:
                    continue
                u = used if policy not in ("raise", "ignore") else np.ones(n, bool)
                pred, res = p[1]["pred"].to_list(), p[1]["resid"].to_list()
                dropped = [i for i in range(n) if not u[i]]
                rec.check(all(v is not None and v != v for i in dropped for v in (pred[i], res[i])), f"dropped|{policy}", lambda: f"{ctx}: {p[1].rows()}")
                ref = reference(X[u], DATA[:n, 0][u], bias)
                if ref is None:
                    rec.outcome("singular")
                    continue
                rec.check(close(c[1][0], ref), f"coef|{policy}", lambda: f"{ctx}: {c[1]} want {ref.tolist()}")
                want = design(X[u], bias) @ ref
                rec.check(close([pred[i] for i in range(n) if u[i]], want) and close([res[i] for i in range(n) if u[i]], DATA[:n, 0][u] - want),
                          f"pred|{policy}", lambda: f"{ctx}: {p[1].rows()} want {want.tolist()}")
                rec.outcome(tuple(np.round(ref, 3)))


# ---------------------------------------------------------------- larger designs
def big(n, k, seed):
    """Integer data in general position, exactly representable in float32."""
    i = np.arange(n, dtype=np.int64)
    X = np.stack([((i * (2 * j + 3) + j * j * 7 + seed) * (i + 5 * j + 1) % (17 + 2 * j)) - 8 for j in range(k)], axis=1).astype(float)
    y = ((i * i * 3 + i * 11 + seed) % 41 - 20).astype(float)
    w = ((i * 5 + seed) % 4 + 1).astype(float) / 2
    return X, y, w


def size_cases(tier):
    for n in (6, 33, 100, 1000, 3000) + ((20000,) if tier != "quick" else ()):
        for k in (1, 2, 3, 5, 8, 16, 17, 40):
            if n > k + 1:
                for seed in (0, 1):
                    yield [n, k, seed]
    yield [70000, 2, 0]


def size_run(case, rec):
    n, k, seed = case
    X, y, w = big(n, k, seed)
    nm = names(k)
    base = pl.DataFrame({c: X[:, j] for j, c in enumerate(nm)} | {"y": y, "w": w})
    y2 = np.roll(y, 1)
    base = base.with_columns(y2=pl.Series(y2))
    ints = base.with_columns(pl.col(*nm, "y").cast(pl.Int32))
    f32 = base.cast(pl.Float32)
    for bias in (False, True):
        A = design(X, bias)
        for l2, ww in ((0.0, None), (2.0, None), (0.0, w)):
            ref = reference(X, y, bias, l2, ww)
            if ref is None or np.linalg.cond(gram(A, bias, l2, ww)) > 1e6:
                rec.outcome("singular")
                continue
            rec.state()
            scale = max(1.0, np.abs(ref).max())
            for s in SOLVERS:
                kw = dict(target="y", add_bias=bias, l2_reg=l2, solver=s, weights=None if ww is None else "w")
                for tag, df in (("f64", base), ("int", ints), ("f32", f32), ("nulls", None)):
                    XX, yy, W = X, y, ww
                    if tag == "nulls":
                        if ww is not None or n < 3 * k + 10:
                            continue
                        keep = np.arange(n) % 7 != 3
                        df = base.with_columns(pl.when(pl.int_range(pl.len()) % 7 == 3).then(None).otherwise(pl.col("x0")).alias("x0"))
                        XX, yy = X[keep], y[keep]
                    else:
                        keep = np.ones(n, bool)
                    r = ref if tag != "nulls" else reference(XX, yy, bias, l2, W)
                    if r is None:
                        continue
                    rec.trans(2)
                    c = df.select(pds.lin_reg(*nm, **kw).alias("c"))["c"][0].to_list()
                    p = df.select(pds.lin_reg(*nm, return_pred=True, **kw).alias("p")).unnest("p")
                    rec.check(close(c, r, 1e-6, 1e-6 * scale), f"coef|{s}|{tag}", lambda: f"n={n} k={k} {kw} {tag}: {c} want {r.tolist()}")
                    want = np.full(n, np.nan)
                    want[keep] = design(XX, bias) @ r
                    rec.check(close(p["pred"], want, 1e-6, 1e-5 * scale) and close(p["resid"], np.where(keep, y - want, np.nan), 1e-6, 1e-5 * scale),
                              f"pred|{s}|{tag}", lambda: f"n={n} k={k} {kw} {tag}")
            # several targets at once are the targets one by one
            if ww is None:
                ref2 = reference(X, y2, bias, l2)
                kw = dict(target=["y", pl.col("y2"), pl.col("y") * 2], add_bias=bias, l2_reg=l2, null_policy="raise")
                rec.trans(2)
                m = base.select(pds.lin_reg(*nm, **kw).alias("c")).unnest("c").row(0)
                rec.check(len(m) == 3 and all(close(g, r, 1e-6, 1e-6 * scale) for g, r in zip(m, (ref, ref2, 2 * ref))), "multi|coef", lambda: f"n={n} k={k} {m}")
                p = base.select(pds.lin_reg(*nm, return_pred=True, **kw).alias("c")).unnest("c")
                ok = p.columns == [f"target_{i}_{s}" for i in range(3) for s in ("pred", "resid")]
                for i, (r, t) in enumerate(((ref, y), (ref2, y2), (2 * ref, 2 * y))):
                    ok = ok and close(p[f"target_{i}_pred"], A @ r, 1e-6, 1e-5 * scale) and close(p[f"target_{i}_resid"], t - A @ r, 1e-6, 1e-5 * scale)
                rec.check(ok, "multi|pred", lambda: f"n={n} k={k} {p.columns}")
            # float32 mode
            if k <= 5:
                config.LIN_REG_EXPR_F64 = False
                try:
                    kw = dict(target="y", add_bias=bias, l2_reg=l2, weights=None if ww is None else "w")
                    out = base.select(pds.lin_reg(*nm, **kw).alias("c"), pds.lin_reg(*nm, return_pred=True, **kw).implode().alias("p"))
                    rec.trans(2)
                finally:
                    config.LIN_REG_EXPR_F64 = True
                c, p = out["c"][0].to_list(), out["p"][0].struct.unnest()
                rec.check(out["c"].dtype == pl.List(pl.Float32) and close(c, ref, 1e-2, 1e-2 * scale), "float32|coef", lambda: f"n={n} k={k} {kw}: {c} want {ref.tolist()}")
                rec.check(close(p["pred"], A @ ref, 1e-2, 5e-2 * scale) and close(p["resid"], y - A @ ref, 1e-2, 5e-2 * scale), "float32|pred", lambda: f"n={n} k={k} {kw}")
    rec.outcome((n, k))


# ---------------------------------------------------------------- multiple targets with nulls, other ways to name features
def form_cases(tier):
    return [[bias, pol] for bias in (False, True) for pol in ("raise", "zero", "one", "2.5", "skip")]


def form_run(case, rec):
    bias, pol = case
    n = 6
    y, x0, x1 = DATA.T
    base = {"y": y, "x0": x0, "x1": x1}
    df = pl.DataFrame(base)
    rec.state()
    for tag, feats, X in (("sql", ["x0 + 1", "x0 * x1"], np.stack([x0 + 1, x0 * x1], 1)), ("expr", [pl.col("x1").sin().alias("a"), "x0"], np.stack([np.sin(x1), x0], 1)),
                          ("literal", [pl.col("x0").alias("literal"), "x1"], np.stack([x0, x1], 1)), ("swap", ["x1", "x0"], np.stack([x1, x0], 1)),
                          ("one", ["x1"], x1[:, None])):
        ref = reference(X, y, bias)
        for t in ("y", pl.col("y"), ["y"]):
            rec.trans(2)
            kw = dict(target=t, add_bias=bias, null_policy=pol)
            c = df.select(pds.lin_reg(*feats, **kw).alias("c"))["c"][0].to_list()
            rec.check(close(c, ref), f"names|{tag}", lambda: f"{tag} {t} bias={bias}: {c} want {ref.tolist()}")
            p = df.select(pds.lin_reg(*feats, return_pred=True, **kw).alias("c")).unnest("c")["pred"]
            rec.check(close(p, design(X, bias) @ ref), f"names-pred|{tag}", lambda: f"{tag} {t} bias={bias}: {p.to_list()}")
    # nulls with several targets: refused, or filled where only features are missing
    for mask in product((0, 1), repeat=n):
        for where in ("x0", "y", "y2"):
            cols = {"y": list(y), "y2": list(x1 - y), "x0": list(x0), "x1": list(x1)}
            cols[where] = [None if b else v for b, v in zip(mask, cols[where])]
            d = pl.DataFrame(cols, schema={c: pl.Float64 for c in cols})
            kw = dict(target=["y", "y2"], add_bias=bias, null_policy=pol)
            rec.state()
            rec.trans()
            o = outcome_of(lambda: d.select(pds.lin_reg("x0", "x1", **kw).alias("c")).unnest("c").row(0))
            if any(mask) and (where != "x0" or pol in ("raise", "skip")):
                rec.check(o[0] != "ok", f"multi-null|{pol}", lambda: f"{cols} {pol}: {o}")
                continue
            X = np.stack([[fill(pol) if b else v for b, v in zip(mask, x0)] if any(mask) else x0, x1], 1)
            r1, r2 = reference(X, y, bias), reference(X, x1 - y, bias)
            if r1 is not None:
                rec.check(o[0] == "ok" and close(o[1][0], r1) and close(o[1][1], r2), f"multi-fill|{pol}", lambda: f"{cols} {pol}: {o} want {r1} {r2}")
    # weights with filled features
    if pol in ("zero", "one", "2.5"):
        w = np.array([1, 2, 0.5, 3, 1, 2])
        for mask in product((0, 1), repeat=n):
            d = pl.DataFrame({"y": y, "x0": [None if b else v for b, v in zip(mask, x0)], "x1": x1, "w": w}, schema_overrides={"x0": pl.Float64})
            X = np.stack([[fill(pol) if b else v for b, v in zip(mask, x0)], x1], 1)
            ref = reference(X, y, bias, 0.0, w)
            if ref is None:
                continue
            rec.trans()
            c = d.select(pds.lin_reg("x0", "x1", target="y", weights="w", add_bias=bias, null_policy=pol).alias("c"))["c"][0].to_list()
            rec.check(close(c, ref), f"weights-fill|{pol}", lambda: f"{mask}: {c} want {ref.tolist()}")
    rec.outcome((bias, pol))


# ---------------------------------------------------------------- older names
def alias_cases(tier):
    return [[pol, bias, null] for pol in ("skip", "zero", "one", "2.5", "raise", "ignore") for bias in (False, True) for null in (None, 0, 3)]


def alias_run(case, rec):
    """query_lstsq and the other older names give what the functions they became give, for every argument."""
    pol, bias, null = case
    n = 14
    X, y, w = big(n, 2, 11)
    cols = {"y": y.tolist(), "y2": (y[::-1] * 2).tolist(), "x0": X[:, 0].tolist(), "x1": X[:, 1].tolist(), "w": w.tolist()}
    if null is not None:
        cols["x0"][null] = None
    df = pl.DataFrame(cols)
    kw = dict(add_bias=bias, null_policy=pol)
    new, old = {}, {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for t, l1, l2, sv, ww, pred, tol in product(("y", ["y", "y2"]), (0.0, 0.2), (0.0, 0.3), ("qr", "svd", "choleskey"), (None, "w"), (False, True), (1e-5, 0.5)):
            if (isinstance(t, list) and (l1 or ww)) or (l1 and ww):
                continue
            a = dict(target=t, l1_reg=l1, l2_reg=l2, solver=sv, weights=ww, return_pred=pred, tol=tol, **kw)
            new[("lin_reg", str(a))], old[("lin_reg", str(a))] = (lambda a=a: pds.lin_reg("x0", "x1", **a)), (lambda a=a: pds.query_lstsq("x0", "x1", **a))
        for rc, l2 in product((0.0, 0.4), (0.0, 0.3)):
            a = dict(target="y", rcond=rc, l2_reg=l2, **kw)
            new[("rcond", str(a))], old[("rcond", str(a))] = (lambda a=a: pds.lin_reg_w_rcond("x0", "x1", **a)), (lambda a=a: pds.query_lstsq_w_rcond("x0", "x1", **a))
        for k, l2 in product((3, 5), (0.0, 0.3)):
            a = dict(target="y", l2_reg=l2, **kw)
            new[("recursive", str(a), k)], old[("recursive", str(a), k)] = (lambda a=a, k=k: pds.recursive_lin_reg("x0", "x1", start_with=k, **a)), (lambda a=a, k=k: pds.query_recursive_lstsq("x0", "x1", start_with=k, **a))
            for m in (None, 3, 4):
                b = dict(window_size=k + 1, min_valid_rows=m, **a)
                new[("rolling", str(b))], old[("rolling", str(b))] = (lambda b=b: pds.rolling_lin_reg("x0", "x1", **b)), (lambda b=b: pds.query_rolling_lstsq("x0", "x1", **b))
        for ww in (None, "w"):
            a = dict(target="y", weights=ww, **kw)
            new[("report", str(a))], old[("report", str(a))] = (lambda a=a: pds.lin_reg_report("x0", "x1", **a)), (lambda a=a: pds.query_lstsq_report("x0", "x1", **a))
        for k in new:
            rec.state()
            rec.trans(2)
            a, b = (outcome_of(lambda: df.select(f[k]().alias("o"))["o"].to_list()) for f in (new, old))
            if rec.check(a[0] == b[0], f"alias|{k[0]}|outcome", lambda: f"{k}: {a} {b}") and a[0] == "ok":
                rec.same(b[1], a[1], f"alias|{k[0]}", k, rtol=1e-12, atol=0)
            rec.outcome((k[0], a[0]))


# ---------------------------------------------------------------- lin_reg_w_rcond
def rcond_cases(tier):
    for n, k, al in ((2, 2, (-1, 0, 1, 2)), (3, 2, (0, 1, 3)), (2, 3, (0, 1, -2)), (4, 1, (0, 1, 5))) + (((3, 3, (0, 1, 2)),) if tier != "quick" else ()):
        for first in product(range(len(al)), repeat=2):
            yield [n, k, list(al), list(first)]


def rcond_run(case, rec):
    n, k, al, first = case
    y = np.array((3, -1, 4, 2)[:n], float)
    nm = names(k)
    for rest in product(al, repeat=n * k - 2):
        X = np.array([al[i] for i in first] + list(rest), float).reshape(n, k)
        if n < k or not X.any():
            continue
        df = pl.DataFrame({f"x{j}": X[:, j] for j in range(k)} | {"y": y})
        rec.state()
        for bias, l2, rcond in product((False, True), (0.0, 2.0), (0.0, 0.3, 0.75)):
            A, t = design(X, bias), y
            if l2:
                A = np.vstack([A, np.sqrt(l2) * np.eye(k, A.shape[1])])
                t = np.concatenate([y, np.zeros(k)])
            U, s, Vt = np.linalg.svd(A, full_matrices=False)
            if any(abs(v - rcond * s[0]) < 1e-6 * s[0] for v in s) and rcond:
                continue
            keep = s > max(rcond, 1e-12) * s[0]
            ref = Vt[keep].T @ ((U[:, keep].T @ t) / s[keep])
            rec.trans()
            o = df.select(pds.lin_reg_w_rcond(*nm, target="y", add_bias=bias, l2_reg=l2, rcond=rcond).alias("o"))["o"][0]
            sv = sorted(o["singular_values"], reverse=True)
            sv = sv + [0.0] * (len(s) - len(sv))
            rec.check(close(sv, s, 1e-7, 1e-7), "singular-values", lambda: f"X={X.tolist()} bias={bias} l2={l2}: {sv} want {s.tolist()}")
            rec.check(close(o["coeffs"], ref, 1e-6, 1e-6), f"rcond|{rcond}", lambda: f"X={X.tolist()} bias={bias} l2={l2} rcond={rcond}: {o['coeffs']} want {ref.tolist()}")
            rec.outcome((int(keep.sum()), len(s)))


def f32_calls(pol, bias):
    kw = dict(add_bias=bias, null_policy=pol)
    out = {}
    for l2, sv, pred in product((0.0, 0.3), ("qr", "svd", "choleskey"), (False, True)):
        out[f"lin_reg {sv} l2={l2} pred={pred}"] = lambda l2=l2, sv=sv, pred=pred: pds.lin_reg("x0", "x1", target="y", l2_reg=l2, solver=sv, return_pred=pred, **kw)
    for pred in (False, True):
        out[f"lin_reg weights pred={pred}"] = lambda pred=pred: pds.lin_reg("x0", "x1", target="y", weights="w", return_pred=pred, **kw)
        out[f"lin_reg targets pred={pred}"] = lambda pred=pred: pds.lin_reg("x0", "x1", target=["y", "y2"], return_pred=pred, **kw)
        out[f"lin_reg targets l2 pred={pred}"] = lambda pred=pred: pds.lin_reg("x0", "x1", target=["y", "y2"], l2_reg=0.3, return_pred=pred, **kw)
    for rc, l2 in product((0.0, 0.5), (0.0, 0.3)):
        out[f"lin_reg_w_rcond {rc} l2={l2}"] = lambda rc=rc, l2=l2: pds.lin_reg_w_rcond("x0", "x1", target="y", rcond=rc, l2_reg=l2, **kw)
    return out



FAMILIES = [
    Family("small", small_cases, small_run, "every design of 2 to 4 (5) rows and 1 or 2 (3) features over 3 to 5 values, with and without bias, ridge penalty, weights, "
           "three solvers, coefficients and predictions, and simple_lin_reg"),
    Family("nulls", null_cases, null_run, "every null pattern over target and two features on 4 (5) rows x 7 null policies x bias"),
    Family("sizes", size_cases, size_run, "6 to 3000 (20000) rows x 1 to 40 features x solvers x ridge x weights x column types x skipped rows, several targets, float32 mode"),
    Family("forms", form_cases, form_run, "ways of naming features and targets, and every null pattern of one column on 6 rows for several targets and for weights with filled features"),
    Family("older names", alias_cases, alias_run, "query_lstsq, query_lstsq_w_rcond, query_recursive_lstsq, query_rolling_lstsq and query_lstsq_report with every combination of arguments x null policies x bias x null positions, against the functions they became"),
    Family("rcond", rcond_cases, rcond_run, "every small design including rank-deficient ones x bias x ridge x rcond, against the truncated SVD"),
    f32.family(f32_calls),
]
