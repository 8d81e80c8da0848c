"""P11: linear model objects after any history of fits, updates, restorations and failed calls."""
from itertools import product

import numpy as np
import polars as pl
from polars_ds.linear_models import LR, ElasticNet, OnlineLR

from ..core import Family, outcome_of
from .p08 import DATA, big, close, design, gram, reference
from .p09 import kkt

A = DATA[:, 1:], DATA[:, 0]
B = np.array([[2, 1], [0, 3], [1, 1], [-1, 4]], float), np.array([3, 0, -2, 5], float)
PROBE = np.array([[1, 2], [0, 0], [-3, 5]], float)
SMALL = 1e-6


class Model:
    """What the object should be: None until fit, then (coefficients, bias), and the names of the features."""

    def __init__(self, bias):
        self.bias, self.state, self.names = bias, None, []

    def set(self, c):
        c = np.asarray(c, float)
        self.state = (c[:-1], c[-1]) if self.bias else (c, 0.0)


def observe(rec, obj, m, ctx, key):
    rec.check(obj.is_fit() == (m.state is not None), f"{key}|is_fit", lambda: f"{ctx}: is_fit {obj.is_fit()}")
    rec.check(isinstance(repr(obj), str), f"{key}|repr", ctx)
    if m.state is None:
        for f in (obj.coeffs, lambda: obj.predict(PROBE)):
            o = outcome_of(f)
            rec.check(o[0] == "err", f"{key}|unfit", lambda: f"{ctx}: {o}")
        return
    c, b = m.state
    rec.check(close(obj.coeffs(), c, 1e-6, SMALL), f"{key}|coeffs", lambda: f"{ctx}: {obj.coeffs()} want {c}")
    gb = obj.bias()
    rec.check(gb is not None and close(gb, b, 1e-6, SMALL), f"{key}|bias", lambda: f"{ctx}: {gb} want {b}")
    p = obj.predict(PROBE)
    rec.check(p.shape == (3, 1) and close(p[:, 0], PROBE @ c + b, 1e-6, SMALL), f"{key}|predict", lambda: f"{ctx}: {p.tolist()} want {PROBE @ c + b}")
    rec.outcome((key, tuple(np.round(c, 3)), round(float(b), 3)))
    if hasattr(obj, "predict_df"):
        f = pl.DataFrame({"a": PROBE[:, 0], "b": PROBE[:, 1]})
        for d in (f, f.lazy()):
            o = outcome_of(lambda: obj.predict_df(d, name="out"))
            if not m.names:
                rec.check(o[0] == "err", f"{key}|names", lambda: f"{ctx}: {o}")
            else:
                rec.check(o[0] == "ok" and type(o[1]) is type(d), f"{key}|predict_df", lambda: f"{ctx}: {o}")
                got = o[1].lazy().collect()
                want = f.select(m.names).to_numpy() @ c + b
                rec.check(got.columns == ["a", "b", "out"] and close(got["out"], want, 1e-6, SMALL), f"{key}|predict_df", lambda: f"{ctx}: {got} want {want}")


NAN = A[0].copy(), A[1].copy()
NAN[0][1, 0] = np.nan
NAN[1][3] = np.nan
OPS = ["fitA", "fitB", "fit1d", "skip", "zero", "raise", "df", "dfint", "dfskip", "dfone", "short", "mismatch", "names", "badpredict"]


def offline(kind, op, obj, m, bias, l1, l2, rec, ctx):
    def fitted(X, y):
        if kind == "lr":
            m.set(reference(X, y, bias, l2))
        else:
            full = obj.coeffs(), obj.bias()
            v = kkt(X, y, np.asarray(full[0]), full[1] if bias else None, l1, l2)
            rec.check(v < 1e-6, "en|optimal", lambda: f"{ctx}: violates optimality by {v}")
            m.state = (np.asarray(full[0]), full[1])

    XN, yN = NAN
    frame = pl.DataFrame({"a": A[0][:, 0], "b": A[0][:, 1], "y": A[1], "z": range(6)})
    if op == "fitA":
        obj.fit(*A)
        fitted(*A)
    elif op == "fitB":
        obj.fit(np.asfortranarray(B[0]), B[1].reshape(-1, 1))
        fitted(*B)
    elif op == "fit1d":
        obj.fit(np.repeat(B[0], 2, axis=0)[::2], np.repeat(B[1], 2)[::2])
        fitted(*B)
    elif op == "skip":
        obj.fit(XN, yN, null_policy="skip")
        ok = ~(np.isnan(XN).any(axis=1) | np.isnan(yN))
        fitted(XN[ok], yN[ok])
    elif op == "zero":
        obj.fit(XN, yN, null_policy="zero")
        ok = ~np.isnan(yN)
        fitted(np.nan_to_num(XN)[ok], yN[ok])
    elif op == "raise":
        for bad in ((XN, yN), (XN, A[1]), (A[0], yN)):
            for pol in ("raise", "nan", "inf", "half"):
                o = outcome_of(lambda: obj.fit(*bad, null_policy=pol))
                rec.check(o[0] == "err", "raise", lambda: f"{ctx} {pol}: {o}")
    elif op in ("df", "dfint"):
        feats = ["b", "a"] if op == "df" else ["a", "b"]
        d = frame if op == "df" else frame.cast(pl.Int64).lazy()
        obj.fit_df(d, features=feats, target="y")
        m.names = feats
        fitted(frame.select(feats).to_numpy(), A[1])
    elif op in ("dfskip", "dfone"):
        d = frame.with_columns(pl.when(pl.col("z") == 2).then(None).otherwise(pl.col("a")).alias("a"), pl.when(pl.col("z") == 4).then(None).otherwise(pl.col("y")).alias("y"))
        obj.fit_df(d, features=["a", "b"], target="y", null_policy=op[2:])
        m.names = ["a", "b"]
        keep = [0, 1, 3, 5] if op == "dfskip" else [0, 1, 2, 3, 5]
        X = A[0].copy()
        X[2, 0] = 1.0
        fitted(X[keep], A[1][keep])
    elif op == "short":
        if kind == "lr":
            o = outcome_of(lambda: obj.fit(A[0][:1], A[1][:1]))
            rec.check(o[0] == "err", "short", lambda: f"{ctx}: {o}")
    elif op == "mismatch":
        o = outcome_of(lambda: obj.fit(A[0], A[1][:3]))
        rec.check(o[0] == "err", "mismatch", lambda: f"{ctx}: {o}")
    elif op == "names":
        obj.set_input_features(["b", "a"])
        m.names = ["b", "a"]
    elif op == "badpredict":
        o = outcome_of(lambda: obj.predict(np.ones((2, 3))))
        rec.check(o[0] == "err", "badpredict", lambda: f"{ctx}: {o}")


def offline_cases(tier):
    depth = 3 if tier == "quick" else 4
    for kind, l1, l2 in (("lr", 0.0, 0.0), ("lr", 0.0, 2.0), ("en", 0.3, 0.0), ("en", 0.3, 0.2)):
        for bias in (False, True):
            for start in ("new", "values"):
                for first in OPS:
                    yield [kind, l1, l2, bias, start, first, depth]


def offline_run(case, rec):
    kind, l1, l2, bias, start, first, depth = case
    for rest in product(OPS, repeat=depth - 1):
        if rest and rest[0] in ("badpredict",) and depth > 3:
            continue
        m = Model(bias)
        if start == "new":
            obj = LR(has_bias=bias, lambda_=l2) if kind == "lr" else ElasticNet(l1, l2, has_bias=bias, tol=1e-13)
        else:
            if kind == "en" or l2 or first not in ("names", "badpredict", "short", "mismatch"):  # a restored model has no regularisation of its own to fit with
                return
            obj = LR.from_values([1.5, -2.0], bias=4.0 if bias else 0.0, feature_names_in_=["a", "b"])
            m.set([1.5, -2.0, 4.0] if bias else [1.5, -2.0])
            m.names = ["a", "b"]
        hist = []
        rec.state()
        for i, op in enumerate((first, *rest)):
            hist.append(op)
            rec.trans()
            ctx = f"{kind} l1={l1} l2={l2} bias={bias} {start} {hist}"
            offline(kind, op, obj, m, bias, l1, l2, rec, ctx)
            if i == depth - 1 or depth == 1:
                observe(rec, obj, m, ctx, kind)


def value_cases(tier):
    return [[kind, bias] for kind in ("lr", "en") for bias in (0.0, 3.0, -1.25, 1.0, -1.0, 1e-6, -1e-20)]


def value_run(case, rec):
    kind, bias = case
    for c in product((-1.0, 0.0, 2.5), repeat=2):
        for names in (None, ["a", "b"], ["b", "a"]):
            rec.state()
            rec.trans()
            obj = (LR if kind == "lr" else ElasticNet).from_values(list(c), bias=bias, feature_names_in_=names)
            m = Model(True)
            m.set([*c, bias])
            m.names = names or []
            observe(rec, obj, m, f"{kind}.from_values({c}, {bias}, {names})", "values")
            if kind == "en":
                rec.check(obj.has_bias() == (bias != 0.0), "has_bias", lambda: f"{c} {bias}")


# ------------------------------------------------------------------ online
ROWS = [(np.array([2.0, -1.0]), 3.0), (np.array([0.0, 4.0]), -1.0), (np.array([5.0, 1.0]), 0.5)]
ONLINE = ["add0", "add1", "add2", "drop0", "drop1", "twice2", "nanx", "nany", "nanfit", "refit", "restore"]


def online_cases(tier):
    depth = 4 if tier == "quick" else 5
    for bias in (False, True):
        for l2 in (0.0, 1.5):
            for first in product(ONLINE, repeat=2):
                yield [bias, l2, list(first), depth]


def online_run(case, rec):
    bias, l2, first, depth = case
    for rest in product(ONLINE, repeat=depth - 2):
        rec.state()
        obj = OnlineLR(lambda_=l2, has_bias=bias)
        hist = [*first, *rest]
        ctx = f"online bias={bias} l2={l2} {hist}"
        if rest == ("add0",) * len(rest):
            rec.check(not obj.is_fit(), "online|is_fit", ctx)
            o = outcome_of(lambda: obj.update(ROWS[0][0], ROWS[0][1]))
            rec.check(o[0] == "err", "online|update-unfit", lambda: f"{ctx}: {o}")
        obj.fit(B[0], B[1])
        X, y, w, reg = B[0], B[1], np.ones(4), l2
        for i, op in enumerate(hist):
            rec.trans()
            if op[:3] in ("add", "dro", "twi"):
                x, t = ROWS[int(op[-1])]
                c = {"add": 1.0, "dro": -1.0, "twi": 2.0}[op[:3]]
                if op == "add1":
                    obj.update(x.reshape(1, 2), np.array([[t]]))
                elif op == "add2":
                    obj.update(x, np.array([t]), c)
                else:
                    obj.update(x, t, c)
                X, y, w = np.vstack([X, x]), np.append(y, t), np.append(w, c)
            elif op == "nanx":
                obj.update(np.array([np.nan, 1.0]), 2.0)
            elif op == "nany":
                obj.update(np.array([3.0, 1.0]), np.nan)
            elif op == "nanfit":
                for bad in ((NAN[0], A[1]), (A[0], NAN[1]), NAN):
                    o = outcome_of(lambda: obj.fit(*bad))
                    rec.check(o[0] == "err", "online|nan fit", lambda: f"{ctx}: {o}")
            elif op == "refit":
                obj.fit(A[0], A[1].reshape(-1, 1))
                X, y, w = A[0], A[1], np.ones(len(A[1]))
                reg = obj._lr.lambda_
            elif op == "restore":
                obj = OnlineLR.from_coeffs_bias_inverse(obj.coeffs(), obj.bias(), obj.inv())
            G = gram(design(X, bias), bias, reg, w)
            if np.linalg.det(G) < 0.5 or np.linalg.eigvalsh(G)[0] < 1e-3:  # taking rows away that were never added leaves no regression
                rec.outcome("undetermined")
                break
        else:
            D = design(X, bias)
            ref = np.linalg.solve(G, D.T @ (w * y))
            m = Model(bias)
            m.set(ref)
            observe(rec, obj, m, ctx, "online")
            rec.check(close(obj.inv(), np.linalg.inv(G), 1e-5, 1e-6), "online|inverse", lambda: f"{ctx}: {obj.inv().tolist()} want {np.linalg.inv(G).tolist()}")


# ---------------------------------------------------------------- long streams of updates
def stream_cases(tier):
    return [[n, k, bias, l2] for n in ((20, 100, 600) if tier == "quick" else (20, 100, 600, 3000)) for k in (1, 2, 5, 12) for bias in (False, True) for l2 in (0.0, 1.5) if n > 2 * k]


def stream_run(case, rec):
    """Rows that come one after the other, or in and out of a window, with weights: the regression of all of them."""
    n, k, bias, l2 = case
    X, y, w = big(n, k, 5)
    start = 2 * k + 4
    for kind in ("grow", "window", "weights", "save"):
        obj = OnlineLR(lambda_=l2, has_bias=bias)
        obj.fit(X[:start], y[:start])
        ws = np.zeros(n)
        ws[:start] = 1.0
        rec.state()
        for i in range(start, n):
            c = w[i] if kind == "weights" else 1.0
            obj.update(X[i], y[i], c)
            ws[i] = c
            rec.trans()
            if kind == "window" and i >= start + 30:
                j = i - 30 - start
                obj.update(X[j], y[j], -1.0)
                ws[j] = 0.0
            if kind == "save" and i % 9 == 0:
                obj = OnlineLR.from_coeffs_bias_inverse(obj.coeffs(), obj.bias(), obj.inv())
            if i == n - 1 or i % 97 == 50:
                D = design(X, bias)
                G = gram(D, bias, l2, ws)
                ref = np.linalg.solve(G, D.T @ (ws * y))
                got = np.append(obj.coeffs(), obj.bias()) if bias else obj.coeffs()
                rec.check(close(got, ref, 1e-5, 1e-5), f"stream|{kind}", lambda: f"{case} {kind} after {i + 1} rows: {got} want {ref}")
                rec.check(close(obj.inv(), np.linalg.inv(G), 1e-4, 1e-5), f"stream inverse|{kind}", lambda: f"{case} {kind} after {i + 1} rows")
        rec.outcome((kind, tuple(np.round(ref, 2))))


def many_cases(tier):
    return [[n, k, bias, l2] for n in (5000, 70_001) for k in (1, 3, 9) for bias in (False, True) for l2 in (0.0, 1.5)]


def many_run(case, rec):
    """Fits and predictions of tens of thousands of rows, and as many single updates."""
    n, k, bias, l2 = case
    X, y, w = big(n, k, 3)
    D = design(X, bias)

    def solve(ws):
        return np.linalg.solve(gram(D, bias, l2, ws), D.T @ (ws * y))

    def see(obj, ws, key):
        ref = solve(ws)
        rec.trans()
        got = np.append(obj.coeffs(), obj.bias()) if bias else np.asarray(obj.coeffs())
        rec.check(close(got, ref, 1e-6, 1e-7), f"many|{key}", lambda: f"{case} {key}: {got} want {ref}")
        p = obj.predict(X)
        rec.check(p.shape == (n, 1) and close(p[:, 0], D @ ref, 1e-6, 1e-6), f"many|predict|{key}", f"{case} {key}")

    ones = np.ones(n)
    names = [f"x{j}" for j in range(k)]
    rec.state()
    if l2:
        obj = LR(has_bias=bias, lambda_=l2, solver="qr")
    else:
        obj = LR(has_bias=bias, solver="qr")
    obj.fit(X, y)
    see(obj, ones, "fit")
    Xn, yn = X.copy(), y.copy()
    Xn[:, 0][np.arange(n) % 7 == 2] = np.nan
    yn[np.arange(n) % 11 == 5] = np.nan
    keep = ~(np.isnan(Xn[:, 0]) | np.isnan(yn))
    obj.fit(Xn, yn, null_policy="skip")
    see(obj, keep * 1.0, "fit skipping")
    df = pl.DataFrame({**{c: Xn[:, j] for j, c in enumerate(names)}, "y": yn}).fill_nan(None)
    obj.fit_df(df, features=names, target="y", null_policy="skip")
    see(obj, keep * 1.0, "fit of a frame")
    got = obj.predict_df(pl.DataFrame({c: X[:, j] for j, c in enumerate(names)}), name="p")["p"].to_numpy()
    rec.check(close(got, D @ solve(keep * 1.0), 1e-6, 1e-6), "many|predict_df", str(case))
    en = ElasticNet(0.5, 0.25, has_bias=bias)
    en.fit(X, y)
    rec.trans()
    v = kkt(X, y, np.asarray(en.coeffs()), en.bias() if bias else None, 0.5, 0.25)
    rec.check(v < 1e-4, "many|elastic net", lambda: f"{case}: violates optimality by {v}")
    on = OnlineLR(lambda_=l2, has_bias=bias)
    on.fit(X, y)
    see(on, ones, "online fit")
    on = OnlineLR(lambda_=l2, has_bias=bias)
    on.fit(X[:50], y[:50])
    for i in range(50, n):
        on.update(X[i], y[i], 1.0)
    rec.trans(n - 50)
    ref = solve(ones)
    got = np.append(on.coeffs(), on.bias()) if bias else np.asarray(on.coeffs())
    rec.check(close(got, ref, 1e-5, 1e-5), "many|updates", lambda: f"{case}: {got} want {ref}")
    rec.check(close(on.inv() * n, np.linalg.inv(gram(D, bias, l2, ones)) * n, 1e-3, 1e-3), "many|inverse", str(case))
    rec.outcome(tuple(case))


FAMILIES = [
    Family("offline", offline_cases, offline_run, f"every history of 3 (4) operations out of {len(OPS)} (fits of arrays and frames, null policies, refused calls, names) on LR and ElasticNet, with and without bias and penalty"),
    Family("values", value_cases, value_run, "models restored from 9 coefficient pairs x 7 biases x feature orders"),
    Family("online", online_cases, online_run, f"every history of 4 (5) operations out of {len(ONLINE)} (adding, removing, weighting rows, NaN rows, refits, save and restore) after a fit of OnlineLR x bias x ridge"),
    Family("streams", stream_cases, stream_run, "streams of 20, 100, 600 (3000) rows of 1, 2, 5, 12 features x bias x ridge: growing, with rows leaving again, weighted, saved and restored on the way"),
    Family("many", many_cases, many_run, "5,000 and 70,001 rows of 1, 3, 9 features x bias x ridge: fits of arrays and frames, predictions, elastic net, and as many single updates"),
]
