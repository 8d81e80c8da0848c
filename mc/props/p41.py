"""P41: results do not depend on the units or the origin of the data."""
import math
import warnings

import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.linear_models import LR, ElasticNet, OnlineLR
from polars_ds.modeling.pipeline import Blueprint
from polars_ds.spatial import KDTree

from .. import catalog
from ..core import Family, equal, outcome_of, short

c = pl.col


def fun(n):
    return catalog.fun(n)


def deg(out, d, s):
    """The result expected in units s times smaller: d is a power, a tuple of powers for the values of a list, or powers by field."""
    if callable(d):
        return d(out, s)
    if isinstance(d, dict):
        if isinstance(out, list):
            return [deg(v, d, s) for v in out]
        return None if out is None else {k: deg(v, d[k], s) for k, v in out.items()}
    if isinstance(d, tuple):
        if isinstance(out, list) and len(out) == len(d) and not any(isinstance(v, (list, dict)) for v in out):
            return [deg(v, p, s) for v, p in zip(out, d)]
        return None if out is None else [deg(v, d, s) for v in out]
    if isinstance(out, list):
        return [deg(v, d, s) for v in out]
    if isinstance(out, dict):
        return {k: deg(v, d, s) for k, v in out.items()}
    return out * s**d if isinstance(out, float) and d else out


def size(v):
    if isinstance(v, (list, tuple)):
        return max(map(size, v), default=0.0)
    if isinstance(v, dict):
        return max(map(size, v.values()), default=0.0)
    return abs(v) if isinstance(v, float) and math.isfinite(v) else 0.0


def alike(a, b, tol):
    """Equal up to rounding of the largest value of each list or field."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(alike(a[k], b[k], tol) for k in a)
    if isinstance(a, list) and isinstance(b, list) and any(isinstance(v, (list, dict)) for v in a):
        if all(isinstance(v, dict) for v in a + b) and a and len(a) == len(b):
            return all(alike([v[k] for v in a], [v.get(k) for v in b], tol) for k in a[0])
        return len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    return equal(a, b, tol, tol * 1e-2 * size(b))


def ex(make):
    """An expression as a function of the frame and the unit."""
    return lambda df, s: df.select(make(s).alias("o"))["o"].to_list()


XYZ = dict(x=1, y=1, z=1)
NB = dict(idx=0, dist=1)
UNITS = {}


def unit(name, cols, f, d, **kw):
    UNITS[name] = (cols, f, d, kw)


def _units():
    for dist in ("l1", "l2", "sql2", "inf"):
        q = 2 if dist == "sql2" else 1
        nb = dict(idx=0, dist=q)
        unit(f"knn {dist}", XYZ, ex(lambda s, dist=dist, q=q: pds.query_knn_ptwise("x", "y", index="id", k=3, dist=dist, max_bound=1e9 * s**q)), 0)
        unit(f"knn dist {dist}", XYZ, ex(lambda s, dist=dist, q=q: pds.query_knn_ptwise("x", "y", "z", index="id", k=3, dist=dist, return_dist=True, max_bound=1e9 * s**q)), nb)
        unit(f"knn bound {dist}", XYZ, ex(lambda s, dist=dist, q=q: pds.query_knn_ptwise("x", "y", index="id", k=3, dist=dist, return_dist=True, max_bound=(12.0 if q == 1 else 144.0) * s**q)), nb)
        unit(f"kth {dist}", XYZ, ex(lambda s, dist=dist, q=q: pds.query_dist_from_kth_nb("x", "y", k=2, dist=dist, max_bound=1e9 * s**q)), q)
        for w in (False, True):
            unit(f"knn avg {dist} {w}", XYZ, ex(lambda s, dist=dist, w=w, q=q: pds.query_knn_avg("x", "y", target="z", k=3, dist=dist, weighted=w, max_bound=1e9 * s**q, min_bound=1e-9 * s**q)), 1, **(dict(low=-10, kinds=(0,)) if w else {}))
        r = lambda s, q=q: (15.0 if q == 1 else 225.0) * s**q
        unit(f"radius {dist}", XYZ, ex(lambda s, dist=dist, r=r: pds.query_radius_ptwise("x", "y", index="id", r=r(s), dist=dist)), 0)
        unit(f"nb cnt {dist}", XYZ, ex(lambda s, dist=dist, r=r: pds.query_nb_cnt("x", "y", r=r(s), dist=dist)), 0)
        unit(f"nb cnt column {dist}", dict(XYZ, p=q), ex(lambda s, dist=dist: pds.query_nb_cnt("x", "y", r="p", dist=dist)), 0)
        unit(f"radius freq {dist}", XYZ, ex(lambda s, dist=dist, r=r: pds.query_radius_freq_cnt("x", "y", index="id", r=r(s), dist=dist)), 0, unordered=True)
        unit(f"knn freq {dist}", XYZ, ex(lambda s, dist=dist, q=q: pds.query_knn_freq_cnt("x", "y", index="id", k=2, dist=dist, max_bound=1e9 * s**q)), 0, unordered=True)
        unit(f"within {dist}", XYZ, ex(lambda s, dist=dist, r=r: pds.within_dist_from("x", "y", pt=[20.0 * s, 20.0 * s], r=r(s), dist=dist)), 0)
        unit(f"is knn {dist}", XYZ, ex(lambda s, dist=dist: pds.is_knn_from("x", "y", pt=[20.0 * s, 20.0 * s], k=3, dist=dist)), 0)

        def tree(df, s, dist=dist, q=q, r=r):
            m = np.ascontiguousarray(df.select("x", "y").to_numpy())
            t = KDTree(np.ascontiguousarray(m[: len(m) // 2]), distance=dist)
            t.add(np.ascontiguousarray(m[len(m) // 2 :]))
            d, i = t.knn(m, 3, max_dist_bound=1e9 * s**q)
            w = t.within(m, r(s), return_dist=True, sort=True)
            n = t.within_count(m, r(s))
            return [{"i": np.asarray(i).tolist(), "d": np.asarray(d).tolist(), "n": np.asarray(n).tolist(), "w": [[float(v) for _, v in row] for row in w]}]

        unit(f"tree {dist}", XYZ, tree, dict(i=0, d=q, n=0, w=q))
    for nm, q in (("l1_horizontal", 1), ("l2_sq_horizontal", 2), ("l_inf_horizontal", 1)):
        unit(nm, XYZ, ex(lambda s, nm=nm: getattr(pds, nm)("x", "y", "z")), q)
    for nm, q in (("center", 1), ("z_normalize", 0), ("detrend", 1), ("is_increasing", 0), ("is_decreasing", 0), ("isotonic_regression", 1), ("rfft", 1), ("normal_test", 0), ("query_mad", 1),
                  ("query_mid_range", 1), ("query_symm_ratio", 0), ("query_abs_energy", 2), ("query_mean_abs_change", 1), ("query_cv", 0), ("query_count_uniques", 0), ("query_cid_ce", 1), ("query_permute_entropy", 0), ("winsorize", 1)):
        unit(nm, XYZ, ex(lambda s, nm=nm: fun(nm)("x")), q, **({"min_n": 20} if nm == "normal_test" else {}))
    unit("cid normalized", XYZ, ex(lambda s: pds.query_cid_ce("x", normalize=True)), 0)
    unit("detrend mean", XYZ, ex(lambda s: pds.detrend("x", "mean")), 1)
    unit("isotonic falling", dict(x=1), ex(lambda s: pds.isotonic_regression("x", weights="w", increasing=False)), 1)
    unit("isotonic weights", dict(w=1), ex(lambda s: pds.isotonic_regression("x", weights="w")), 0)
    unit("trapz", dict(x=1, y=2), ex(lambda s: pds.integrate_trapz("y", c("x"))), 3)
    unit("trapz step", dict(y=1), ex(lambda s: pds.integrate_trapz("y", 0.5 * s)), 2)
    for mode in ("full", "same", "valid"):
        for meth in ("direct", "fft"):
            unit(f"convolve {mode} {meth}", XYZ, ex(lambda s, mode=mode, meth=meth: pds.convolve("x", [1.0 * s, -2.0 * s, 0.5 * s], mode=mode, method=meth)), 2)
    unit("singular values", XYZ, ex(lambda s: pds.singular_values("x", "y", "z")), 1)
    unit("explained", XYZ, ex(lambda s: pds.singular_values("x", "y", "z", as_explained_var=True)), 2)
    unit("explained ratio", XYZ, ex(lambda s: pds.singular_values("x", "y", "z", as_explained_var=True, as_ratio=True)), 0)
    unit("pca", XYZ, ex(lambda s: pds.pca("x", "y", "z")), dict(singular_value=1, weight_vector=0), signs="weight_vector")
    unit("principal components", XYZ, ex(lambda s: pds.principal_components("x", "y", "z", k=2)), dict(pc1=1, pc2=1), signs="")
    unit("psi", XYZ, ex(lambda s: pds.psi("x", "y", n_bins=3)), 0)
    unit("psi report", XYZ, ex(lambda s: pds.psi("x", "y", n_bins=3, return_report=True)), {"<=": 1, "baseline_pct": 0, "actual_pct": 0, "psi_bin": 0})
    unit("psi breakpoints", XYZ, ex(lambda s: pds.psi_w_breakpoints("x", "y", [10.0 * s, 20.0 * s, 30.0 * s])), {"<=": 1, "baseline_pct": 0, "actual_pct": 0, "psi_bin": 0})
    unit("information value", XYZ, ex(lambda s: pds.info_value("x", "t", n_bins=3)), 0)
    # regressions: the features in units s, the target in units s^2
    for bias, only in ((False, False), (True, True), (True, False)):
        # with an intercept, other units of the features are another conditioning of the matrix
        nm, T, fs, P = (" target", dict(z=1), 1.0, 1) if only else ("", dict(x=1, y=1, z=2), None, 2)
        cf = (1,) * (2 + bias) if only else (1, 1, 2)[: 2 + bias]
        K = dict(low=-8, high=8, tol=1e-6) if bias and not only else {}
        K2 = dict(K, tol=1e-5)
        L2 = 0 if only else 2
        for solver in ("qr", "svd", "cholesky"):
            unit(f"lin_reg {solver} {bias}{nm}", T, ex(lambda s, bias=bias, solver=solver: pds.lin_reg("x", "y", target="z", add_bias=bias, solver=solver)), cf, **K)
        unit(f"lin_reg weights {bias}{nm}", dict(T, w=3), ex(lambda s, bias=bias: pds.lin_reg("x", "y", target="z", add_bias=bias, weights="w")), cf, **K)
        unit(f"lin_reg pred {bias}{nm}", T, ex(lambda s, bias=bias: pds.lin_reg("x", "y", target="z", add_bias=bias, return_pred=True)), dict(pred=P, resid=P), **K)
        unit(f"ridge {bias}{nm}", T, ex(lambda s, bias=bias, L2=L2: pds.lin_reg("x", "y", target="z", add_bias=bias, l2_reg=0.3 * s**L2)), cf, **K)
        unit(f"several targets {bias}{nm}", dict(T, p=3), ex(lambda s, bias=bias: pds.lin_reg("x", "y", target=["z", "p"], add_bias=bias)), dict(coeffs_0=cf, coeffs_1=(3,) * (2 + bias) if only else tuple(v + 1 for v in cf)), fields=True, **K)
        unit(f"simple {bias}{nm}", T, ex(lambda s, bias=bias: pds.simple_lin_reg("x", target="z", add_bias=bias)), cf[:1] + cf[2:], **K)
        unit(f"simple weights {bias}{nm}", dict(T, w=-1), ex(lambda s, bias=bias: pds.simple_lin_reg("x", target="z", add_bias=bias, weights="w")), cf[:1] + cf[2:], **K)
        if only or not bias:
            unit(f"rcond {bias}", T, ex(lambda s, bias=bias: pds.lin_reg_w_rcond("x", "y", target="z", add_bias=bias, rcond=1e-12)), dict(coeffs=1, singular_values=0 if only else 1))
        if not only:
            unit(f"lasso {bias}", dict(z=1), ex(lambda s, bias=bias: pds.lin_reg("x", "y", target="z", add_bias=bias, l1_reg=0.3 * s, tol=1e-9 * s)), 1, tol=1e-5)
            unit(f"elastic {bias}", dict(z=1), ex(lambda s, bias=bias: pds.lin_reg("x", "y", target="z", add_bias=bias, l1_reg=0.3 * s, l2_reg=0.1, tol=1e-9 * s)), 1, tol=1e-5)
        for w in (0.0, 0.3):
            unit(f"rolling {bias} {w}{nm}", T, ex(lambda s, bias=bias, w=w, L2=L2: pds.rolling_lin_reg("x", "y", target="z", window_size=5, add_bias=bias, l2_reg=w * s**L2)), dict(coeffs=cf, pred=P), **K2)
            unit(f"recursive {bias} {w}{nm}", T, ex(lambda s, bias=bias, w=w, L2=L2: pds.recursive_lin_reg("x", "y", target="z", start_with=5, add_bias=bias, l2_reg=w * s**L2)), dict(coeffs=cf, pred=P), **K2)
        rep = {k: cf for k in ("beta", "std_err", "hc0_se", "hc1_se", "hc2_se", "hc3_se", "0.025", "0.975")}
        for kind in ("se", "hc0", "hc1", "hc2", "hc3"):
            unit(f"report {kind} {bias}{nm}", T, ex(lambda s, bias=bias, kind=kind: pds.lin_reg_report("x", "y", target="z", add_bias=bias, std_err=kind)), rep, by_row=True, **(K or dict(tol=1e-7)))
        unit(f"report weights {bias}{nm}", dict(T, w=2), ex(lambda s, bias=bias: pds.lin_reg_report("x", "y", target="z", add_bias=bias, weights="w")), rep, by_row=True, **(K or dict(tol=1e-7)))

        def models(df, s, bias=bias, L2=L2):
            X, y = df.select("x", "y").to_numpy(), df["z"].to_numpy()
            out = []
            told = LR(has_bias=bias)
            for m in (told, LR(has_bias=bias, lambda_=0.25 * s**L2)):
                m.fit(X, y)
                out.append({"c": m.coeffs().tolist(), "b": float(m.bias()), "p": m.predict(X).ravel().tolist()})
            for kind in (LR, ElasticNet):
                m = kind.from_values(told.coeffs(), float(told.bias()))
                out.append({"c": m.coeffs().tolist(), "b": float(m.bias()), "p": m.predict(X).ravel().tolist()})
            o = OnlineLR(has_bias=bias)
            o.fit(X[:6], y[:6])
            for i in range(6, len(X)):
                o.update(X[i : i + 1], y[i : i + 1])
            out.append({"c": o.coeffs().tolist(), "b": float(o.bias()), "p": o.predict(X).ravel().tolist()})
            return out

        unit(f"models {bias}{nm}", T, models, dict(c=cf[0], b=P, p=P), **(K or dict(tol=1e-6)))
    for nm, q in (("query_r2", 0), ("query_l2", 2), ("query_l1", 1), ("query_l_inf", 1), ("query_mape", 0), ("query_smape", 0)):
        unit(nm, dict(p=1, w=1), ex(lambda s, nm=nm: fun(nm)("p", c("w"))), q)
    unit("adj r2", dict(p=1, w=1), ex(lambda s: pds.query_adj_r2("p", "w", p=2)), 0)
    unit("huber", XYZ, ex(lambda s: pds.query_hubor_loss("x", "y", delta=6.0 * s)), 2)
    unit("mase", XYZ, ex(lambda s: pds.query_mase("x", "y", train="z")), 0)
    for nm in ("query_roc_auc", "query_gini"):
        unit(nm, dict(u=1), ex(lambda s, nm=nm: fun(nm)("t", "u")), 0)
    unit("tpr fpr", dict(u=1), ex(lambda s: pds.query_tpr_fpr("t", "u")), dict(threshold=1, cnt=0, pos=0, tpr=0, fpr=0, precision=0, recall=0), loose=True)
    unit("binary metrics", dict(u=1), ex(lambda s: pds.query_binary_metrics("t", "u", threshold=0.4375 * s)), 0)
    unit("confusion", dict(u=1), ex(lambda s: pds.query_confusion_matrix("t", "u", threshold=0.4375 * s, all_metrics=True)), 0)
    unit("multi auc", dict(u=1), ex(lambda s: pds.query_multi_roc_auc("c3", pl.concat_list("u", c("u") * 0.5, 0.7 * s - c("u") * 0.25), n_classes=3)), 0)
    unit("fairness", dict(u=1), ex(lambda s: pds.query_fairness("u", c("tb"))), 1)
    for nm, k in (("ttest", dict(equal_var=True)), ("welch", {}), ("less", dict(alternative="less"))):
        unit(nm, XYZ, ex(lambda s, k=k: pds.ttest_ind("x", "y", **k)), 0)
    unit("ttest 1", XYZ, ex(lambda s: pds.ttest_1samp("x", 20.0 * s)), 0)
    unit("ttest stats", XYZ, ex(lambda s: pds.ttest_ind_from_stats("x", 20.0 * s, 30.0 * s**2, 12)), 0)
    unit("ks", XYZ, ex(lambda s: pds.ks_2samp("x", "y")), 0)
    unit("f test", XYZ, ex(lambda s: pds.f_test("x", group="c3")), 0)
    unit("f test 2", XYZ, ex(lambda s: pds.f_test("x", "y", group="c3")), 0)
    for k in (dict(), dict(alternative="greater")):
        unit(f"mwu {k}", XYZ, ex(lambda s, k=k: pds.mann_whitney_u("x", "y", **k)), 0)
    for nm, q in (("hmean", 1), ("gmean", 1)):
        unit(nm, dict(p=1), ex(lambda s, nm=nm: getattr(pds, nm)("p")), q)
    for nm, q in (("weighted_hmean", 1), ("weighted_gmean", 1), ("weighted_mean", 1), ("weighted_var", 2)):
        unit(nm, dict(p=1, w=3), ex(lambda s, nm=nm: getattr(pds, nm)("p", "w")), q)
    unit("weighted cov", dict(x=1, y=1, w=3), ex(lambda s: pds.weighted_cov("x", "y", c("w"))), 2)
    for nm in ("weighted_corr", "weighted_cosine_sim"):
        unit(nm, dict(x=1, y=2, w=3), ex(lambda s, nm=nm: getattr(pds, nm)("x", "y", "w")), 0)
    for nm in ("cosine_sim", "kendall_tau", "bicor"):
        unit(nm, dict(x=1, y=2), ex(lambda s, nm=nm: getattr(pds, nm)("x", "y")), 0)
    for p in (False, True):
        unit(f"xi {p}", dict(x=1, y=2), ex(lambda s, p=p: pds.xi_corr("x", "y", seed=1, return_p=p)), 0)
    unit("largest n", XYZ, ex(lambda s: pds.query_mean_n_abs_max("x", 3)), 1)
    unit("range count", XYZ, ex(lambda s: pds.query_range_count("x", 5.0 * s, 25.0 * s)), 0)
    unit("c3", XYZ, ex(lambda s: pds.query_c3_stats("x", 2)), 3)
    unit("tras", XYZ, ex(lambda s: pds.query_time_reversal_asymmetry_stats("x", 2)), 3)
    unit("auto corr", XYZ, ex(lambda s: pds.query_auto_corr("x", 2)), 0)
    unit("ar coeffs", XYZ, ex(lambda s: pds.query_ar_coeffs("x", 2)), (0, 0, 1), low=-8, high=8, tol=1e-6)
    unit("similar sql2", XYZ, ex(lambda s: pds.query_similar_count([10.0 * s, 30.0 * s, 20.0 * s], "x", threshold=400.0 * s**2, metric="sql2")), 0)
    unit("similar sqzl2", XYZ, ex(lambda s: pds.query_similar_count([10.0 * s, 30.0 * s, 20.0 * s], "x", threshold=1.5, metric="sqzl2")), 0, low=-8)
    unit("sample entropy", XYZ, ex(lambda s: pds.query_sample_entropy("x")), 0, low=-20)
    unit("approx entropy", XYZ, ex(lambda s: pds.query_approx_entropy("x", m=2, filtering_level=0.5)), 0, low=-20)
    unit("knn entropy", XYZ, ex(lambda s: pds.query_knn_entropy("x", "y")), lambda o, s: [o[0] + 2 * math.log(s)])
    for nm, f in (("copula", lambda s: pds.query_copula_entropy("x", "y")), ("cond indep", lambda s: pds.query_cond_indep("x", "y", "z")), ("transfer", lambda s: pds.query_transfer_entropy("x", "y"))):
        unit(f"{nm} entropy", dict(x=1, y=2, z=3), ex(f), 0)

    unit("woe", XYZ, ex(lambda s: pds.woe("x", "t", n_bins=3).struct.field("woe").sort()), 0)

    def step(*steps, cols="xyz", target=None):
        def run(df, s):
            bp = Blueprint(df, name="p", target=target, lowercase=False)
            for nm, k in steps:
                k = {a: v(s) if callable(v) else v for a, v in k.items()}
                bp = getattr(bp, nm)(*(["ts"],) * (nm == "target_encode"), **k)
            out = bp.materialize().transform(df)
            return out.select(v for v in out.columns if (v[0] in cols or v in cols) and (v != "xn" or "n" in cols)).rows(named=True)

        return run

    on = dict(cols=["x", "y", "z"])
    one = dict(x=1, y=1, z=1)
    for m in ("standard", "min_max", "abs_max", "robust"):
        unit(f"scale {m}", XYZ, step(("scale", dict(on, method=m))) if m != "robust" else step(("robust_scale", dict(on, q_low=0.25, q_high=0.75))), 0)
    unit("pipeline center", XYZ, step(("center", on)), one)
    unit("pipeline winsorize", XYZ, step(("winsorize", dict(on, q_low=0.1, q_high=0.9))), one)
    for m in ("mean", "median"):
        unit(f"impute {m}", dict(XYZ, xn=1), step(("impute", dict(cols=["x", "xn"], method=m)), cols="xyzn"), dict(one, xn=1))
    unit("linear impute", dict(XYZ, xn=1), step(("linear_impute", dict(features=["y", "z"], target="xn", add_bias=False)), cols="xyzn"), dict(one, xn=1), tol=1e-8)
    unit("polynomial", XYZ, step(("polynomial_features", dict(on, degree=2, interaction_only=False))), None, poly=True)
    unit("target encode", dict(u=1), step(("target_encode", dict(target="u")), cols=["ts"], target="u"), dict(ts=1))

    def linear_pipe(df, s):
        m = LR(has_bias=True).fit_df(df.select("x", "y", "z"), features=["x", "y"], target="z")
        return m.predict_df(df.select("x", "y"), name="o").lazy().collect()["o"].to_list()

    unit("fit a frame", dict(z=1), linear_pipe, 1)
    for kind in ("l1", "l2"):
        def en(df, s, kind=kind):
            X, y = df.select("x", "y").to_numpy(), df["z"].to_numpy()
            e = ElasticNet(l1_reg=0.2 * s, l2_reg=0.1 if kind == "l2" else 0.0, has_bias=True, tol=1e-9 * s).fit(X, y)
            return [{"c": e.coeffs().tolist(), "b": float(e.bias()), "p": e.predict(X).ravel().tolist()}]

        unit(f"ElasticNet {kind}", dict(z=1), en, dict(c=1, b=1, p=1), tol=1e-5)


_units()


def ties(n, salt):
    """A frame whose numbers repeat, a few of them close to each other."""
    df = catalog.frame(n, salt)
    q = lambda e, m, d: ((e * d).floor().cast(pl.Int64) % m / d).cast(pl.Float64)
    return df.with_columns(x=q(c("x"), 37, 4) + (c("id") % 5 == 2) * 2.0**-20, y=q(c("y"), 29, 4) + (c("id") % 7 == 3) * 2.0**-20, z=q(c("z"), 11, 8) + (c("id") % 6 == 1) * 2.0**-20, u=q(c("u"), 9, 16) + (c("id") % 4 == 1) * 2.0**-20 + 0.0625,
                           p=q(c("p"), 23, 4) + 0.25 + (c("id") % 5 == 1) * 2.0**-20, w=q(c("w"), 5, 2) + 0.5)


def prepare(df):
    return df.with_columns(ts=c("c3").cast(pl.String), xn=pl.when(c("id") % 3 != 1).then(c("x") * 0.5 + c("y")))


def unit_cases(tier):
    return [[name, n, salt, kind] for name, (_, _, _, kw) in UNITS.items() for n in ((9, 24, 61, 650) if tier == "quick" else (7, 8, 9, 13, 24, 40, 61, 100, 650, 1500)) for salt in ((3,) if tier == "quick" else (3, 4, 5, 6)) for kind in kw.get("kinds", (0, 1)) if n >= kw.get("min_n", 1)]


def signless(out, field):
    """Weight vectors are known up to their sign."""
    fix = lambda v: v if not v or max(v, key=abs) >= 0 else [-x for x in v]
    if field:
        return [dict(r, **{field: fix(r[field])}) for r in out]
    ks = out[0].keys()
    cols = {k: fix([r[k] for r in out]) for k in ks}
    return [dict(zip(ks, v)) for v in zip(*cols.values())]


def result(f, df, s, kw):
    got = outcome_of(f, df, s)
    if got[0] != "ok":
        return got
    out = got[1]
    if kw.get("unordered"):
        out = sorted(out, key=repr)
    if "signs" in kw and out:
        out = signless(out, kw["signs"])
    return "ok", out


def unit_run(case, rec):
    name, n, salt, kind = case
    cols, f, d, kw = UNITS[name]
    df = prepare((ties if kind else catalog.frame)(n, salt))
    base = result(f, df, 1.0, kw)
    rec.state()
    rec.outcome(base[0])
    rec.check(base[0] == "ok", f"{name}|refused", lambda: short(base[1]))
    if base[0] != "ok":
        return
    for k in (-60, -40, -30, -20, -10, -7, -4, -1, 1, 4, 7, 10, 20, 30, 40, 60):
        if not kw.get("low", -999) <= k <= kw.get("high", 999):
            continue
        s = 2.0**k
        rec.trans()
        got = result(f, df.with_columns(c(v) * s**q for v, q in cols.items()), s, kw)
        if kw.get("by_row"):
            want = [{a: deg(b, d[a][i] if isinstance(d.get(a), tuple) else d.get(a, 0), s) for a, b in r.items()} for i, r in enumerate(base[1])]
        elif kw.get("fields"):
            want = [{a: deg(b, d[q], s) for q, (a, b) in zip(d, r.items())} for r in base[1]]
        elif kw.get("loose"):
            want = [{a: deg(b, d.get(a, 0), s) for a, b in r.items()} for r in base[1]]
        elif kw.get("poly"):
            want = [{a: b * s ** (2 if len(a) > 1 else 1) for a, b in r.items()} for r in base[1]]
        else:
            want = deg(base[1], d, s)
        if kw.get("unordered"):
            want = sorted(want, key=repr)
        rec.check(got[0] == "ok" and alike(got[1], want, kw.get("tol", 1e-9)), f"{name}", lambda: f"{n} rows{' with ties' if kind else ''}, units of 2^{k}: {short(got[1])} want {short(want)}")


ORIGINS = {}


def origin(name, cols, f, d=0, **kw):
    ORIGINS[name] = (cols, f, d, kw)


def same(name):
    """The function of a unit entry, in the units of the data."""
    return lambda df, t: UNITS[name][1](df, 1.0)


def moved(out, d, t):
    """The result expected after a shift by t: d times t is added to each value, by place or by field."""
    if isinstance(d, dict):
        if isinstance(out, list):
            return [moved(v, d, t) for v in out]
        return None if out is None else {k: moved(v, d.get(k, 0), t) for k, v in out.items()}
    if isinstance(d, tuple):
        if isinstance(out, list) and len(out) == len(d) and not any(isinstance(v, (list, dict)) for v in out):
            return [moved(v, p, t) for v, p in zip(out, d)]
        return None if out is None else [moved(v, d, t) for v in out]
    if isinstance(out, (list, tuple)):
        return [moved(v, d, t) for v in out]
    if isinstance(out, dict):
        return {k: moved(v, d, t) for k, v in out.items()}
    return out + t * d if isinstance(out, float) and d else out


def _origins():
    P = ("x", "y", "z")
    for dist in ("l1", "l2", "sql2", "inf"):
        for nm in ("knn", "knn dist", "knn bound", "kth", "radius", "nb cnt", "radius freq", "knn freq", "tree"):
            origin(f"{nm} {dist}", P, same(f"{nm} {dist}"), unordered="freq" in nm, exact=True)
        for w in (False, True):
            origin(f"knn avg {dist} {w}", ("x", "y"), same(f"knn avg {dist} {w}"), exact=True)
            origin(f"knn avg {dist} {w} target", ("z",), same(f"knn avg {dist} {w}"), 1)
        q = 15.0 if dist != "sql2" else 225.0
        origin(f"within {dist}", P, ex(lambda t, dist=dist, q=q: pds.within_dist_from("x", "y", pt=[20.0 + t, 20.0 + t], r=q, dist=dist)), exact=True)
        origin(f"is knn {dist}", P, ex(lambda t, dist=dist: pds.is_knn_from("x", "y", pt=[20.0 + t, 20.0 + t], k=3, dist=dist)), exact=True)
    for nm in ("center", "z_normalize", "detrend", "detrend mean", "is_increasing", "is_decreasing", "query_mad", "query_mean_abs_change", "query_mid_range", "query_count_uniques", "query_cid_ce", "cid normalized", "query_permute_entropy",
               "singular values", "explained", "explained ratio", "pca", "principal components", "psi", "information value", "woe", "similar sqzl2", "sample entropy", "approx entropy", "knn entropy", "auto corr", "normal_test"):
        origin(nm, P, same(nm), exact=nm in ("is_increasing", "is_decreasing", "query_count_uniques", "query_permute_entropy", "psi", "information value", "woe"), **{k: v for k, v in UNITS[nm][3].items() if k in ("min_n", "signs")})
    for nm in ("isotonic_regression", "isotonic falling", "isotonic weights", "winsorize", "pipeline winsorize"):
        origin(nm, P, same(nm), 1)
    origin("trapz", ("x",), same("trapz"), exact=True)
    origin("psi report", P, same("psi report"), {"<=": 1})
    origin("psi breakpoints", P, ex(lambda t: pds.psi_w_breakpoints("x", "y", [10.0 + t, 20.0 + t, 30.0 + t])), {"<=": 1})
    for nm in ("ttest", "welch", "less", "ks", "f test", "f test 2", "mwu {}", "mwu {'alternative': 'greater'}"):
        origin(nm, P, same(nm))
    origin("ttest 1", P, ex(lambda t: pds.ttest_1samp("x", 20.0 + t)))
    origin("ttest stats", P, ex(lambda t: pds.ttest_ind_from_stats("x", 20.0 + t, 30.0, 12)))
    for nm in ("query_l2", "query_l1", "query_l_inf", "query_r2", "adj r2"):
        origin(nm, ("p", "w"), same(nm))
    for nm in ("huber", "mase"):
        origin(nm, P, same(nm))
    for nm in ("query_roc_auc", "query_gini"):
        origin(nm, ("u",), same(nm), exact=True)
    origin("tpr fpr", ("u",), same("tpr fpr"), dict(threshold=1))
    origin("binary metrics", ("u",), ex(lambda t: pds.query_binary_metrics("t", "u", threshold=0.4375 + t)), exact=True)
    origin("confusion", ("u",), ex(lambda t: pds.query_confusion_matrix("t", "u", threshold=0.4375 + t, all_metrics=True)), exact=True)
    origin("multi auc", ("u",), ex(lambda t: pds.query_multi_roc_auc("c3", pl.concat_list("u", c("u") * 0.5, t + 0.75 - c("u") * 0.25), n_classes=3)), exact=True)
    origin("weighted mean", ("p",), same("weighted_mean"), 1)
    origin("weighted var", ("p",), same("weighted_var"))
    origin("weighted cov", ("x", "y"), same("weighted cov"))
    origin("weighted corr", ("x", "y"), same("weighted_corr"))
    for nm in ("kendall_tau", "bicor", "xi False", "xi True"):
        origin(nm, ("x", "y"), same(nm))
    for nm in ("copula entropy", "cond indep entropy", "transfer entropy"):
        origin(nm, P, same(nm))
    origin("range count", P, ex(lambda t: pds.query_range_count("x", 5.0 + t, 25.0 + t)), exact=True)
    origin("similar sql2", P, ex(lambda t: pds.query_similar_count([10.0 + t, 30.0 + t, 20.0 + t], "x", threshold=400.0, metric="sql2")))
    # the target, and the features when there is an intercept
    for solver in ("qr", "svd", "cholesky"):
        origin(f"lin_reg {solver} target", ("z",), same(f"lin_reg {solver} True"), (0, 0, 1))
    origin("lin_reg weights target", ("z",), same("lin_reg weights True"), (0, 0, 1))
    origin("lin_reg pred target", ("z",), same("lin_reg pred True"), dict(pred=1))
    origin("ridge target", ("z",), same("ridge True"), (0, 0, 1))
    origin("simple target", ("z",), same("simple True"), (0, 1))
    origin("simple weights target", ("z",), same("simple weights True"), (0, 1))
    for w in (0.0, 0.3):
        origin(f"rolling {w} target", ("z",), same(f"rolling True {w}"), dict(coeffs=(0, 0, 1), pred=1), tol=1e-4)
        origin(f"recursive {w} target", ("z",), same(f"recursive True {w}"), dict(coeffs=(0, 0, 1), pred=1), tol=1e-4)
    for nm, d in (("lin_reg pred", {}), ("rolling", dict(w=0.0)), ("recursive", dict(w=0.0))):
        f = same(f"{nm} True" + (" 0.0" if d else ""))
        origin(f"{nm} features", ("x", "y"), lambda df, t, f=f: [None if r["pred"] is None else r["pred"] for r in f(df, t)], tol=1e-4, top=5)
    for kind in ("se", "hc0", "hc1", "hc2", "hc3"):
        f = same(f"report {kind} True")
        g = lambda df, t, f=f: [{k: v for k, v in r.items() if k != "features"} for r in f(df, t)[:2]]
        origin(f"report {kind} target", ("z",), g, tol=1e-5)
        origin(f"report {kind} features", ("x", "y"), g, tol=1e-4, top=5)
    for m in ("standard", "min_max", "robust"):
        origin(f"scale {m}", P, same(f"scale {m}"))
    origin("pipeline center", P, same("pipeline center"))
    origin("impute mean", ("x", "xn"), same("impute mean"), dict(x=1, xn=1))
    origin("impute median", ("x", "xn"), same("impute median"), dict(x=1, xn=1))
    origin("target encode", ("u",), same("target encode"), dict(ts=1))


_origins()


def origin_cases(tier):
    return [[name, n, salt] for name, (_, _, _, kw) in ORIGINS.items() for n in ((9, 24, 61, 650) if tier == "quick" else (7, 8, 9, 13, 24, 40, 61, 100, 650, 1500)) for salt in ((3,) if tier == "quick" else (3, 4, 5, 6)) if n >= kw.get("min_n", 1)]


def origin_run(case, rec):
    name, n, salt = case
    cols, f, d, kw = ORIGINS[name]
    df = prepare(ties(n, salt))
    base = result(f, df, 0.0, kw)
    rec.state()
    rec.outcome(base[0])
    rec.check(base[0] == "ok", f"{name}|refused", lambda: short(base[1]))
    if base[0] != "ok":
        return
    for k in (0, 3, 5, 8, 12, 16, 20, 24, 26):
        if k > kw.get("top", 99):
            continue
        for t in (2.0**k, -(2.0**k)):
            rec.trans()
            got = result(f, df.with_columns(c(v) + t for v in cols), t, kw)
            want = moved(base[1], d, t)
            tol = 1e-12 if kw.get("exact") else max(kw.get("tol", 1e-8), 1e-12 * 2.0**k)
            rec.check(got[0] == "ok" and alike(got[1], want, tol), f"{name}", lambda: f"{n} rows, origin at {-t}: {short(got[1])} want {short(want)}")


FAMILIES = [
    Family("units", unit_cases, unit_run, f"{len(UNITS)} expressions and classes x frames of 9, 24, 61, 650 (thorough: 7 to 1500) rows, with and without ties and values 2^-20 apart, in units from 2^-60 to 2^60"),
    Family("origin", origin_cases, origin_run, f"{len(ORIGINS)} expressions and classes x frames of 9, 24, 61, 650 (thorough: 7 to 1500) rows with ties and values 2^-20 apart, shifted by up to +-2^26 (exactly: every value stays representable)"),
]
