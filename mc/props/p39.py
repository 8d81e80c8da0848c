"""P39: degenerate data and parameters give a value or an ordinary error, never a panic, an abort or a hang."""
import inspect
import math
import re
from itertools import combinations, product

import numpy as np
import polars as pl
import polars_ds as pds

from ..catalog import ITEMS, frame
from ..core import Family, outcome_of, short

NAN, INF = math.nan, math.inf
NAMES = list(ITEMS)


def degenerate(df):
    """(name, frame): the frame itself and the same frame with one thing wrong with it."""
    s = df.schema
    data = [c for c in df.columns if c not in ("id", "g")]
    num = [c for c in data if s[c].is_float()]
    ints = [c for c in data if s[c].is_integer()]
    text = [c for c in data if s[c] == pl.String]
    yield "plain", df
    if not df.height:
        return
    put = lambda cs, v: df.with_columns(pl.lit(v, dtype=s[c]).alias(c) for c in cs)
    yield "nulls", put(data, None)
    for c in data:
        yield f"null {c}", put([c], None)
    for what, v in (("nan", NAN), ("inf", INF), ("-inf", -INF)):
        yield f"{what}s", put(num, v)
        for c in num:
            yield f"{what} {c}", put([c], v)
    one = pl.int_range(pl.len()) == df.height - 1
    for what, v in (("null", None), ("nan", NAN), ("inf", INF)):
        yield f"last {what}", df.with_columns(pl.when(one).then(pl.lit(v, dtype=s[c])).otherwise(c).alias(c) for c in (num if v is not None else data))
    for what, f, i, t in (("const", 2.5, 1, "a"), ("zero", 0.0, 0, "")):
        yield what, df.with_columns([pl.lit(f).alias(c) for c in num] + [pl.lit(i, dtype=s[c]).alias(c) for c in ints] + [pl.lit(t).alias(c) for c in text])
    yield "huge", df.with_columns([-pl.col(c) - 1e300 for c in num] + [pl.lit(-(2**62) if s[c] == pl.Int64 else 2**32 - 1, dtype=s[c]).alias(c) for c in ints])
    yield "tiny", df.with_columns([pl.col(c) * 5e-324 for c in num])


def data_cases(tier):
    return [[name, n, tier] for name in NAMES for n in ((0, 1, 2, 3, 5, 9, 40) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 21, 40, 100))]


def tame(rec, key, what, fn):
    rec.trans()
    o = outcome_of(fn)
    rec.outcome(o[0])
    if "expected categorical type" in str(o[1]):
        key = "psi of a group without baseline"  # one known finding, whatever the frame
    rec.check(o[0] != "panic", key, lambda: f"{what}: {short(o[1])}")
    return o


def data_run(case, rec):
    name, n, tier = case
    it = ITEMS[name]
    for salt in (1,) if tier == "quick" else (1, 2, 3):
        for what, df in degenerate(frame(n, salt)):
            rec.state()
            kind = what.split()[0]
            o = tame(rec, f"{name}|{kind}", f"{n} rows, {what}", lambda: df.select(it.make().alias("o"))["o"])
            if o[0] == "ok" and it.kind in ("elem", "vec") and n > 1:
                rec.check(len(o[1]) == n, f"{name}|{kind}|rows", lambda: f"{n} rows, {what}: {short(o[1].to_list())}")
            if kind in ("plain", "nulls", "nans", "infs", "last", "const"):
                tame(rec, f"{name}|{kind}|grouped", f"{n} rows, {what}, group_by", lambda: df.group_by("g").agg(it.make().alias("o")))
                tame(rec, f"{name}|{kind}|over", f"{n} rows, {what}, over", lambda: df.select(it.make().over("g", mapping_strategy="explode").alias("o")))


# -- parameters ------------------------------------------------------------------------------------
INT = [-1, 0, 1, 2, 3, 6, 7, 8, 9, 1000]
FLOAT = [-INF, -1.0, -0.0, 5e-324, 0.5, 1.0, 7.5, 1e300, INF, NAN]
xy, xyz = dict(x="x", y="y"), ("x", "y", "z")
ap = dict(actual="x", pred="y")
cls = dict(actual="t", pred="u")
cab = dict(c="a", other="b")
knn = dict(index="id", k=2)
lr = dict(target="y")

BASE = {  # function -> positional arguments, keyword arguments
    "bicor": ((), xy), "chi2": ((), dict(var1="s", var2="s2")), "combinations": ((), dict(source="s", k=2)),
    "convolve": (("x",), dict(kernel=[1.0, 2.0, 0.5])), "corr": ((), xy), "detrend": (("x",), {}),
    "filter_by_hamming": ((), dict(cab, bound=2)), "filter_by_levenshtein": ((), dict(cab, bound=2)), "gcd": ((), dict(x="i", y=4)), "lcm": ((), dict(x="i", y=4)),
    "haversine": ((), dict(x_lat="lat", x_long="lon", y_lat=1.0, y_long=2.0)), "info_value": ((), dict(x="x", target="t")), "info_value_discrete": ((), dict(x="s", target="t")),
    "integrate_trapz": ((), dict(y="x", x=1.0)), "is_decreasing": (("x",), {}), "is_increasing": (("x",), {}), "is_knn_from": (xyz, dict(pt=[1.0, 2.0, 3.0], k=2)),
    "isotonic_regression": (("x",), {}), "jaccard_col": (("s", "s2"), {}), "jitter": (("x",), dict(seed=1)), "ks_2samp": (("x", "y"), {}),
    "l1_horizontal": (("x", "y"), {}), "l2_sq_horizontal": (("x", "y"), {}), "l_inf_horizontal": (("x", "y"), {}),
    "lin_reg": (("x", "z"), dict(lr)), "lin_reg_report": (("x", "z"), dict(lr)), "lin_reg_w_rcond": (("x", "z"), dict(lr)), "mann_whitney_u": (("x", "y"), {}),
    "normalize_string": (("a",), dict(form="NFC")), "normalize_whitespace": (("a",), {}), "pca": (xyz, {}), "perturb": (("x",), dict(seed=1)), "principal_components": (xyz, {}),
    "psi": (("x", "y"), {}), "psi_discrete": (("s", "s2"), {}), "psi_w_breakpoints": (("x", "y"), dict(breakpoints=[1.0, 20.0])),
    "query_adj_r2": ((), dict(ap, p=1)), "query_approx_entropy": (("x",), dict(m=2, filtering_level=0.5)), "query_ar_coeffs": (("x",), dict(lag=2)), "query_auto_corr": (("x",), dict(lag=1)),
    "query_binary_metrics": ((), dict(cls)), "query_c3_stats": (("x",), dict(lag=1)), "query_cid_ce": (("x",), {}), "query_cond_indep": ((), dict(x="x", y="y", z="z")),
    "query_confusion_matrix": ((), dict(cls)), "query_copula_entropy": (xyz, {}), "query_cv": (("x",), {}), "query_dist_from_kth_nb": (xyz, dict(k=2)), "query_entropy": (("i",), {}),
    "query_hubor_loss": ((), dict(ap, delta=1.0)), "query_knn_avg": (xyz, dict(target="w", k=2)), "query_knn_entropy": (xyz, {}), "query_knn_freq_cnt": (xyz, dict(knn)),
    "query_knn_ptwise": (xyz, dict(knn)), "query_l1": ((), dict(ap)), "query_l2": ((), dict(ap)), "query_lempel_ziv": (("tb",), {}), "query_log_cosh": ((), dict(ap)), "query_log_loss": ((), dict(cls)),
    "query_mad": (("x",), {}), "query_mape": ((), dict(ap)), "query_mase": ((), dict(ap, train="p")), "query_mean_n_abs_max": (("x",), dict(n_maxima=2)), "query_msle": ((), dict(ap)),
    "query_multi_roc_auc": ((), dict(actual="c3", pred=pl.concat_list("u", "u", "u"), n_classes=3)), "query_nb_cnt": (xyz, dict(r=1.0)), "query_permute_entropy": (("x",), {}),
    "query_radius_freq_cnt": (xyz, dict(index="id", r=1.0)), "query_radius_ptwise": (xyz, dict(index="id", r=1.0)), "query_range_count": (("x",), dict(lower=0.0, upper=9.0)),
    "query_sample_entropy": (("x",), {}), "query_similar_count": ((), dict(query=[1.0, 2.0, 4.0], target="x", threshold=1.0)), "query_time_reversal_asymmetry_stats": (("x",), dict(n_lags=1)),
    "query_transfer_entropy": (("x",), dict(source="y")), "random": ((), dict(seed=1)), "random_binomial": ((), dict(n=3, p=0.5, seed=1)), "random_exp": ((), dict(lambda_=1.0, seed=1)),
    "random_int": ((), dict(lower=0, upper=3, seed=1)), "random_normal": ((), dict(mean=0.0, std=1.0, seed=1)), "random_null": (("x",), dict(pct=0.5, seed=1)), "random_str": ((), dict(min_size=1, max_size=2, seed=1)),
    "recursive_lin_reg": (("x", "z"), dict(lr, start_with=4)), "replace_non_ascii": (("a",), {}), "rfft": (("x",), {}), "rolling_lin_reg": (("x", "z"), dict(lr, window_size=4)),
    "similar_to_vocab": (("a",), dict(vocab=["ab", ""], threshold=0.5)), "simple_lin_reg": (("x",), dict(lr)), "singular_values": (xyz, {}),
    "str_d_leven": ((), cab), "str_fuzz": ((), cab), "str_hamming": ((), cab), "str_jaccard": ((), cab), "str_jaro": ((), cab), "str_jw": ((), cab), "str_lcs_seq": ((), cab), "str_leven": ((), cab),
    "str_nearest": (("a",), dict(word="apple")), "str_osa": ((), cab), "str_snowball": (("a",), {}), "str_sorensen_dice": ((), cab), "str_tversky_sim": ((), dict(cab, alpha=0.5, beta=0.5)),
    "ttest_1samp": (("x",), dict(pop_mean=1.0)), "ttest_ind": (("x", "y"), {}), "ttest_ind_from_stats": (("x",), dict(mean=1.0, var=2.0, cnt=5)),
    "weighted_cov": (("x", "y", "w"), {}), "weighted_gmean": (("p", "w"), {}), "weighted_hmean": (("p", "w"), {}), "weighted_mean": (("p", "w"), {}), "weighted_var": (("p", "w"), {}),
    "within_dist_from": (xyz, dict(pt=[1.0, 2.0, 3.0], r=1.0)), "woe": ((), dict(x="x", target="t")), "xi_corr": (("x", "y"), dict(seed=1)),
    "target_encode": (("s",), dict(target="t")), "list_amax": (("lf",), {}), "query_count_uniques": (("x",), {}), "add_noise": (("x",), {}),
    "extract_numbers": (("a",), {}), "query_cat_cross_entropy": ((), dict(actual="c3", pred=pl.concat_list("u", "u", "u"))), "str_tokenize": (("a",), {}),
}
LITERALS = dict(method=["direct", "fft", "linear", "mean", "pearson", "spearman", "xi", "kendall", "bicor"], mode=["full", "same", "left", "right", "valid"], dist=["sql2", "l1", "l2", "inf", "linf", "cosine", "h", "haversine"],
                metric=["sql2", "sqzl2", "lv", "dlv", "jw", "osa", "hamming"], strategy=["avg", "all", "any", "weighted", "macro"], alternative=["two-sided", "less", "greater"], solver=["svd", "qr", "cholesky"],
                null_policy=["raise", "skip", "zero", "one", "ignore", "0.5", "skip_window"], std_err=["se", "hc0", "hc1", "hc2", "hc3"], form=["NFC", "NFKC", "NFD", "NFKD"], noise_type=["gaussian", "uniform"])


def scalars(f, given):
    out = {}
    for p in inspect.signature(f).parameters.values():
        a = str(p.annotation)
        if p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) or p.name in ("query", "seed", "pt"):
            continue
        if p.name in LITERALS:
            out[p.name] = LITERALS[p.name] + ["?"]
        elif a == "bool":
            out[p.name] = [False, True]
        elif re.search(r"\bint\b", a) and not isinstance(given.get(p.name), str):
            out[p.name] = INT
        elif re.search(r"\bfloat\b", a) and not isinstance(given.get(p.name), (str, list)):
            out[p.name] = FLOAT
    return out


def param_cases(tier):
    return [[name, n] for name in BASE if hasattr(pds, name) for n in ((0, 1, 2, 8) if tier == "quick" else (0, 1, 2, 3, 5, 8, 21, 60))]


def param_run(case, rec):
    """Every value of every pair of scalar parameters, the others as in BASE."""
    name, n = case
    f = getattr(pds, name)
    args, kw = BASE[name]
    sc = scalars(f, kw)
    df = frame(n, 3)
    sets = [()] + [((p, v),) for p, vs in sc.items() for v in vs]
    sets += [((p, v), (q, w)) for p, q in combinations(sc, 2) for v, w in product(sc[p], sc[q])]
    for s in sets:
        rec.state()
        k = {**kw, **dict(s)}
        tame(rec, f"{name}|{' '.join(p for p, _ in s)}", f"{n} rows, {dict(s)}", lambda: df.select(f(*args, **k).alias("o"))["o"])


# -- objects ---------------------------------------------------------------------------------------
def matrices(n, m):
    """(name, X): one thing wrong with each."""
    X = np.array([((i * 7 + j * 13) % 23) / 4 for i in range(n) for j in range(m)], dtype=float).reshape(n, m)
    yield "plain", X
    yield "fortran", np.asfortranarray(X)
    yield "float32", X.astype(np.float32)
    yield "integers", X.astype(np.int64)
    if not X.size:
        return
    yield "strided", np.repeat(X, 2, axis=0)[::2]
    yield "reversed", X[::-1]
    for what, v in (("nan", NAN), ("inf", INF), ("-inf", -INF), ("huge", 1e300), ("tiny", 5e-324), ("zero", 0.0), ("const", 2.5)):
        yield f"{what} everywhere", np.full((n, m), v)
        Y = X.copy()
        Y[-1, -1] = v
        yield f"{what} last", Y
        Y = X.copy()
        Y[:, 0] = v
        yield f"{what} column", Y


def object_cases(tier):
    kinds = ("tree", "lr", "elastic", "online", "frames")
    sizes = (0, 1, 2, 3, 5, 9) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 9, 17, 40)
    return [[k, n, m] for k in kinds for n in sizes for m in (0, 1, 2, 3)]


def models():
    from polars_ds import linear_models as lm

    for has_bias in (False, True):
        for lam in (0.0, 0.5, INF, NAN, -1.0):
            for solver in ("svd", "qr", "cholesky"):
                yield "lr", f"LR {has_bias} {lam} {solver}", lambda: lm.LR(has_bias=has_bias, lambda_=lam, solver=solver)
        for l1, l2 in ((0.0, 0.0), (0.5, 0.0), (0.0, 0.5), (0.5, 1e300), (1e300, 0.5), (INF, 0.0), (0.0, INF), (NAN, 0.5), (0.5, NAN)):
            yield "elastic", f"ElasticNet {has_bias} {l1} {l2}", lambda: lm.ElasticNet(l1_reg=l1, l2_reg=l2, has_bias=has_bias, max_iter=50)
        for lam in (0.0, 0.5):
            yield "online", f"OnlineLR {has_bias} {lam}", lambda: lm.OnlineLR(has_bias=has_bias, lambda_=lam)


def object_run(case, rec):
    kind, n, m = case
    mats = list(matrices(n, m))
    if kind == "tree":
        from polars_ds.spatial import KDTree

        small = list(matrices(3, m))
        for (what, X), d in product(mats, ("l1", "l2", "sql2", "inf")):
            rec.state()
            o = tame(rec, f"tree|{d}|new", f"{n}x{m} {what}", lambda: KDTree(X, d))
            if o[0] != "ok":
                continue
            t = o[1]
            for q, Q in small:
                for k, eps, bound, par in ((1, 0.0, INF, False), (n, 0.0, 9.0, False), (n + 1, 0.5, 9.0, True), (0, 0.0, 9.0, False), (2, NAN, 9.0, False), (2, 0.0, NAN, False), (2, 0.0, -1.0, False)):
                    tame(rec, f"tree|{d}|knn", f"{n}x{m} {what} query {q} k={k} {eps} {bound}", lambda: t.knn(Q, k, epsilon=eps, max_dist_bound=bound, parallel=par))
                for r, par in ((1.0, False), (0.0, True), (-1.0, False), (NAN, False), (INF, True)):
                    tame(rec, f"tree|{d}|within", f"{n}x{m} {what} query {q} r={r}", lambda: t.within(Q, r, parallel=par))
                    tame(rec, f"tree|{d}|within_count", f"{n}x{m} {what} query {q} r={r}", lambda: t.within_count(Q, r, parallel=par))
                tame(rec, f"tree|{d}|add", f"{n}x{m} {what} add {q}", lambda: KDTree(X, d).add(Q).count())
    elif kind == "frames":
        from polars_ds.eda.diagnosis import DIA
        from polars_ds.modeling import Blueprint

        if m:
            return
        for what, df in degenerate(frame(n, 5)):
            rec.state()
            w = what.split()[0]
            d = tame(rec, f"DIA|{w}", f"{n} rows {what}", lambda: DIA(df))
            if d[0] == "ok":
                d = d[1]
                calls = dict(special_values_report=(), numeric_profile=(), null_corr=(), str_stats=(), infer_prob=(), infer_high_null=(), infer_discrete=(), infer_const=(), infer_binary=(), infer_corr=(),
                             infer_k_distinct=(2,), infer_dependency=(["s", "s2", "c3"],), corr=(["x", "y"],), meta=())
                for f, a in calls.items():
                    tame(rec, f"DIA.{f}|{w}", f"{n} rows {what}", lambda: getattr(d, f)(*a))
            for f in (lambda b: b.linear_impute(["x", "y"], "z"), lambda b: b.linear_impute(["x", "y"], "z", add_bias=True), lambda b: b.woe_encode(["s"]), lambda b: b.iv_encode(["s"]), lambda b: b.target_encode(["s"]),
                      lambda b: b.scale(["x"]), lambda b: b.robust_scale(["x"], 0.25, 0.75), lambda b: b.winsorize(["x"], 0.25, 0.75), lambda b: b.impute(["x"], "median"), lambda b: b.polynomial_features(["x", "y"], degree=2),
                      lambda b: b.one_hot_encode(["s"]), lambda b: b.ordinal_encode(["s"])):
                o = tame(rec, f"Blueprint|{w}", f"{n} rows {what}", lambda: f(Blueprint(df, "b", target="t")).materialize())
                if o[0] == "ok":
                    tame(rec, f"Pipeline|{w}", f"{n} rows {what}", lambda: o[1].transform(frame(4, 6)))
    else:
        ys = list(matrices(n, 1))
        for k, name, make in models():
            if k != kind:
                continue
            for what, X in mats:
                for wy, y in [x for x in ys if x[0] in ("plain", "nan last", "inf everywhere", "zero everywhere", "float32")] + [("short", ys[0][1][:-1]), ("flat", ys[0][1].ravel())]:
                    rec.state()
                    fits = [lambda q=q: make().fit(X, y, null_policy=q) for q in ("ignore", "skip", "zero")] if kind != "online" else [lambda: make().fit(X, y)]
                    for fit in fits:
                        o = tame(rec, f"{kind}|fit", f"{name} {n}x{m} {what}, target {wy}", fit)
                        if o[0] == "ok":
                            for q, Q in matrices(2, m):
                                tame(rec, f"{kind}|predict", f"{name} {n}x{m} {what}, target {wy}, predict {q}", lambda: o[1].predict(Q))
                            tame(rec, f"{kind}|coeffs", f"{name} {n}x{m} {what}, target {wy}", lambda: (o[1].coeffs(), o[1].bias(), repr(o[1])))
                            if kind == "online":
                                for c in (1.0, 0.0, -1.0, NAN):
                                    tame(rec, "online|update", f"{name} {n}x{m} {what}, target {wy}, c={c}", lambda: o[1].update(X[:1], y[:1], c))
                                tame(rec, "online|update", f"{name} {n}x{m} {what}, target {wy}", lambda: o[1].update(np.ones((1, m + 1)), np.ones((1, 1))))


# -- arguments -------------------------------------------------------------------------------------
c = pl.col
ODD = {  # arguments that are expressions, empty, or of the wrong length
    "random": [lambda: pds.random(c("x").min(), c("x").max(), seed=1), lambda: pds.random(c("x").max(), c("x").min(), seed=1), lambda: pds.random(length=c("j").max(), seed=1), lambda: pds.random(length=0, seed=1), lambda: pds.random(c("x"), c("y"))],
    "random_int": [lambda: pds.random_int(c("i").min(), c("i").max(), seed=1), lambda: pds.random_int(c("i").max(), c("i").min(), seed=1), lambda: pds.random_int(c("i"), c("j"))],
    "random_normal": [lambda: pds.random_normal(c("x").mean(), c("x").std(), seed=1), lambda: pds.random_normal(c("x"), c("y"))],
    "random_others": [lambda: pds.random_str(1, 3, length=c("j").min()), lambda: pds.random_exp(0.5, length=c("j").min()), lambda: pds.random_binomial(3, 0.5, length=c("j").min())],
    "jitter": [lambda: pds.jitter("x", c("y").std(), seed=1), lambda: pds.jitter("i"), lambda: pds.perturb("i"), lambda: pds.perturb(c("x").cast(pl.Float32), 1e-300), lambda: pds.perturb(c("x").cast(pl.Float32), 1e300)],
    "knn": [lambda: pds.query_knn_ptwise(index="id", k=2), lambda: pds.query_knn_avg(target="x", k=2), lambda: pds.query_nb_cnt(r=1.0), lambda: pds.query_nb_cnt("x", r=[1.0, 2.0]), lambda: pds.query_nb_cnt("x", r=[]),
            lambda: pds.query_nb_cnt("x", r=c("y").max()), lambda: pds.query_nb_cnt("x", r=c("y")), lambda: pds.query_nb_cnt("x", r=None), lambda: pds.query_radius_ptwise(index="id", r=1.0), lambda: pds.query_knn_ptwise("x", index="a", k=2),
            lambda: pds.query_knn_ptwise("x", index="id", k=2, data_mask=pl.lit(False)), lambda: pds.query_knn_ptwise("x", index="id", k=2, eval_mask=pl.lit(False)), lambda: pds.query_knn_ptwise("x", index="id", k=2, data_mask=c("x") > 5, eval_mask=c("y") > 5),
            lambda: pds.query_knn_freq_cnt("x", index="id", k=2, data_mask=c("t") == 1, eval_mask=c("tb")), lambda: pds.is_knn_from("x", pt=[], k=2), lambda: pds.is_knn_from(pt=[1.0], k=2), lambda: pds.is_knn_from("x", "y", pt=[1.0], k=2), lambda: pds.is_knn_from("x", pt=[NAN], k=2),
            lambda: pds.within_dist_from("x", pt=[], r=1.0), lambda: pds.within_dist_from("x", pt=[1.0, 2.0], r=1.0), lambda: pds.within_dist_from("x", pt=[1.0], r=c("y")), lambda: pds.within_dist_from("x", pt=[1.0], r=c("y").max()),
            lambda: pds.query_dist_from_kth_nb(k=2), lambda: pds.query_knn_entropy(k=2), lambda: pds.query_copula_entropy(k=2), lambda: pds.query_knn_ptwise(*["x"] * 40, index="id", k=2)],
    "linear": [lambda: pds.lin_reg(target="y"), lambda: pds.lin_reg(target="y", add_bias=True), lambda: pds.lin_reg("x", target=[]), lambda: pds.lin_reg("x", target=["y", "z"]), lambda: pds.lin_reg("x", target=["y", "z"], return_pred=True), lambda: pds.lin_reg("x", target=["y"], l1_reg=1.0),
               lambda: pds.lin_reg("x", "x", target="y"), lambda: pds.lin_reg("x", target="x", return_pred=True), lambda: pds.lin_reg("x", target="y", weights=c("w").max()), lambda: pds.lin_reg("x", target="y", weights="t", return_pred=True, null_policy="skip"),
               lambda: pds.lin_reg("a", target="y"), lambda: pds.lin_reg("tb", "i", target="t"), lambda: pds.lin_reg_report(target="y"), lambda: pds.lin_reg_report("x", target="y", weights="w", null_policy="skip"), lambda: pds.lin_reg_report("x", "z", target="y", std_err="hc1", add_bias=True),
               lambda: pds.lin_reg_report("x", target="y", weights="tb"), lambda: pds.lin_reg_w_rcond(target="y"), lambda: pds.rolling_lin_reg(target="y", window_size=3), lambda: pds.rolling_lin_reg("x", target="y", window_size=3, min_valid_rows=0, null_policy="skip"),
               lambda: pds.rolling_lin_reg("x", "z", target="y", window_size=2, add_bias=True), lambda: pds.rolling_lin_reg("x", "z", target="y", window_size=3, min_valid_rows=1, null_policy="skip"), lambda: pds.recursive_lin_reg(target="y", start_with=2), lambda: pds.recursive_lin_reg("x", "z", target="y", start_with=1, add_bias=True),
               lambda: pds.lin_reg(*["x", "y", "z", "p", "u", "w"], target="lat"), lambda: pds.lin_reg("x", target="y", l1_reg=0.1, null_policy="zero", return_pred=True), lambda: pds.lin_reg(np.arange(3.0), target="y"), lambda: pds.simple_lin_reg("x", target="y", weights=c("w").max())],
    "decomposition": [lambda: pds.pca(), lambda: pds.pca("x"), lambda: pds.pca("x", "x"), lambda: pds.principal_components("x", "y", k=0), lambda: pds.principal_components("x", "y", k=3), lambda: pds.principal_components(k=1), lambda: pds.singular_values(), lambda: pds.singular_values("x", as_ratio=True)],
    "series": [lambda: pds.convolve("x", []), lambda: pds.convolve("x", [NAN]), lambda: pds.convolve("x", [1.0] * 50), lambda: pds.convolve("x", c("y")), lambda: pds.convolve("x", c("y").drop_nulls().head(2), method="fft"), lambda: pds.convolve("x", [1.0, 2.0], fill_value=c("x").mean()),
               lambda: pds.convolve("x", [1.0] * 20, mode="valid"), lambda: pds.convolve("x", [1.0] * 20, mode="same", method="fft"), lambda: pds.rfft("x", n=0), lambda: pds.rfft("x", n=1), lambda: pds.rfft("x", n=3, return_full=True), lambda: pds.query_similar_count([], "x", 1.0), lambda: pds.query_similar_count([1.0], "x", 1.0),
               lambda: pds.query_similar_count([1.0, 1.0], "x", 1.0), lambda: pds.query_similar_count([NAN, 1.0], "x", 1.0, metric="sql2"), lambda: pds.query_similar_count(np.ones(30), "x", 1.0, metric="sql2", parallel=True), lambda: pds.integrate_trapz("y", c("x")), lambda: pds.integrate_trapz("y", c("x").max()),
               lambda: pds.query_mase("x", "y", train=c("p").head(1)), lambda: pds.query_mase("x", "y", train=2.0, freq=3), lambda: pds.query_lempel_ziv(c("tb").head(0)), lambda: pds.query_longest_streak(c("x") > 5), lambda: pds.isotonic_regression("y", weights="w"), lambda: pds.isotonic_regression("y", weights="i"), lambda: pds.isotonic_regression("y", weights=c("w").head(1))],
    "tables": [lambda: pds.f_test(group="t"), lambda: pds.f_test("x", group="id"), lambda: pds.f_test("x", "y", group="s"), lambda: pds.f_test("x", group=pl.lit(1)), lambda: pds.chi2("x", "y"), lambda: pds.chi2(pl.lit(1), "s"), lambda: pds.psi_w_breakpoints("x", "y", []), lambda: pds.psi_w_breakpoints("x", "y", [INF]), lambda: pds.psi_w_breakpoints("x", "y", [5.0, 1.0]),
               lambda: pds.psi("x", []), lambda: pds.psi("x", [1.0]), lambda: pds.psi([], "y"), lambda: pds.psi("x", "y", n_bins=2, return_report=True), lambda: pds.psi_discrete("s", []), lambda: pds.woe("x", "t", n_bins=2), lambda: pds.woe_discrete("s", [1, 0]), lambda: pds.info_value("x", [], n_bins=2), lambda: pds.info_value_discrete("s", "x"),
               lambda: pds.ks_2samp("x", "tb", is_binary=True), lambda: pds.ks_2samp("x", c("y").head(1)), lambda: pds.ks_2samp("x", c("y").head(0)), lambda: pds.mann_whitney_u("x", c("y").head(1)), lambda: pds.ttest_ind("x", c("y").head(1)), lambda: pds.ttest_ind("x", c("y").head(0), equal_var=True),
               lambda: pds.ttest_ind_from_stats("x", NAN, NAN, 0), lambda: pds.ttest_1samp("x", NAN), lambda: pds.query_cat_cross_entropy("c3", pl.concat_list("u", "u"), dense=True), lambda: pds.query_cat_cross_entropy("c3", "lf", dense=True), lambda: pds.query_cat_cross_entropy("lf", "lf", dense=False),
               lambda: pds.query_multi_roc_auc("c3", "lf", n_classes=3), lambda: pds.query_multi_roc_auc("c3", pl.concat_list("u", "u"), n_classes=5), lambda: pds.query_roc_auc("x", "u"), lambda: pds.query_roc_auc("t", "t"), lambda: pds.query_roc_auc("tb", "i"), lambda: pds.query_tpr_fpr("t", "i"), lambda: pds.query_mcc("i", "j"), lambda: pds.query_mcc("tb", "t"),
               lambda: pds.query_confusion_matrix("i", "x", all_metrics=True), lambda: pds.query_fairness("x", c("tb")), lambda: pds.query_p_pct_score("t", pl.lit(True)), lambda: pds.kendall_tau("x", c("y").head(1)), lambda: pds.xi_corr("x", c("y").head(1)), lambda: pds.bicor("x", c("y").head(1)), lambda: pds.corr("x", "y", method="kendall"),
               lambda: pds.query_cond_indep("x", "x", "x"), lambda: pds.query_cond_entropy("lf", "s"), lambda: pds.query_transfer_entropy("x", c("y").head(2)), lambda: pds.weighted_mean("x", c("w").head(1)), lambda: pds.weighted_cov("x", "y", c("w").sum())],
    "text": [lambda: pds.similar_to_vocab("a", [], 0.5), lambda: pds.similar_to_vocab("a", [""], 0.5, metric="jw"), lambda: pds.map_words("a", {}), lambda: pds.map_words("a", {"": "x"}), lambda: pds.str_nearest("a", ""), lambda: pds.str_nearest("a", "\u00e9" * 40), lambda: pds.str_leven("a", pl.lit("")), lambda: pds.str_leven("a", pl.lit(None, dtype=pl.String)),
             lambda: pds.str_jaccard("a", pl.lit("\u00e9t\u00e9"), substr_size=1), lambda: pds.str_jaccard("a", "b", substr_size=1), lambda: pds.str_sorensen_dice("a", pl.lit("")), lambda: pds.str_tversky_sim("a", "b", 0.0, 0.0), lambda: pds.str_hamming("a", c("b").head(1)), lambda: pds.str_leven("a", c("b").head(2)), lambda: pds.str_jw("a", pl.lit("")), lambda: pds.filter_by_levenshtein("a", pl.lit(""), 0),
             lambda: pds.filter_by_hamming("a", pl.lit("\u65e5\u672c\u8a9e"), 3, pad=True), lambda: pds.str_tokenize("a", ""), lambda: pds.str_tokenize("a", "("), lambda: pds.str_tokenize("a", ".", stem=True), lambda: pds.extract_numbers("a", join_by=",", dtype=pl.Int64), lambda: pds.extract_numbers("a", ignore_comma=True, dtype=pl.Float64),
             lambda: pds.replace_non_ascii("a", "\u00e9"), lambda: pds.str_snowball(c("a") + "'s'ies"), lambda: pds.str_fuzz("a", pl.lit("")), lambda: pds.str_fuzz("a", "i"), lambda: pds.str_leven("i", "j"), lambda: pds.jaccard_row("l", "lf"), lambda: pds.jaccard_row("l", "m"), lambda: pds.jaccard_col("x", "s"), lambda: pds.jaccard_col("tb", "tb"), lambda: pds.list_amax("l"), lambda: pds.list_amax("x"),
             lambda: pds.combinations("lf", 2), lambda: pds.combinations("x", 9, unique=True), lambda: pds.combinations("tb", 2), lambda: pds.product("x", "a"), lambda: pds.product("l", "m"), lambda: pds.product("x", c("y").head(0)), lambda: pds.normalize_whitespace("i"), lambda: pds.to_snake_case("l")],
    "numbers": [lambda: pds.gcd("i", "j"), lambda: pds.gcd("i", 0), lambda: pds.lcm("i", "j"), lambda: pds.lcm("i", 0), lambda: pds.gcd("x", 3), lambda: pds.lcm("i", c("j").head(1)), lambda: pds.haversine("x", "y", "lat", "lon"), lambda: pds.haversine("lat", "lon", NAN, INF), lambda: pds.haversine("lat", "lon", c("lat").head(1), c("lon").head(1)),
                lambda: pds.xlogy("x", "y"), lambda: pds.xlogy("i", "j"), lambda: pds.xlogy("x", pl.lit(0.0)), lambda: pds.gamma("i"), lambda: pds.digamma("i"), lambda: pds.expit("a"), lambda: pds.logit("tb"), lambda: pds.softmax("i"), lambda: pds.trunc("i"), lambda: pds.fract("a"), lambda: pds.next_up("i"), lambda: pds.next_down("tb"), lambda: pds.exp2("l"),
                lambda: pds.l1_horizontal(), lambda: pds.l2_sq_horizontal(), lambda: pds.l_inf_horizontal("i", "x"), lambda: pds.detrend("i"), lambda: pds.query_first_digit_cnt("i"), lambda: pds.query_first_digit_cnt("x"), lambda: pds.query_benford("i") if hasattr(pds, "query_benford") else pds.query_first_digit_cnt("j"), lambda: pds.query_count_uniques("l"), lambda: pds.query_symm_ratio("i"),
                lambda: pds.z_normalize("i"), lambda: pds.center("tb"), lambda: pds.cosine_sim("x", c("y").head(1)), lambda: pds.weighted_cosine_sim("x", "y", c("w").head(1)), lambda: pds.query_range_count("i", 5, 1), lambda: pds.query_entropy("l"), lambda: pds.query_permute_entropy("i", tau=1, n_dims=2), lambda: pds.query_approx_entropy("i", 2, 0.5), lambda: pds.query_sample_entropy("i")],
}


def odd_cases(tier):
    return [[k, i, n] for k, v in ODD.items() for i in range(len(v)) for n in ((0, 1, 2, 5, 9) if tier == "quick" else (0, 1, 2, 3, 4, 5, 7, 9, 17, 40))]


def odd_run(case, rec):
    kind, i, n = case
    for what, df in degenerate(frame(n, 4)):
        rec.state()
        w = what.split()[0]
        tame(rec, f"{kind}|{i}|{w}", f"{n} rows, {what}", lambda: df.select(ODD[kind][i]().alias("o"))["o"])
        if w in ("plain", "nulls", "last"):
            tame(rec, f"{kind}|{i}|{w}|grouped", f"{n} rows, {what}, group_by", lambda: df.group_by("g").agg(ODD[kind][i]().alias("o")))


FAMILIES = [
    Family("data", data_cases, data_run, "every expression of the catalogue over frames of 0..9 and 40 rows (thorough: up to 100) that are plain, wholly or in one column null / NaN / infinite, in the last row null / NaN / infinite, constant, zero, huge or tiny; in select and, for the first of these, in group_by and over"),
    Family("parameters", param_cases, param_run, "every function with scalar parameters: every value of each, and every pair of values of each pair, out of the integers -1..3, around the number of rows and 1000, the floats of every kind (infinite, negative, zero, denormal, NaN, ...), both booleans and every literal plus an unknown one; frames of 0, 1, 2, 8 rows (thorough: up to 60)"),
    Family("arguments", odd_cases, odd_run, "%d uses of the functions with arguments that are expressions (of the wrong length, type or order), empty, missing or repeated, over the frames of 'data' with 0..9 rows (thorough: 0..40), ungrouped and grouped" % sum(map(len, ODD.values()))),
    Family("objects", object_cases, object_run, "KDTree (4 metrics), LR (5 penalties x 3 solvers), ElasticNet (9 pairs of penalties), OnlineLR, DIA and 12 pipeline steps over 0..9 x 0..3 matrices (thorough: 0..40) and frames that are plain, transposed, strided, float32, integer, NaN, infinite, huge, tiny, zero or constant everywhere, in one column or in one cell; targets of the wrong length; queries, updates and predictions of every one of those kinds"),
]
