"""Every expression of the package with representative arguments, over one standard frame.

kind: elem  - one output row per input row, depending on that row alone
      vec   - one output row per input row, depending on all rows of the group
      agg   - one value per group
      list  - any number of output rows per group
par:  accepts parallel=
"""
from dataclasses import dataclass
from typing import Callable

import polars as pl
import polars_ds as pds

from .clouds import lcg

WORDS = ["", "a", "ab", "apple", "aple", "Banana", "bandana", "snake_case Words", "naïve café", "running runner", "the", "été",
         "日本語", "x1 22,333 y", "mississippi", "missisipi", "  two  spaces ", "of cats", "camelCaseText", "zz top"]


def frame(n: int, salt: int = 1, groups: int = 3) -> pl.DataFrame:
    r = lambda k, m: lcg(n, salt * 101 + k, m)
    f = lambda k, m, s: [v / s for v in r(k, m)]
    return pl.DataFrame({
        "x": f(1, 800, 16), "y": f(2, 800, 16), "z": f(3, 160, 8),
        "p": [v + 0.25 for v in f(4, 400, 8)],
        "u": [(v + 1) / 1002 for v in r(5, 1000)],
        "t": pl.Series([(v % 7 < 3) * 1 if i > 1 else i for i, v in enumerate(r(6, 1 << 15))], dtype=pl.Int64),
        "tb": [bool(v & 1) for v in r(7, 1 << 15)],
        "c3": pl.Series([(v % 3 if i > 2 else i) for i, v in enumerate(r(8, 1 << 15))], dtype=pl.UInt32),
        "i": pl.Series([v - 30 for v in r(9, 97)], dtype=pl.Int64), "j": pl.Series([v + 1 for v in r(10, 60)], dtype=pl.Int64),
        "a": [WORDS[v % len(WORDS)] for v in r(11, 1 << 15)], "b": [WORDS[v % len(WORDS)] for v in r(12, 1 << 15)],
        "l": [[WORDS[(v + q) % 5] for q in range(v % 4)] for v in r(13, 1 << 15)],
        "m": [[WORDS[(v + q) % 6] for q in range(v % 3)] for v in r(14, 1 << 15)],
        "s": ["pqr"[v % 3] for v in r(15, 1 << 15)],
        "s2": ["kl"[v % 2] for v in r(16, 1 << 15)],
        "w": [v + 0.5 for v in f(17, 40, 8)],
        "lat": [v - 60 for v in f(18, 1200, 10)], "lon": [v - 150 for v in f(19, 3000, 10)],
        "id": pl.Series(range(n), dtype=pl.UInt32),
        "g": pl.Series([v % groups for v in r(20, 1 << 15)], dtype=pl.Int64),
        "lf": [[(v % 11) + q / 4 for q in range(1 + v % 4)] for v in r(21, 1 << 15)],
    }, schema_overrides={"l": pl.List(pl.String), "m": pl.List(pl.String), "lf": pl.List(pl.Float64)})


@dataclass
class Item:
    name: str
    kind: str
    make: Callable
    par: bool = False
    min_n: int = 1  # smallest number of rows for which a value is defined
    seed: bool = False  # random: only shape/dtype/seed are specified
    unordered: bool = False  # the rows of the result are a set
    nogroup: bool = False  # group_by needs polars features this expression is not built for
    approx: bool = False  # a sum whose order of additions may depend on the layout


def _items():
    I, c = [], pl.col

    def add(name, kind, make, **kw):
        I.append(Item(name, kind, make, **kw))

    for dist in ("l1", "l2", "sql2", "inf"):
        add(f"knn_ptwise_{dist}", "vec", lambda dist=dist, **k: pds.query_knn_ptwise("x", "y", index="id", k=2, dist=dist, **k), par=True)
    add("knn_ptwise_dist", "vec", lambda **k: pds.query_knn_ptwise("x", "y", index="id", k=3, return_dist=True, **k), par=True)
    add("knn_ptwise_masked", "vec", lambda **k: pds.query_knn_ptwise("x", "y", index="id", k=2, eval_mask=c("t") == 1, data_mask=c("tb"), **k), par=True)
    add("knn_ptwise_dist_masked", "vec", lambda **k: pds.query_knn_ptwise("x", "y", index="id", k=2, return_dist=True, eval_mask=c("t") == 1, data_mask=c("tb"), **k), par=True)
    add("dist_kth", "vec", lambda **k: pds.query_dist_from_kth_nb("x", "y", k=1, **k), par=True)
    add("knn_avg", "vec", lambda **k: pds.query_knn_avg("x", "y", target="z", k=2, **k), par=True)
    add("knn_avg_w", "vec", lambda **k: pds.query_knn_avg("x", "y", target="z", k=2, weighted=True, **k), par=True)
    add("radius", "vec", lambda **k: pds.query_radius_ptwise("x", "y", index="id", r=40.0, **k), par=True)
    add("nb_cnt", "vec", lambda **k: pds.query_nb_cnt("x", "y", r=40.0, **k), par=True)
    add("nb_cnt_col", "vec", lambda **k: pds.query_nb_cnt("x", "y", r="p", **k), par=True)
    add("knn_freq", "list", lambda **k: pds.query_knn_freq_cnt("x", "y", index="id", k=2, **k), par=True, unordered=True)
    add("radius_freq", "list", lambda **k: pds.query_radius_freq_cnt("x", "y", index="id", r=40.0, **k), par=True, unordered=True)
    add("within_dist_from", "elem", lambda: pds.within_dist_from("x", "y", pt=[20.0, 20.0], r=200.0))
    add("is_knn_from", "vec", lambda: pds.is_knn_from("x", "y", pt=[20.0, 20.0], k=2))
    # strings against a column and a scalar
    for nm, fn in (("leven", pds.str_leven), ("d_leven", pds.str_d_leven), ("osa", pds.str_osa), ("lcs", pds.str_lcs_seq)):
        for sim in (False, True):
            add(f"{nm}_{sim}", "elem", lambda fn=fn, sim=sim, **k: fn("a", c("b"), return_sim=sim, **k), par=True)
            add(f"{nm}_{sim}_lit", "elem", lambda fn=fn, sim=sim, **k: fn("a", pl.lit("banana"), return_sim=sim, **k), par=True)
    for nm, fn in (("jaro", pds.str_jaro), ("jw", pds.str_jw), ("fuzz", pds.str_fuzz), ("hamming", pds.str_hamming),
                   ("sdice", pds.str_sorensen_dice), ("sjac", pds.str_jaccard)):
        add(nm, "elem", lambda fn=fn, **k: fn("a", c("b"), **k), par=True)
        add(nm + "_lit", "elem", lambda fn=fn, **k: fn("a", pl.lit("banana"), **k), par=True)
    add("hamming_pad", "elem", lambda **k: pds.str_hamming("a", c("b"), pad=True, **k), par=True)
    add("tversky", "elem", lambda **k: pds.str_tversky_sim("a", c("b"), alpha=0.4, beta=0.9, **k), par=True)
    add("tversky_lit", "elem", lambda **k: pds.str_tversky_sim("a", pl.lit("banana"), alpha=0.4, beta=0.9, **k), par=True)
    add("overlap", "elem", lambda **k: fun("str_overlap_coeff")("a", c("b"), **k), par=True)
    add("overlap_lit", "elem", lambda **k: fun("str_overlap_coeff")("a", pl.lit("banana"), **k), par=True)
    add("f_leven", "elem", lambda **k: pds.filter_by_levenshtein("a", c("b"), bound=3, **k), par=True)
    add("f_leven_lit", "elem", lambda **k: pds.filter_by_levenshtein("a", pl.lit("banana"), bound=3, **k), par=True)
    add("f_hamming", "elem", lambda **k: pds.filter_by_hamming("a", c("b"), bound=3, **k), par=True)
    add("f_hamming_lit", "elem", lambda **k: pds.filter_by_hamming("a", pl.lit("banana"), bound=3, **k), par=True)
    for m in ("lv", "hamming"):
        add(f"nearest_{m}", "agg", lambda m=m: pds.str_nearest("a", word="banana", threshold=4, metric=m))
    for nm in ("is_stopword", "to_camel_case", "to_snake_case", "to_pascal_case", "to_constant_case", "str_snowball",
               "remove_diacritics", "replace_non_ascii", "normalize_whitespace", "str_tokenize"):
        add(nm, "elem", lambda nm=nm: getattr(pds, nm)("a"))
    for f in ("NFC", "NFKC", "NFD", "NFKD"):
        add(f"normalize_{f}", "elem", lambda f=f: pds.normalize_string("a", f))
    add("tokenize_stem", "elem", lambda: pds.str_tokenize("a", stem=True))
    add("similar_to_vocab", "elem", lambda: pds.similar_to_vocab("a", ["apple", "banana"], threshold=0.6, strategy="any"))
    add("extract_numbers", "elem", lambda: pds.extract_numbers("a", ignore_comma=True, dtype=pl.Int64))
    add("map_words", "elem", lambda: pds.map_words("a", {"apple": "pear", "the": "a"}))
    # numbers
    for nm in ("expit", "exp2", "fract", "trunc", "sinc", "gamma", "next_up", "next_down", "digamma"):
        add(nm, "elem", lambda nm=nm: fun(nm)("p"))
    add("logit", "elem", lambda: pds.logit("u"))
    add("xlogy", "elem", lambda: pds.xlogy("p", "u"))
    add("gcd", "elem", lambda: pds.gcd("i", "j"))
    add("lcm", "elem", lambda: pds.lcm("i", "j"))
    add("gcd_lit", "elem", lambda: pds.gcd("i", 12))
    add("lcm_lit", "elem", lambda: pds.lcm("i", 12))
    add("haversine", "elem", lambda: pds.haversine("lat", "lon", c("lat") + 1, c("lon") - 2))
    add("haversine_cols", "elem", lambda: pds.haversine("lat", "lon", "z", "y"))
    add("haversine_lit", "elem", lambda: pds.haversine("lat", "lon", 10.0, 20.0))
    for nm in ("l1_horizontal", "l2_sq_horizontal", "l_inf_horizontal"):
        add(nm, "elem", lambda nm=nm: getattr(pds, nm)("x", "y", "z", normalize=True))
    add("jaccard_row", "elem", lambda: pds.jaccard_row("l", "m"))
    add("list_amax", "elem", lambda: pds.list_amax("lf"))
    add("jaccard_col", "agg", lambda: pds.jaccard_col("s", "s2"))
    for nm in ("center", "z_normalize", "softmax"):
        add(nm, "vec", lambda nm=nm: getattr(pds, nm)("x"), min_n=2)
    add("detrend", "vec", lambda: pds.detrend("x"), min_n=2)
    add("detrend_mean", "vec", lambda: pds.detrend("x", method="mean"))
    add("is_increasing", "agg", lambda: pds.is_increasing("x"))
    add("is_decreasing", "agg", lambda: pds.is_decreasing("x", strict=True))
    add("trapz", "agg", lambda: pds.integrate_trapz("y", c("x")), min_n=2)
    add("trapz_dx", "agg", lambda: pds.integrate_trapz("y", 0.5), min_n=2)
    for m in ("full", "same", "left", "right", "valid"):
        for meth in ("direct", "fft"):
            add(f"conv_{m}_{meth}", "list" if m in ("full", "valid") else "vec",
                lambda m=m, meth=meth, **k: pds.convolve("x", [1.0, -2.0, 0.5], mode=m, method=meth, **k), par=True, min_n=3, approx=meth == "fft")
    add("rfft", "list", lambda: pds.rfft("x"), min_n=2)
    add("rfft_full", "list", lambda: pds.rfft("x", return_full=True), min_n=2)
    add("isotonic", "vec", lambda: pds.isotonic_regression("x"))
    add("isotonic_w", "vec", lambda: pds.isotonic_regression("x", weights="w", increasing=False))
    add("pca", "list", lambda: pds.pca("x", "y", "z"), min_n=5)
    add("singular_values", "agg", lambda: pds.singular_values("x", "y", "z"), min_n=5)
    add("principal_components", "vec", lambda: pds.principal_components("x", "y", "z", k=2), min_n=5)
    add("psi", "agg", lambda: pds.psi("x", "y", n_bins=3), min_n=8, nogroup=True)
    add("psi_report", "list", lambda: pds.psi("x", "y", n_bins=3, return_report=True), min_n=8, nogroup=True)
    add("psi_discrete", "agg", lambda: pds.psi_discrete("s", "s2"), min_n=4)
    add("psi_bp", "list", lambda: pds.psi_w_breakpoints("x", "y", [10.0, 20.0, 30.0]), min_n=4)
    add("woe", "list", lambda: pds.woe("x", "t", n_bins=3), min_n=8, unordered=True)
    add("woe_discrete", "list", lambda: pds.woe_discrete("s", "t"), min_n=4, unordered=True)
    add("iv", "agg", lambda: pds.info_value("x", "t", n_bins=3), min_n=8)
    add("iv_list", "list", lambda: pds.info_value("x", "t", n_bins=3, return_sum=False), min_n=8, unordered=True)
    add("iv_discrete", "agg", lambda: pds.info_value_discrete("s", "t"), min_n=4)
    add("target_encode", "list", lambda: fun("target_encode")("s", "t", min_samples_leaf=2), min_n=3, unordered=True)
    add("combinations", "list", lambda: pds.combinations("i", 2), min_n=2)
    add("combinations_u", "list", lambda: pds.combinations("i", 2, unique=True), min_n=12, unordered=True)
    add("product", "list", lambda: pds.product("i", "j"))
    # linear
    add("lin_reg", "agg", lambda: pds.lin_reg("x", "y", target="z", add_bias=True), min_n=5)
    add("lin_reg_w", "agg", lambda: pds.lin_reg("x", "y", target="z", weights="w"), min_n=5)
    add("lin_reg_pred", "vec", lambda: pds.lin_reg("x", "y", target="z", return_pred=True), min_n=5)
    add("lin_reg_multi", "agg", lambda: pds.lin_reg("x", "y", target=["z", "p"]), min_n=5)
    add("lin_reg_multi_pred", "vec", lambda: pds.lin_reg("x", "y", target=["z", "p"], return_pred=True), min_n=5)
    add("ridge", "agg", lambda: pds.lin_reg("x", "y", target="z", l2_reg=0.3), min_n=5)
    add("lasso", "agg", lambda: pds.lin_reg("x", "y", target="z", l1_reg=0.3), min_n=5)
    add("elastic", "agg", lambda: pds.lin_reg("x", "y", target="z", l1_reg=0.3, l2_reg=0.1, add_bias=True), min_n=5)
    add("simple_lin_reg", "agg", lambda: pds.simple_lin_reg("x", target="z", add_bias=True), min_n=5)
    add("simple_lin_reg_pred", "vec", lambda: pds.simple_lin_reg("x", target="z", return_pred=True), min_n=5)
    add("rcond", "agg", lambda: pds.lin_reg_w_rcond("x", "y", target="z", rcond=0.0), min_n=5)
    add("rolling", "vec", lambda: pds.rolling_lin_reg("x", "y", target="z", window_size=4), min_n=6)
    add("rolling_skip", "vec", lambda: pds.rolling_lin_reg("x", "y", target="z", window_size=4, min_valid_rows=3, null_policy="skip"), min_n=6)
    add("recursive", "vec", lambda: pds.recursive_lin_reg("x", "y", target="z", start_with=3), min_n=6)
    add("report", "list", lambda: pds.lin_reg_report("x", "y", target="z", add_bias=True), min_n=6)
    add("report_w", "list", lambda: pds.lin_reg_report("x", "y", target="z", weights="w"), min_n=6)
    # metrics
    for nm in ("query_r2", "query_log_cosh", "query_l2", "query_l1", "query_l_inf", "query_mape", "query_smape", "query_msle"):
        add(nm, "agg", lambda nm=nm: getattr(pds, nm)("p", c("w")), min_n=2)
    add("log_loss", "agg", lambda: pds.query_log_loss("t", "u"), min_n=2)
    add("huber", "agg", lambda: pds.query_hubor_loss("x", "y", delta=2.0), min_n=2)
    add("adj_r2", "agg", lambda: pds.query_adj_r2("x", "y", p=1), min_n=4)
    add("mad", "agg", lambda: pds.query_mad("x"), min_n=2)
    add("mase", "agg", lambda: pds.query_mase("x", "y", train="z"), min_n=3)
    add("roc_auc", "agg", lambda: pds.query_roc_auc("t", "u"), min_n=3)
    add("gini", "agg", lambda: fun("query_gini")("t", "u"), min_n=3)
    add("tpr_fpr", "list", lambda: pds.query_tpr_fpr("t", "u"), min_n=3)
    add("binary_metrics", "agg", lambda: pds.query_binary_metrics("t", "u"), min_n=3)
    add("confusion", "agg", lambda: pds.query_confusion_matrix("t", "u", all_metrics=True), min_n=3)
    add("multi_auc", "agg", lambda: pds.query_multi_roc_auc("c3", pl.concat_list("u", c("u") * 0.5, 1 - c("u") * 0.3), n_classes=3), min_n=6)
    add("cce", "agg", lambda: pds.query_cat_cross_entropy("c3", pl.concat_list("u", c("u") * 0.5, 1 - c("u") * 0.3)), min_n=3)
    add("mcc", "agg", lambda: pds.query_mcc("t", "tb"), min_n=3)
    add("fairness", "agg", lambda: pds.query_fairness("u", c("tb")), min_n=3)
    add("p_pct", "agg", lambda: pds.query_p_pct_score("t", c("tb")), min_n=3)
    # statistics
    add("ttest", "agg", lambda: pds.ttest_ind("x", "y", equal_var=True), min_n=3)
    add("welch", "agg", lambda: pds.ttest_ind("x", "y"), min_n=3)
    add("ttest1", "agg", lambda: pds.ttest_1samp("x", 20.0), min_n=3)
    add("ttest_stats", "agg", lambda: pds.ttest_ind_from_stats("x", 20.0, 3.0, 12), min_n=3)
    add("ks", "agg", lambda: pds.ks_2samp("x", "y"), min_n=3)
    add("f_test", "agg", lambda: pds.f_test("x", group="c3"), min_n=8)
    add("f_test2", "list", lambda: pds.f_test("x", "y", group="c3"), min_n=8)
    add("chi2", "agg", lambda: pds.chi2("s", "s2"), min_n=10)
    add("chi2_full", "list", lambda: pds.chi2("s", "s2", return_full=True), min_n=10, unordered=True)
    add("mwu", "agg", lambda: pds.mann_whitney_u("x", "y"), min_n=3)
    add("normal_test", "agg", lambda: pds.normal_test("x"), min_n=21)
    add("winsorize", "vec", lambda: fun("winsorize")("x"))
    for nm in ("hmean", "gmean"):
        add(nm, "agg", lambda nm=nm: getattr(pds, nm)("p"))
    for nm in ("weighted_hmean", "weighted_gmean", "weighted_mean", "weighted_var"):
        add(nm, "agg", lambda nm=nm: getattr(pds, nm)("p", "w"), min_n=2)
    add("weighted_cov", "agg", lambda: pds.weighted_cov("x", "y", c("w")), min_n=2)
    for nm in ("weighted_corr", "weighted_cosine_sim"):
        add(nm, "agg", lambda nm=nm: getattr(pds, nm)("x", "y", "w"), min_n=2)
    add("cosine_sim", "agg", lambda: pds.cosine_sim("x", "y"), min_n=2)
    add("kendall", "agg", lambda: pds.kendall_tau("x", "y"), min_n=3)
    add("bicor", "agg", lambda: pds.bicor("x", "y"), min_n=4)
    add("xi", "agg", lambda: pds.xi_corr("x", "y", seed=1), min_n=3)
    add("xi_p", "agg", lambda: pds.xi_corr("x", "y", seed=1, return_p=True), min_n=3)
    # time series
    for nm in ("query_mid_range", "query_symm_ratio", "query_abs_energy", "query_mean_abs_change", "query_cv", "query_count_uniques", "query_cid_ce"):
        add(nm, "agg", lambda nm=nm: getattr(pds, nm)("p"), min_n=3)
    add("mean_n_abs_max", "agg", lambda: pds.query_mean_n_abs_max("x", 2), min_n=3)
    add("range_count", "agg", lambda: pds.query_range_count("x", 5.0, 25.0))
    add("longest_streak", "agg", lambda: pds.query_longest_streak("tb"))
    add("avg_streak", "agg", lambda: pds.query_avg_streak("tb"))
    add("streak", "list", lambda: pds.query_streak("tb"))
    add("first_digit", "agg", lambda: pds.query_first_digit_cnt("p"))
    add("benford", "agg", lambda: fun("query_benford")("p"), min_n=3)
    for m in ("sql2", "sqzl2"):
        add(f"similar_count_{m}", "agg", lambda m=m, **k: pds.query_similar_count([1.0, 3.0, 2.0], "x", threshold=40.0 if m == "sql2" else 1.5, metric=m, **k), par=True, min_n=4, nogroup=m == "sqzl2")
    add("lempel_ziv", "agg", lambda: pds.query_lempel_ziv("tb", as_ratio=False))
    add("c3", "agg", lambda: pds.query_c3_stats("x", 1), min_n=4)
    add("tras", "agg", lambda: pds.query_time_reversal_asymmetry_stats("x", 1), min_n=4)
    add("auto_corr", "agg", lambda: pds.query_auto_corr("x", 1), min_n=4)
    add("ar_coeffs", "agg", lambda: pds.query_ar_coeffs("x", 1), min_n=6)
    add("entropy", "agg", lambda: pds.query_entropy("s"))
    add("cond_entropy", "agg", lambda: pds.query_cond_entropy("s", "s2"))
    add("sample_entropy", "agg", lambda **k: pds.query_sample_entropy("x", **k), par=True, min_n=6)
    add("approx_entropy", "agg", lambda parallel=False: pds.query_approx_entropy("x", m=2, filtering_level=0.5, parallel=parallel), par=True, min_n=6)
    add("knn_entropy", "agg", lambda **k: pds.query_knn_entropy("x", "y", **k), par=True, min_n=6)
    add("copula_entropy", "agg", lambda **k: pds.query_copula_entropy("x", "y", **k), par=True, min_n=6)
    add("cond_indep", "agg", lambda **k: pds.query_cond_indep("x", "y", "z", **k), par=True, min_n=6)
    add("transfer_entropy", "agg", lambda **k: pds.query_transfer_entropy("x", "y", **k), par=True, min_n=8)
    add("permute_entropy", "agg", lambda: pds.query_permute_entropy("x"), min_n=5)
    # random
    add("random", "vec", lambda: pds.random(0.0, 1.0, seed=3), seed=True, nogroup=True)
    add("random_int", "vec", lambda: pds.random_int(0, 10, seed=3), seed=True, nogroup=True)
    add("random_normal", "vec", lambda: pds.random_normal(0.0, 1.0, seed=3), seed=True, nogroup=True)
    add("random_exp", "vec", lambda: pds.random_exp(2.0, seed=3), seed=True, nogroup=True)
    add("random_str", "vec", lambda: pds.random_str(1, 4, seed=3), seed=True, nogroup=True)
    add("random_binomial", "vec", lambda: pds.random_binomial(5, 0.5, seed=3), seed=True, nogroup=True)
    add("random_null", "vec", lambda: pds.random_null("x", 0.3, seed=3), seed=True, nogroup=True)
    add("perturb", "vec", lambda: pds.perturb("x", 0.1, seed=3), seed=True, nogroup=True)
    add("jitter", "vec", lambda: pds.jitter("x", 0.1, seed=3), seed=True, nogroup=True)
    return I


def fun(name):
    """A function of the package, also when its module does not export it."""
    if hasattr(pds, name):
        return getattr(pds, name)
    import importlib
    for m in ("num", "metrics", "stats", "ts_features", "string"):
        mod = importlib.import_module(f"polars_ds.exprs.{m}")
        if hasattr(mod, name):
            return getattr(mod, name)
    raise AttributeError(name)


ITEMS = {i.name: i for i in _items()}

# quadratic, or nearly, in the rows of a table of this kind
HEAVY = {"radius", "nb_cnt", "nb_cnt_col", "radius_freq", "sample_entropy", "approx_entropy", "product", "combinations", "combinations_u"}
