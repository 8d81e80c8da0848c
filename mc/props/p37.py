"""P37: what the columns are called does not change the answer."""
import inspect
import re

import polars as pl

from .. import catalog
from ..catalog import ITEMS, frame
from ..core import Family, outcome_of

COLS = frame(3).columns
SOURCE = inspect.getsource(catalog._items)
PATTERN = re.compile('"(' + "|".join(sorted(COLS, key=len, reverse=True)) + ')"')
WORDS = ["literal", "", "0", "1", "2", "3", "len", "cnt", "count", "counts", "value", "values", "index", "idx", "id", "target", "actual", "pred", "threshold", "weights", "bias", "x0", "y0",
         "rle", "pc1", "coeffs", "stats", "r", "k", "n", "o", "_", "*x", "^c", "x y", "é", "__x__", "field_0", "column_0", "_id", "_lag_1", "dist", "radius", "bin", "breakpoint", "cum", "sum", "mean", "var", "all",
         "true", "null", "None", "name", "group", "items", "lr_pred", "tp", "pos_cnt_at_threshold", "predicted_positive", "1_sum", "1_var", "a", "b", "c", "x", "y", "z", "w", "t", "X", "Y", "q"]
# and the names that the package gives to columns and fields of its own (those with two leading
# underscores it keeps for itself)
WORDS += """E[freq] H(x|y) acc actual_cat actual_category actual_cnt actual_pct alpha average_gain bad_pct baseline_cat
baseline_category baseline_cnt baseline_pct beta brk by child cnt_actual cnt_baseline column cond_entropy cond_p corr discount discount_cumsum discount_diff discount_mask
discounted_ideal_relevance discounted_relevance ex feature features fpr good_pct goods histogram is_equal is_single_candidate iv l m lag median metrics min max mcc n_classes n_samples n_unique ndcg
normalized_is_equal null_corr null_count num_repetitions num_rows num_rows_diff ob ones output p p(x,y) p(y) parent pass pattern pc precision product psi_bin psi_report pvalue q1 q3 rank
rank_groups relevance report s s1 s2 score std streak_len survey time to tpr woe y_pred y_true""".split()
WORDS = list(dict.fromkeys(WORDS))
while any(len(WORDS) % k == 0 for k in (2, 3, 5, 7)):
    WORDS.append("q" * len(WORDS))
# A string given to a regression is a formula, so columns with odd names are given as expressions.
FORMULA = ("lin_reg", "lin_reg_w", "lin_reg_pred", "lin_reg_multi", "lin_reg_multi_pred", "ridge", "lasso", "elastic", "simple_lin_reg", "simple_lin_reg_pred", "rcond", "rolling",
           "rolling_skip", "recursive", "report", "report_w")
EMBEDDED = {"map_words"}  # quotes words, too
NAMED = {"knn_freq": ["count"], "radius_freq": ["count"], "chi2_full": ["statistic", "pvalue", "dof", "len", "E[freq]"]}


def mapping(shift):
    """A different name for each column, all cyclic shifts of the list."""
    return {c: WORDS[(i * 5 + shift) % len(WORDS)] for i, c in enumerate(COLS)}


def items(names):
    def build(quote):
        env = dict(vars(catalog))
        exec(PATTERN.sub(lambda m: quote(names[m.group(1)]), SOURCE), env)
        return dict(zip(ITEMS, env["_items"]()))  # (an item is named like a column)

    plain, exprs = build(repr), build(lambda n: f"pl.col({n!r})")
    return plain | {n: exprs[n] for n in FORMULA}


def value(df, it):
    o = outcome_of(lambda: df.select(it.make().alias("o"))["o"].to_list())
    if o[0] == "ok" and it.name in NAMED:  # fields named after the columns
        o = "ok", [tuple(v.values()) for v in o[1]]
    return ("ok", sorted(o[1], key=repr)) if o[0] == "ok" and it.unordered else o


def cases(tier):
    return [[s] for s in range(len(WORDS))]


def run(case, rec):
    names = mapping(case[0])
    new = items(names)
    assert len(set(names.values())) == len(names)
    for n, salt in ((25, 1), (30, 2)):
        df = frame(n, salt)
        ren = df.rename(names)
        for name, it in ITEMS.items():
            if name in EMBEDDED or it.seed:
                continue
            rec.state()
            rec.trans(2)
            if name in NAMED and any(names[c] in NAMED[name] for c in ("id", "s", "s2")):
                continue  # the result has both fields of its own and fields named after columns
            want, got = value(df, it), value(ren, new[name])
            if name.startswith("report") and want[0] == "ok":
                want = "ok", [r | {"features": names.get(r["features"], r["features"])} for r in want[1]]
            if rec.check(want[0] == got[0], f"{name}|outcome", lambda: f"{name}: {got} instead of {str(want)[:200]} for columns {names}"):
                if want[0] == "ok":
                    if name == "dia.dependency":  # equal entropies may differ in their last digits, from run to run: their order is free
                        got, want = (("ok", sorted(o[1], key=lambda r: (round(r[-1], 9), str(r)))) for o in (got, want))
                    rec.same(got[1], want[1], f"{name}", f"{name} columns {names}", rtol=1e-9, atol=1e-9)
        rec.outcome((case[0], n))


# Functions of whole frames: f(frame, name of a column) -> something to compare.
def _dia(f):
    def g(df, q):
        from polars_ds.eda.diagnosis import DIA
        return f(DIA(df), q)
    return g


def _steps(*make):
    def g(df, q):
        from polars_ds.modeling import Blueprint
        bp = Blueprint(df, "odd names", target=q("t"))
        for m in make:
            bp = m(bp, q)
        pipe = bp.materialize()
        return pipe.transform(df)
    return g


def _model(cls, **kw):
    def g(df, q):
        from polars_ds import linear_models
        m = getattr(linear_models, cls)(**kw)
        m.fit_df(df, [q("x"), q("y"), q("w")], q("z"))
        return [list(m.coeffs()), m.bias(), m.predict_df(df, name="the prediction").collect()["the prediction"] if hasattr(m.predict_df(df), "collect") else m.predict_df(df, name="the prediction")["the prediction"]]
    return g


def frame_functions():
    import warnings

    import polars_ds as pds  # noqa: F401
    from polars_ds import sample_and_split as ss
    from polars_ds.partition.partition import PartitionHelper
    from polars_ds.exprs.metrics import calculate_ndcg

    warnings.simplefilter("ignore")
    nums = ("x", "y", "z", "w")
    return {
        "sample": lambda df, q: ss.sample(df, 7, seed=3),
        "sample_share": lambda df, q: ss.sample(df, 0.3, seed=3),
        "volume_neutral": lambda df, q: ss.volume_neutral(df, by=pl.col(q("s")), seed=3),
        "volume_neutral_target": lambda df, q: ss.volume_neutral(df, by=pl.col(q("s")), target_volume=2, seed=3),
        "volume_neutral_control": lambda df, q: ss.volume_neutral(df, by=pl.col(q("s")), control=[pl.col(q("s2")), pl.col(q("tb"))], seed=3),
        "downsample": lambda df, q: ss.downsample(df, (pl.col(q("s")) == "v-p", 0.5), (pl.col(q("t")) == 1, 2), seed=3),
        "split": lambda df, q: ss.split_by_ratio(df, 0.6, seed=3),
        "split_list": lambda df, q: ss.split_by_ratio(df, [0.5, 0.3, 0.2], seed=3),
        "partition": lambda df, q: dict(sorted(PartitionHelper(df, q("s")).parts.items())),
        "partition_list": lambda df, q: dict(sorted(PartitionHelper(df, [q("s"), q("s2"), q("tb")]).parts.items())),
        "dia.special": _dia(lambda d, q: d.special_values_report()),
        "dia.profile": _dia(lambda d, q: d.numeric_profile(gt=False, n_bins=5)),
        "dia.profile_plain": _dia(lambda d, q: d.numeric_profile(gt=False, histogram=False)),
        "dia.str_stats": _dia(lambda d, q: d.str_stats().drop("most_freq")),
        "dia.corr": _dia(lambda d, q: d.corr([q("x"), q("i")])),
        "dia.null_corr": _dia(lambda d, q: d.null_corr([q("x"), q("y"), q("s")])),
        "dia.infer": _dia(lambda d, q: [d.infer_prob(), d.infer_high_null(0.2), d.infer_discrete(0.2, 4), d.infer_const(), d.infer_binary(), d.infer_binary(True), d.infer_k_distinct(3)]),
        "dia.infer_corr": _dia(lambda d, q: d.infer_corr()),
        "dia.dependency": _dia(lambda d, q: d.infer_dependency([q("s"), q("s2"), q("tb"), q("c3")])),
        "dia.col_validation": _dia(lambda d, q: d.col_validation((pl.col(q("x")).min() > 3, "m1"), (pl.col(q("y")).max() > 3, "m2"), (pl.col(q("s")).n_unique() == 2, "m3"))),
        "dia.row_validation": _dia(lambda d, q: d.row_validation((pl.col(q("x")) > 3, "rule 1"), (pl.col(q("y")) > 9, "rule 2"), id_col=q("id"), columns_to_keep=[q("a")])),
        "dia.row_validation_all": _dia(lambda d, q: d.row_validation((pl.col(q("x")) > 3, "rule 1"), (pl.col(q("y")) > 9, "rule 2"), id_col=q("id"), all_reasons=True)),
        "pipe.impute": _steps(lambda b, q: b.impute([q(c) for c in nums], method="median"), lambda b, q: b.impute([q("i"), q("j")], method="mean")),
        "pipe.conditional": _steps(lambda b, q: b.conditional_impute({q("x"): pl.col(q("y")) > 20, q("y"): pl.col(q("z")) < 9}, method="mean")),
        "pipe.linear": _steps(lambda b, q: b.linear_impute([q("y"), q("w")], target=q("x"), add_bias=True)),
        "pipe.scale": _steps(lambda b, q: b.scale([q(c) for c in nums]), lambda b, q: b.center([q("i")]), lambda b, q: b.robust_scale([q("p")], 0.2, 0.8)),
        "pipe.winsorize": _steps(lambda b, q: b.winsorize([q(c) for c in nums], q_low=0.2, q_high=0.7)),
        "pipe.one_hot": _steps(lambda b, q: b.one_hot_encode([q("s"), q("s2")], separator="<>")),
        "pipe.rank_hot": _steps(lambda b, q: b.rank_hot_encode(q("s"), ["v-p", "v-q", "v-r"])),
        "pipe.target": _steps(lambda b, q: b.target_encode([q("s"), q("s2")], min_samples_leaf=2)),
        "pipe.woe": _steps(lambda b, q: b.woe_encode([q("s"), q("s2")])),
        "pipe.iv": _steps(lambda b, q: b.iv_encode([q("s"), q("s2")])),
        "pipe.poly": _steps(lambda b, q: b.polynomial_features([q("x"), q("y")], degree=2)),
        "pipe.rename": _steps(lambda b, q: b.rename({q("x"): "a new name"}), lambda b, q: b.scale(["a new name"]), lambda b, q: b.drop([q("y")])),
        "pipe.types": _steps(lambda b, q: b.cast_bools(), lambda b, q: b.int_to_float(), lambda b, q: b.nan_to_null()),
        "model.lr": _model("LR", has_bias=True),
        "model.elastic": _model("ElasticNet", l1_reg=0.1, l2_reg=0.1, has_bias=True),
        "ndcg": lambda df, q: calculate_ndcg(df, q("j"), q("x"), q("s"), k=3),
        "ndcg_ties": lambda df, q: calculate_ndcg(df, q("j"), q("c3"), q("s"), k=3, ignore_ties=False),
    }


def plain(v, back):
    """Cells of a result, with the names of columns turned back."""
    if isinstance(v, pl.LazyFrame):
        v = v.collect()
    if isinstance(v, pl.DataFrame):
        return [plain(list(r), back) for r in v.rows()]
    if isinstance(v, pl.Series):
        return plain(v.to_list(), back)
    if isinstance(v, dict):
        return [[k, plain(x, back)] for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [plain(x, back) for x in v]
    return ("column", back[v]) if isinstance(v, str) and v in back else v


TAKEN = {"dia.corr": {"column"}, "pipe.rename": {"a new name"}}


def frame_run(case, rec):
    names = mapping(case[0])
    back = {v: k for k, v in names.items()}
    for n, salt in ((25, 1), (30, 2)):
        df = frame(n, salt).with_columns(pl.when(pl.int_range(pl.len()) % 5 == k).then(None).otherwise(pl.col(c)).alias(c) for k, c in enumerate(("x", "y", "i", "s")))
        # (so that no cell is also the name of a column)
        df = df.with_columns(*(("v-" + pl.col(c)).alias(c) for c in ("a", "b", "s", "s2")), pl.col("l", "m").list.eval("v-" + pl.element()))
        for name, f in frame_functions().items():
            if name in TAKEN and TAKEN[name] & set(names.values()):
                continue
            rec.state()
            rec.trans(2)
            d0 = df.with_columns(pl.col("x").fill_null(1.5), pl.col("y").fill_null(2.5), pl.col("i").fill_null(1), pl.col("s").fill_null("v-q")) if name.startswith(("ndcg", "model")) else df
            want = outcome_of(lambda: plain(f(d0, lambda c: c), {c: c for c in df.columns}))
            got = outcome_of(lambda: plain(f(d0.rename(names), lambda c: names[c]), back))
            if rec.check(want[0] == got[0], f"{name}|outcome", lambda: f"{name}: {str(got)[:300]} instead of {str(want)[:200]} for columns {names}"):
                if want[0] == "ok":
                    if name == "dia.dependency":  # equal entropies may differ in their last digits, from run to run: their order is free
                        got, want = (("ok", sorted(o[1], key=lambda r: (round(r[-1], 9), str(r)))) for o in (got, want))
                    rec.same(got[1], want[1], f"{name}", f"{name} columns {names}", rtol=1e-9, atol=1e-9)
            rec.outcome((name, want[0]))


FAMILIES = [
    Family("names", cases, run, "every expression of the catalogue with all columns renamed: every rotation of a list of about 200 names (words of the package, numbers, empty, blanks, accents) over the 22 columns, 2 frames"),
    Family("frames", cases, frame_run, "39 functions of whole frames (sampling, partitions, reports, pipelines, models, NDCG) under the same renamings, 2 frames with nulls"),
]
