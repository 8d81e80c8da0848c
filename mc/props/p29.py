"""P29: a pipeline applies what it learned on the training frame, in order, to any frame."""
import io
import json
import math
import os
import pickle
import tempfile
from itertools import product

import polars as pl
from polars_ds.modeling.pipeline import Blueprint, Pipeline

from .. import pipe
from ..core import Family, outcome_of
from ..pipe import Missing, Unclaimed

STEPS = pipe.all_steps()
BY = {s.name: i for i, s in enumerate(STEPS)}
NAN = math.nan

TRAIN = {
    "a": ("i", [1, None, 5, 2, 7, 2, 4]),
    "b": ("f", [0.5, 2.25, None, -1.0, 3.5, 0.75, 2.0]),
    "s": ("s", ["u", "v", None, "u", "w", "u", "v"]),
    "c": ("s", ["lo", "hi", "mid", "lo", "hi", "lo", "mid"]),
    "f": ("b", [True, None, False, True, True, False, False]),
    "y": ("i", [0, 1, 1, 0, 1, 0, 1]),
}
NEW = {
    "a": ("i", [None, 3, -2, 9, 6]),
    "b": ("f", [NAN, None, 10.0, -3.0, 1.0]),
    "s": ("s", ["zz", "u", None, "w", "v"]),
    "c": ("s", [None, "hi", "unseen", "lo", "mid"]),
    "f": ("b", [None, None, True, False, True]),
    "y": ("i", [1, 0, None, 1, 1]),
}
ONE = {"a": ("i", [None]), "b": ("f", [None]), "s": ("s", [None]), "c": ("s", ["lo"]), "f": ("b", [None]), "y": ("i", [1])}
FRAMES = {"train": TRAIN, "new": NEW, "one": ONE}
# how the blueprint is made: target, exclude
WAYS = [("y", None), ("y", ["a"]), ("y", ["s", "b", "y"])]


def seqs(depth):
    return [list(t) for k in range(1, depth + 1) for t in product(range(len(STEPS)), repeat=k)]


def chunks(items, n):
    return [items[i:i + n] for i in range(0, len(items), n)]


def seq_cases(tier):
    out = []
    for w in range(len(WAYS)):
        for k in (1, 2):
            for first in range(len(STEPS)):
                out.append([w, k, [first]])
    if tier != "quick":
        out += [[0, 3, [i, j]] for i in range(len(STEPS)) for j in range(len(STEPS))]
    return out


def excluded(w):
    target, exclude = WAYS[w]
    return list({*( [target] if target else []), *(exclude or [])})


def one(rec, w, idx, how="method"):
    steps = [STEPS[i] for i in idx]
    key = ">".join(s.name for s in steps)
    target, exclude = WAYS[w]
    try:
        fits, names, _ = pipe.learn(TRAIN, steps, excluded(w))
    except Unclaimed:
        rec.outcome("unclaimed")
        return None
    except Missing:
        rec.state()
        rec.trans()
        got = outcome_of(lambda: pipe.build(Blueprint(pipe.frame(TRAIN), target=target, exclude=exclude), steps, how).materialize().transform(pipe.frame(TRAIN)))
        rec.outcome("refused")
        rec.check(got[0] == "err", f"missing column accepted|{key}", lambda: f"{key}: {got}")
        return None
    pipeline = pipe.build(Blueprint(pipe.frame(TRAIN), target=target, exclude=exclude), steps, how).materialize()
    rec.check(pipeline.feature_names_out_ == names and pipeline.feature_names_in_ == list(TRAIN), f"feature names|{key}", lambda: f"{pipeline.feature_names_out_} want {names}")
    for nm, fr in FRAMES.items():
        try:
            want = pipe.run(fits, names, fr)
        except (Unclaimed, Missing):
            rec.outcome(f"unclaimed {nm}")
            continue
        rec.state()
        rec.trans(len(steps))
        df = pipe.frame(fr)
        got = outcome_of(pipeline.transform, df)
        rec.trace()
        bad = got[1] if got[0] != "ok" else pipe.same_frame(got[1], want)
        rec.outcome((len(want), sorted(t for t, _ in want.values())))
        if bad:
            rec.fail(f"transform {nm}|{key}", f"{key} (exclude {excluded(w)}): {bad}")
        rec.check(pipe.same_frame(df, fr) is None, f"input changed|{key}", key)
    return pipeline, fits, names


def seq_run(case, rec):
    w, k, prefix = case
    for rest in product(range(len(STEPS)), repeat=k - len(prefix)):
        one(rec, w, [*prefix, *rest])


# ---- what a pipeline can be asked for -----------------------------------------------------------
SOME = [i for i, s in enumerate(STEPS) if s.method in ("impute", "scale", "winsorize", "one_hot_encode", "target_encode", "filter", "sql_transform", "rename", "drop", "select", "rank_hot_encode", "cast_bools", "append_expr")]


def api_cases(tier):
    return [[i] for i in range(len(STEPS))]


def finite_learned(pipeline):
    return "NaN" not in str(pipeline.transforms) and "inf" not in repr(pipeline)


def api_run(case, rec):
    first = case[0]
    for rest in [[]] + [[j] for j in SOME]:
        idx = [first, *rest]
        made = one(rec, 0, idx, "dict")
        if made is None:
            continue
        pipeline, fits, names = made
        key = ">".join(STEPS[i].name for i in idx)
        again = pipe.build(Blueprint(pipe.frame(TRAIN).lazy(), target="y"), [STEPS[i] for i in idx]).materialize()
        for nm, fr in FRAMES.items():
            try:
                want = pipe.run(fits, names, fr)
            except (Unclaimed, Missing):
                continue
            df = pipe.frame(fr)
            rec.state()

            def same(label, fn):
                rec.trans()
                rec.trace()
                got = outcome_of(fn)
                bad = got[1] if got[0] != "ok" else pipe.same_frame(got[1], want)
                if bad:
                    rec.fail(f"{label}|{key}", f"{label} {key} on {nm}: {bad}")

            lazy = pipeline.transform(df, return_lazy=True)
            rec.check(isinstance(lazy, pl.LazyFrame), f"return_lazy|{key}", lambda: type(lazy))
            same("return_lazy", lazy.collect)
            same("lazy input", lambda: pipeline.transform(df.lazy()))
            same("lazy fit", lambda: again.transform(df))
            same("second use", lambda: pipeline.transform(df))
            same("pickle", lambda: pickle.loads(pickle.dumps(pipeline)).transform(df))
            same("extra columns", lambda: pipeline.transform(df.with_columns(pl.lit("zz").alias("other"))) if STEPS_KEEP(idx) else pipeline.transform(df))
            if finite_learned(pipeline):
                same("json", lambda: Pipeline.from_json_str(pipeline.to_json()).transform(df))
                same("dict", lambda: Pipeline.from_dict(json.loads(json.dumps(pipeline.to_dict()))).transform(df))
            if "y" in want and len(want) > 1:
                for lz in (False, True):
                    got = outcome_of(lambda: pipeline.transform(df, return_lazy=lz, separate=True))
                    if rec.check(got[0] == "ok", f"separate|{key}", lambda: got):
                        x, y = (g.lazy().collect() for g in got[1])
                        rec.check(all(isinstance(g, pl.LazyFrame) == lz for g in got[1]), f"separate lazy|{key}", key)
                        bad = pipe.same_frame(x, {n: v for n, v in want.items() if n != "y"}) or pipe.same_frame(y, {"y": want["y"]})
                        rec.check(bad is None, f"separate|{key}", lambda: f"{key} on {nm}: {bad}")
        if finite_learned(pipeline):
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, "p.json")
                rec.check(pipeline.to_json(p) is None and json.load(open(p)) == json.loads(pipeline.to_json()), f"to_json path|{key}", key)
                back = Pipeline.from_json(p)
            for f in ("name", "target", "feature_names_in_", "feature_names_out_", "ensure_features_in", "ensure_features_out", "lowercase", "uppercase"):
                rec.check(getattr(back, f) == getattr(pipeline, f), f"json field {f}|{key}", lambda: (getattr(back, f), getattr(pipeline, f)))


def STEPS_KEEP(idx):
    """An extra text column is left alone by these steps (none takes every column of a dtype)."""
    return not any(STEPS[i].method in ("cast_bools", "nan_to_null", "int_to_float") or "('cs'" in STEPS[i].name for i in idx)


# ---- which columns a pipeline insists on --------------------------------------------------------
def io_cases(tier):
    return [[i, o] for i in (False, True) for o in (False, True)]


def io_run(case, rec):
    ein, eout = case
    cols = list(TRAIN)
    for i, s in enumerate(STEPS):
        try:
            fits, names, _ = pipe.learn(TRAIN, [s], ["y"])
        except (Unclaimed, Missing):
            continue
        p = pipe.build(Blueprint(pipe.frame(TRAIN), target="y"), [s]).materialize().ensure_features_io(ein, eout)
        if "NaN" not in repr(p):
            q = Pipeline.from_json_str(p.to_json())
        else:
            q = p
        for gone in [()] + [(c,) for c in cols]:
            for extra in ({}, {"other": ("i", list(range(7)))}):
                fr = {n: v for n, v in {**TRAIN, **extra}.items() if n not in gone}
                rec.state()
                refuse = ein and (gone or extra)
                try:
                    cur = fr
                    for ap in fits:
                        cur = ap(cur)
                    want = {n: cur[n] for n in names} if eout else cur
                except Unclaimed:
                    continue
                except (Missing, KeyError):
                    refuse, want = True, None
                for o in (p, q):
                    rec.trans()
                    got = outcome_of(o.transform, pipe.frame(fr))
                    rec.trace()
                    rec.outcome((bool(refuse), got[0]))
                    if refuse:
                        if got[0] != "err":
                            rec.fail(f"features accepted|{s.name}|{gone}|{list(extra)}", f"{got}")
                    elif got[0] != "ok" or pipe.same_frame(got[1], want):
                        rec.fail(f"features|{s.name}|{gone}|{list(extra)}|{ein}{eout}", f"{got[1] if got[0] != 'ok' else pipe.same_frame(got[1], want)}")
        # order of the incoming columns does not matter
        fr = {n: TRAIN[n] for n in reversed(cols)}
        if eout:
            got = outcome_of(p.transform, pipe.frame(fr))
            try:
                want = pipe.run(fits, names, TRAIN)
            except (Unclaimed, Missing):
                continue
            rec.check(got[0] == "ok" and pipe.same_frame(got[1], want) is None, f"column order|{s.name}", lambda: f"{got}")


# ---- upper and lower case -----------------------------------------------------------------------
def case_cases(tier):
    return [[lo, up, ein] for lo in (False, True) for up in (False, True) for ein in (False, True) if lo or up]


def case_run(case, rec):
    lo, up, ein = case
    mixed = {"a": "Aa", "b": "bB", "s": "S", "c": "cC", "f": "ff", "y": "Y"}
    conv = str.lower if lo else str.upper
    train = {mixed[n]: v for n, v in TRAIN.items()}
    new = {mixed[n]: v for n, v in NEW.items()}
    A, B, Y, S = (conv(mixed[n]) for n in "abys")
    steps = [
        [pipe.impute([A, B], "mean")],
        [pipe.center(("cs", "numeric"))],
        [pipe.one_hot(S)],
        [pipe.drop(A), pipe.scale(B, "standard")],
        [pipe.encoder("target_encode", S, target=Y, min_samples_leaf=1, smoothing=1.0)],
        [pipe.sel_step([A, Y])],
        [],
    ]
    for ss in steps:
        low = {conv(n): v for n, v in train.items()}
        fits, names, _ = pipe.learn(low, ss, [Y])
        p = pipe.build(Blueprint(pipe.frame(train), target=Y, lowercase=lo, uppercase=up), ss).materialize().ensure_features_io(ein, True)
        for o in (p, Pipeline.from_json_str(p.to_json())):
            for nm, fr in (("train", train), ("new", new), ("already", low)):
                rec.state()
                rec.trans()
                cf = {conv(n): v for n, v in fr.items()}
                want = pipe.run(fits, names, cf)
                got = outcome_of(o.transform, pipe.frame(fr))
                rec.trace()
                rec.outcome((nm, got[0]))
                bad = got[1] if got[0] != "ok" else pipe.same_frame(got[1], want)
                if bad:
                    rec.fail(f"case|{nm}|{[s.name for s in ss]}|{case}", bad)


# ---- refusals -----------------------------------------------------------------------------------
def bad_cases(tier):
    return [["args"]]


def bad_run(case, rec):
    df = pipe.frame(TRAIN)
    B = lambda **k: Blueprint(df, **{"target": "y", **k})
    p = B().materialize()
    bad = {
        "unknown impute": lambda: B().impute(["a"], "other").materialize(),
        "unknown cond": lambda: B().conditional_impute({"a": "a > 1"}, "other").materialize(),
        "unknown scale": lambda: B().scale(["a"], "other").materialize(),
        "q": lambda: B().winsorize(["a"], 0.9, 0.1).materialize(),
        "q equal": lambda: B().winsorize(["a"], 0.5, 0.5).materialize(),
        "q >1": lambda: B().robust_scale(["a"], 0.5, 1.5).materialize(),
        "q <0": lambda: B().robust_scale(["a"], -0.5, 0.5).materialize(),
        "degree": lambda: B().polynomial_features(["a", "b"], 1),
        "poly expr": lambda: B().polynomial_features([pl.col("a")], 2),
        "one rank": lambda: B().rank_hot_encode("c", ["lo"]),
        "no target": lambda: B(target=None).target_encode("s"),
        "no target woe": lambda: B(target=None).woe_encode("s"),
        "no target iv": lambda: B(target=None).iv_encode("s"),
        "no target li": lambda: B(target=None).linear_impute("a"),
        "no target custom": lambda: B(target=None).append_fit_func(pipe.half_range, ["a"]),
        "separate without target": lambda: B(target=None).materialize().transform(df, separate=True),
        "bad default": lambda: B().target_encode("s", default="median").materialize(),
        "encode numbers": lambda: B().target_encode("a").materialize(),
        "dict name": lambda: B().append_step_from_dict({"args": []}),
        "dict unknown": lambda: B().append_step_from_dict({"name": "nothing"}),
        "dict private": lambda: B().append_step_from_dict({"name": "_get_target", "args": []}),
        "dict args": lambda: B().append_step_from_dict({"name": "center", "args": "a"}),
        "dict kwargs": lambda: B().append_step_from_dict({"name": "center", "args": ["a"], "kwargs": [1]}),
        "pipeline keys": lambda: Pipeline.from_dict({"name": "x"}),
        "step": lambda: pipe_step("a"),
        "step list": lambda: pipe_step([1]),
        "step number": lambda: pipe_step(1),
    }
    for k, f in bad.items():
        rec.state()
        rec.trans()
        got = outcome_of(f)
        rec.outcome((k, got[0]))
        rec.check(got[0] == "err", f"accepted|{k}", lambda: f"{k}: {got}")
    # fitting never changes the blueprint: it can be extended and materialized again
    b = B().impute(["a"], "mean")
    p1 = b.materialize()
    n1 = len(p1.transforms)
    b.center(["a"])
    p2 = b.materialize()
    rec.check(len(p1.transforms) == n1 and len(p2.transforms) == n1 + 1, "blueprint shared", (n1, len(p2.transforms)))
    rec.check(b.fit().transform(df).equals(b.transform(df)) and b.transform(df).equals(p2.transform(df)), "fit is materialize", "")
    t = outcome_of(lambda: b.transform(df, separate=True))
    rec.check(t[0] == "ok" and t[1][1].columns == ["y"], "blueprint separate", lambda: t)
    rec.check("impute" not in str(b) and "steps: 2" in str(b), "str", lambda: str(b))


def pipe_step(x):
    from polars_ds.modeling._structures import PipelineStep

    return PipelineStep(x, "select")


FAMILIES = [
    Family("sequences", seq_cases, seq_run, f"all sequences of up to 2 (thorough: 3) of {len(STEPS)} pipeline steps, fitted on a 7 row frame of six columns with nulls, applied to that frame, to a frame with unseen categories, nulls and NaN and to a single row, with 3 choices of excluded columns"),
    Family("api", api_cases, api_run, f"every step and every pair of it with {len(SOME)} others, made from dictionaries: lazy in and out, pickle, JSON text, file and dictionary round trip, separate, repeated use, extra columns"),
    Family("features", io_cases, io_run, "every step x all four settings of ensure_features_io x no or one column missing x no or one column extra, also after a JSON round trip"),
    Family("case", case_cases, case_run, "lower and upper case column names: 7 step lists x both flags x ensure_features_in x training, new and already renamed frames, before and after a JSON round trip"),
    Family("refused", bad_cases, bad_run, "27 invalid uses, and reuse of a blueprint after fitting"),
]
