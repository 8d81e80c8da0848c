"""P38: evaluating changes nothing but its own result."""
import warnings
from itertools import product

import numpy as np
import polars as pl

from ..catalog import ITEMS, frame
from ..core import Family, equal, outcome_of

NAMES = list(ITEMS)
NULLED = ("x", "y", "p", "u", "a", "b", "s", "i", "t")


def tol(*names):
    return 1e-9 if any(ITEMS[n].approx for n in names) else 1e-13


def canon(v, it):
    if it.name in ("knn_freq", "radius_freq"):  # value_counts names its field after a series
        v = [tuple(x.values()) for x in v]
    return sorted(v, key=repr) if it.unordered else v


def evaluate(df, e, it):
    o = outcome_of(lambda: df.select(e.alias("o"))["o"].to_list())
    return ("ok", canon(o[1], it)) if o[0] == "ok" else ("err", None)


# ---------------------------------------------------------------- expressions evaluated together
def pair_cases(tier):
    return [[a, tier] for a in NAMES]


def pair_run(case, rec):
    a, tier = case
    for n, salt in ((25, 1),) if tier == "quick" else ((25, 1), (40, 2), (31, 3)):
        df = frame(n, salt)
        ea, ia = ITEMS[a].make(), ITEMS[a]
        ra = evaluate(df, ea, ia)
        for b in NAMES:
            eb, ib = ITEMS[b].make(), ITEMS[b]
            rb = evaluate(df, eb, ib)
            rec.state()
            rec.trans(2)
            o = outcome_of(lambda: df.select(ea.implode().alias("o"), eb.implode().alias("o2")))
            if "err" in (ra[0], rb[0]):
                rec.check(o[0] != "ok", f"{a}|{b}|accepted", lambda: f"{a} with {b}: {o}")
                continue
            if rec.check(o[0] == "ok", f"{a}|refused", lambda: f"{a} together with {b}: {o}"):
                rec.same(canon(o[1]["o"].to_list()[0].to_list() if isinstance(o[1]["o"].to_list()[0], pl.Series) else o[1]["o"].to_list()[0], ia), ra[1], f"{a}|first", f"{a} together with {b}", rtol=tol(a), atol=0)
                rec.same(canon(o[1]["o2"].to_list()[0], ib), rb[1], f"{a}|second", f"{b} together with {a}", rtol=tol(b), atol=0)
        rec.outcome((ra[0], n))


# ---------------------------------------------------------------- inputs
def layouts(n, salt):
    """(what, frame, the frame whose memory it may share)"""
    df = frame(n, salt)
    nulls = df.with_columns(pl.when(pl.int_range(pl.len()) % (k + 3) == 1).then(None).otherwise(pl.col(c)).alias(c) for k, c in enumerate(NULLED))
    yield "plain", df, df
    yield "nulls", nulls, nulls
    big = frame(n + 6, salt)
    yield "slice", big.slice(3, n), big
    yield "clone", df.clone(), df
    chunky = pl.concat([df[: n // 3], nulls[n // 3:]], rechunk=False)
    yield "chunks", chunky, chunky


def input_cases(tier):
    return [[a, tier] for a in NAMES]


def input_run(case, rec):
    a, tier = case
    it = ITEMS[a]
    for n in (max(it.min_n + 1, 7), 25, *(() if a in ("product", "combinations") else (1100,))) if tier == "quick" else (max(it.min_n + 1, 7), 12, 25, 70, 130, *(() if a in ("product", "combinations") else (1100, 2500))):
        for salt in (1,) if n > 1000 else (1, 2) if tier == "quick" else (1, 2, 3, 4):
            for what, df, parent in layouts(n, salt):
                before, whole = df.rows(), parent.rows()
                e = it.make()
                text = str(e)
                first = evaluate(df, e, it)
                rec.state()
                rec.trans(4)
                rec.check(equal(df.rows(), before, 0, 0), f"{a}|{what}|input", lambda: f"{a} changed its input")
                rec.check(equal(parent.rows(), whole, 0, 0), f"{a}|{what}|parent", lambda: f"{a} changed memory that its input shares")
                # the same expression again, after another frame, and next to its inputs
                other = evaluate(frame(n + 2, salt + 9), e, it)
                again = evaluate(df, e, it)
                rec.check(str(e) == text, f"{a}|{what}|expression", lambda: f"{text} became {e}")
                if rec.check(first[0] == again[0], f"{a}|{what}|again", lambda: f"{a}: {first} then {again}") and first[0] == "ok":
                    rec.same(again[1], first[1], f"{a}|{what}|again", f"{a} n={n} {what} evaluated again", rtol=tol(a), atol=0)
                o = outcome_of(lambda: df.select(pl.all().implode(), e.implode().alias("the result")))
                if rec.check((o[0] == "ok") == (first[0] == "ok"), f"{a}|{what}|beside", lambda: f"{a}: {first[0]} alone, {o} beside the columns") and o[0] == "ok":
                    rec.check(all(equal(o[1][c][0].to_list(), df[c].to_list(), 0, 0) for c in df.columns), f"{a}|{what}|columns", lambda: f"{a} changed the columns beside it")
                rec.outcome((a, what, first[0], other[0]))


# ---------------------------------------------------------------- histories
def history_cases(tier):
    k = 12 if tier == "quick" else 40
    return [[s, k] for s in range(len(NAMES) if tier != "quick" else len(NAMES) // 2)]


def history_run(case, rec):
    """A walk over the catalogue: what has been evaluated before does not matter to what comes after."""
    s, k = case
    step = 2 * s + 1
    walk = [NAMES[(s + i * step) % len(NAMES)] for i in range(k)]
    df = frame(25, 5)
    want = {a: evaluate(df, ITEMS[a].make(), ITEMS[a]) for a in walk}
    exprs = {a: ITEMS[a].make() for a in walk}
    for order in (walk[::-1], walk):
        for a in order:
            rec.state()
            rec.trans()
            got = evaluate(df, exprs[a], ITEMS[a])
            if rec.check(got[0] == want[a][0], f"{a}|outcome", lambda: f"{walk}: {a} gave {got}") and got[0] == "ok":
                rec.same(got[1], want[a][1], a, f"{a} in {walk}", rtol=tol(a), atol=0)
    # all of them in one evaluation, as one plan
    o = outcome_of(lambda: df.lazy().select(*(e.implode().alias(f"#{i}") for i, (a, e) in enumerate(exprs.items()) if want[a][0] == "ok")).collect())
    rec.trans()
    if rec.check(o[0] == "ok", "together|refused", lambda: f"{walk}: {o}"):
        for i, a in enumerate(exprs):
            if want[a][0] == "ok":
                rec.same(canon(o[1][f"#{i}"].to_list()[0], ITEMS[a]), want[a][1], f"{a}|together", f"{a} in one plan with {walk}", rtol=tol(a), atol=0)
    rec.outcome((s, o[0]))


# ---------------------------------------------------------------- objects
def _arrays(n, m, salt, order="C"):
    from ..clouds import lcg
    a = np.array([v / 64 for v in lcg(n * m, salt, 997)]).reshape(n, m)
    return np.asarray(a, order=order)


def _objects():
    from polars_ds import linear_models as lm, spatial
    from polars_ds import sample_and_split as ss
    from polars_ds.eda.diagnosis import DIA
    from polars_ds.modeling import Blueprint
    from polars_ds.partition.partition import PartitionHelper

    # name -> (the arguments, a function of them giving a read-out to call again after the arguments changed)
    def tree(X, Q):
        t = spatial.KDTree(X[:4], distance="sql2")
        t.add(X[4:])
        t.knn(Q, 2), t.within(Q, 9.0), t.within_count(Q, 9.0)
        return lambda: [x.tolist() for x in t.knn(_arrays(5, 2, 9), 3)] + [t.count()]

    Q0 = _arrays(5, 2, 9)
    F0 = pl.DataFrame(_arrays(4, 3, 8), schema=["f0", "f1", "f2"], orient="row")

    def lr(cls, policy="skip", **kw):
        def f(X, y):
            m = getattr(lm, cls)(**kw)
            m.fit(X, y, null_policy=policy)
            return lambda: [m.coeffs().tolist(), m.bias(), m.predict(_arrays(5, 3, 4)).tolist()]
        return f

    def online(X, y):
        m = lm.OnlineLR(has_bias=True)
        m.fit(X[:6], y[:6])
        for i in range(6, len(X)):
            m.update(X[i: i + 1], y[i: i + 1])
        return lambda: [np.asarray(m.coeffs()).tolist(), m.bias(), np.asarray(m.inv()).tolist(), m.predict(_arrays(5, 3, 4)).tolist()]

    def values(coefs):
        m = lm.LR.from_values(coefs, 0.5)
        e = lm.ElasticNet.from_values(coefs, 0.25)
        return lambda: [m.coeffs().tolist(), e.coeffs().tolist(), m.predict(_arrays(5, 3, 4)).tolist()]

    def online_values(coefs, inv):
        m = lm.OnlineLR.from_coeffs_bias_inverse(coefs, 0.5, inv)
        return lambda: [np.asarray(m.coeffs()).tolist(), m.bias(), np.asarray(m.inv()).tolist()]

    def named(features):
        m = lm.LR.from_values([1.0, 2.0, 3.0], 0.5)
        m.set_input_features(features)
        return lambda: m.predict_df(F0, name="out").lazy().collect().rows()

    def blueprint(df, cols, poly, hot, rules, ren, ranks):
        bp = (Blueprint(df, "p", target="t").impute(cols, "median").scale(cols).polynomial_features(poly, degree=2).one_hot_encode(hot).conditional_impute(rules, "mean")
              .rank_hot_encode("s", ranks).rename(ren).drop(["lf", "l", "m"]))
        pipe = bp.materialize()
        return lambda: pipe.transform(frame(12, 7)).rows()

    def split(df, ratio):
        parts = ss.split_by_ratio(df, ratio, seed=3)
        return lambda: [p.rows() for p in parts]

    def columns(df, cols, keep):
        out = ss.random_cols(cols, 2, keep=keep, seed=3)
        return lambda: list(out)

    def dia(df, keep, rules):
        d, kept = DIA(df), list(rules)
        out = d.row_validation(*rules, id_col="id", columns_to_keep=keep)
        return lambda: [out.rows(), d.infer_binary(), d.infer_discrete(0.2, 4), d.numerics, d.row_validation(*kept, id_col="id", columns_to_keep=["a"]).rows()]

    def part(df, by):
        p = PartitionHelper(df, by)
        return lambda: [(k, v.rows()) for k, v in p.parts.items()]

    X, y = _arrays(12, 3, 1), _arrays(12, 1, 2)
    Xn, yn = X.copy(), y.copy()
    Xn[3, 1], yn[5, 0] = np.nan, np.nan
    df = frame(20, 3)
    out = {}
    for o in ("C", "F"):
        out[f"tree {o}"] = ([_arrays(9, 2, 3, o) if o == "C" else np.ascontiguousarray(_arrays(9, 2, 3, o)), Q0], tree)
        for nm, (x_, y_) in {"": (X, y), " nan": (Xn, yn)}.items():
            out[f"lr {o}{nm}"] = ([np.asarray(x_.copy(), order=o), y_.copy()], lr("LR", has_bias=True))
            out[f"ridge {o}{nm}"] = ([np.asarray(x_.copy(), order=o), y_.copy()], lr("LR", has_bias=True, lambda_=0.3))
            out[f"elastic {o}{nm}"] = ([np.asarray(x_.copy(), order=o), y_.copy()], lr("ElasticNet", l1_reg=0.1, l2_reg=0.1, has_bias=True))
        for policy in ("zero", "one", "0.5"):  # these policies fill the caller's missing features
            gaps = np.asarray(Xn.copy(), order=o)
            out[f"lr {o} {policy}"] = ([gaps.copy(order="A"), y.copy()], lr("LR", policy, has_bias=True))
            out[f"elastic {o} {policy}"] = ([gaps.copy(order="A"), y.copy()], lr("ElasticNet", policy, l1_reg=0.1, l2_reg=0.1, has_bias=True))
        out[f"online {o}"] = ([np.asarray(X.copy(), order=o), y.copy()], online)
    out["values"] = ([np.array([1.0, -2.0, 3.0])], values)
    out["online values"] = ([np.array([1.0, -2.0]), np.array([[2.0, 0.5, 0.1], [0.5, 3.0, 0.2], [0.1, 0.2, 1.0]])], online_values)
    out["features"] = ([["f0", "f2", "f1"]], named)
    out["blueprint"] = ([df, ["x", "y"], ["z", "w"], ["s2"], {"p": pl.col("u") > 0.5}, {"x": "renamed"}, ["p", "q", "r"]], blueprint)
    out["split"] = ([df, [0.5, 0.3, 0.2]], split)
    out["columns"] = ([df, ["x", "y", "z", "w"], ["z"]], columns)
    out["dia"] = ([df, ["a", "b"], [(pl.col("x") > 20, "r1"), (pl.col("y") > 20, "r2")]], dia)
    out["partition"] = ([df, ["s", "s2"]], part)
    return out


def object_cases(tier):
    return [[k] for k in _objects()]


def snap(a):
    if isinstance(a, np.ndarray):
        return a.tolist(), a.dtype.str, a.flags["C_CONTIGUOUS"]
    if isinstance(a, pl.DataFrame):
        return a.rows(), a.columns
    if isinstance(a, dict):
        return [(k, snap(v)) for k, v in a.items()]
    return [snap(x) for x in a] if isinstance(a, (list, tuple)) else str(a)


def spoil(a):
    """What a caller may do to its own objects after the call."""
    if isinstance(a, np.ndarray):
        a[:] = -1e6
    elif isinstance(a, list):
        a.clear()
        a.append("nothing")
    elif isinstance(a, dict):
        a.clear()


def object_run(case, rec):
    args, f = _objects()[case[0]]
    rec.state()
    rec.trans(4)
    before = [str(snap(a)) for a in args]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        read = f(*args)
        first = read()
    rec.check([str(snap(a)) for a in args] == before, "arguments", lambda: f"{case[0]} changed its arguments: {args}")
    again = read()
    rec.same(again, first, "again", f"{case[0]} read twice", rtol=0, atol=0)
    rec.check([str(snap(a)) for a in args] == before, "arguments", lambda: f"{case[0]}: reading changed the arguments: {args}")
    for a in args:
        spoil(a)
    rec.same(read(), first, "aliased", f"{case[0]} after its caller reused the arguments", rtol=0, atol=0)
    # and what it hands out may be written to
    fresh, g = _objects()[case[0]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec.same(g(*fresh)(), first, "second", f"{case[0]} made again", rtol=0, atol=0)
    rec.outcome(case[0])


def handed_cases(tier):
    return [["LR"], ["ElasticNet"], ["OnlineLR"], ["KDTree"]]


def handed_run(case, rec):
    """Arrays an object returns are the caller's: writing to them does not change the object."""
    from polars_ds import linear_models as lm, spatial
    X, y, Z = _arrays(12, 3, 1), _arrays(12, 1, 2), _arrays(5, 3, 4)
    if case[0] == "KDTree":
        t = spatial.KDTree(X, distance="l2")
        reads = [lambda: t.knn(Z, 3)[0], lambda: t.knn(Z, 3)[1], lambda: t.within_count(Z, 5.0)]
    else:
        m = getattr(lm, case[0])(has_bias=True, **({"l1_reg": 0.1, "l2_reg": 0.1} if case[0] == "ElasticNet" else {}))
        m.fit(X, y)
        reads = [lambda: m.coeffs(), lambda: m.predict(Z)] + ([lambda: m.inv()] if case[0] == "OnlineLR" else [])
    for i, j in product(range(len(reads)), repeat=2):
        want = [np.array(r()).tolist() for r in reads]
        rec.state()
        rec.trans(2)
        a = reads[i]()
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = 7
        elif isinstance(a, list):
            a.clear()
        rec.same(np.array(reads[j]()).tolist(), want[j], f"{case[0]}", f"{case[0]} read {j} after writing to the array of read {i}", rtol=0, atol=0)
    rec.outcome(case[0])


FAMILIES = [
    Family("pairs", pair_cases, pair_run, "every ordered pair of expressions of the catalogue evaluated in one selection, against each alone; 1 (3) frames"),
    Family("inputs", input_cases, input_run, "every expression x 5 layouts (plain, nulls, slice of a larger frame, shared memory, chunks) x 2 (5) lengths x 2 (4) fillings and 1100 (2500) rows: inputs and shared memory afterwards, the same expression again and beside its inputs"),
    Family("histories", history_cases, history_run, "walks of 12 (40) expressions from every start, with every odd step, forwards, backwards and as one plan"),
    Family("objects", object_cases, object_run, "36 constructions of models, trees, pipelines, reports and splits: arguments afterwards, and the object after its caller overwrote the arguments"),
    Family("handed out", handed_cases, handed_run, "every pair of (array an object returned and the caller overwrote, array it returns next)"),
]
