"""P33: the data inspection reports say what is in the data."""
import math
import warnings
from itertools import combinations, product

import polars as pl

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from polars_ds.eda.diagnosis import DIA

from ..core import Family, equal, outcome_of

NAN, INF = math.nan, math.inf


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return outcome_of(f, *a, **k)


def some(v):
    return [x for x in v if x is not None]


def uniq(v):
    """Number of distinct values, null being one (and all NaN the same)."""
    return len({("nan",) if isinstance(x, float) and x != x else (tuple(x) if isinstance(x, list) else x,) for x in v})


ALPHABETS = {
    "int": (pl.Int64, [None, 0, 3, -7]),
    "int8": (pl.Int8, [None, -128, 127, 3]),
    "uint": (pl.UInt32, [None, 0, 1, 4_000_000_000]),
    "float": (pl.Float64, [None, 0.25, 1.0, -2.5]),
    "float32": (pl.Float32, [None, 0.5, 0.0, 1.5]),
    "special": (pl.Float64, [None, 0.5, NAN, INF]),
    "str": (pl.String, [None, "", "é", "abc"]),
    "bool": (pl.Boolean, [None, True, False]),
}
LISTS = [None, [0.5, 0.5], [1.0, 0.0], [0.7, 0.7], [-0.5, 1.5], [1.0], [0.2, 0.3, 0.5], [0.25, 0.5]]


def table(kind, n):
    dt, alpha = ALPHABETS[kind]
    cols = list(product(alpha, repeat=n)) if n <= 6 else longer(kind, n, alpha[1:])
    return cols, dt


def longer(kind, n, alpha):
    """Columns of n values: p distinct ones, outliers at either end, nulls in some rows."""
    out = []
    for p in (1, 2, 3, 4, 5, 9, n):
        for out_at in (None, 0, n - 1):
            for nul in (0, 2, 3, 4, 10, n - 1):
                v = []
                for i in range(n):
                    k = (i * i * 3 + i * 7 + i // 5) % p
                    x = alpha[k] if k < len(alpha) else {"int": 11 * k, "int8": k % 128, "uint": k * k, "float": k / 8, "float32": k / 16, "special": k / 4, "str": "xy" * (k % 17) + "é" * (k // 17), "bool": k % 2 == 0}[kind]
                    if i == out_at and kind not in ("bool", "str"):
                        x = alpha[-1] * (1 if kind == "int8" else 3 if kind != "uint" else 1)
                    v.append(None if nul and (i % nul == nul - 1 if nul < n - 1 else i % n != 1) else x)
                out.append(tuple(v))
    return list(dict.fromkeys(out))


def col_cases(tier):
    hi = {"quick": 4, "thorough": 6}[tier]
    out = []
    for k, (_, a) in ALPHABETS.items():
        for n in range(1, hi + 1):
            tot = len(a) ** n
            out += [[k, n, lo] for lo in range(0, tot, 64)]
        for n in (7, 8, 11, 20, 41, 100, 257, 1000) if tier == "quick" else (*range(7, 42), 64, 99, 100, 101, 128, 256, 257, 1000, 3000):
            out += [[k, n, lo] for lo in (0, 64)]
    return out


def qrange(v, q):
    s = sorted(v)
    p = (len(s) - 1) * q
    lo, hi = math.floor(p), math.ceil(p)
    return {float(s[lo]), float(s[hi])} if abs(p - lo - 0.5) < 1e-9 else {float(s[round(p)])}


def near(g, w, tol=1e-9):
    if w is None or g is None:
        return g is None and w is None
    if w != w:
        return g != g
    return g == w or abs(g - w) <= tol * (1 + abs(w))


def names_report(rec, d, cols, n, fl):
    """The infer_* methods: columns chosen by name."""
    def one(what, got, want, order):
        rec.trans()
        rec.check(got[0] == "ok" and got[1] == [c for c in order if c in want], what, lambda: f"{got[1]} want {want}")

    order = list(cols)
    for th in (0.75, 0.5, 0.3, 0.0, 1.0):
        if abs(round(n * th) - n * th) > 1e-9 or th in (0.5, 0.75, 0.0, 1.0):
            one("high null", quiet(d.infer_high_null, th), {c for c, v in cols.items() if v.count(None) >= n * th}, order)
    one("high null|default", quiet(d.infer_high_null), {c for c, v in cols.items() if v.count(None) >= n * 0.75}, order)
    for inc in (False, True):
        for k in (1, 2, 3):
            want = {c for c, v in cols.items() if uniq(v) == k or inc and None in v and uniq(v) == k + 1}
            one(f"distinct {k}", quiet(d.infer_k_distinct, k, inc), want, order)
            if k == 1:
                one("const", quiet(d.infer_const, inc), want, order)
            if k == 2:
                one("binary", quiet(d.infer_binary, inc), want, order)
    first = [c for c in order if fl == "bool"]
    rest = [c for c in order if fl != "bool"]
    for th, mx in ((0.1, 100), (0.9, 2), (0.5, 1), (1.1, 1), (0.0, 3), (0.6, 3)):
        want = set(first) | {c for c in rest if uniq(cols[c]) < mx or uniq(cols[c]) < th * n}
        one("discrete", quiet(d.infer_discrete, th, mx), want, first + rest)
    prob = {c for c, v in cols.items() if fl in ("float", "float32", "special") and all(x is None or 0 <= x <= 1 for x in v)}
    one("prob", quiet(d.infer_prob), prob, order)


def col_run(case, rec):
    kind, n, lo = case
    every, dt = table(kind, n)
    if lo >= len(every):
        return
    cols = {f"c{i}": list(v) for i, v in enumerate(every[lo : lo + 64], lo)}
    df = pl.DataFrame(cols, schema={c: dt for c in cols})
    rec.state(len(cols))
    for frame in (df, df.lazy()):
        d = DIA(frame)
        if n == 1 or kind == "bool":
            m = d.meta()
            rec.check("_frame" not in m and (m["bools"] if kind == "bool" else m["strs"] if kind == "str" else m["numerics"]) == list(cols)
                      and m["floats"] == (list(cols) if dt in (pl.Float64, pl.Float32) else []) and m["ints"] == (list(cols) if dt.is_integer() else []), "meta", lambda: m)
        if frame is df or n <= 2:
            names_report(rec, d, cols, n, kind)
        if kind == "str":
            str_report(rec, d, cols, n)
        elif kind != "bool":
            num_report(rec, d, cols, n, kind)
    rec.outcome(kind)


def num_report(rec, d, cols, n, kind):
    rec.trans()
    got = d.special_values_report()
    want = []
    for c, v in cols.items():
        nul, nan, inf = v.count(None), sum(x != x for x in some(v)), sum(math.isinf(x) for x in some(v))
        want.append((c, nul, nul / n, nan, nan / n, inf, inf / n))
    rec.same(got.rows(), want, "special values", "")
    rec.check(got.columns == ["column", "null_count", "null%", "NaN_count", "NaN%", "inf_count", "Inf%"], "special values|names", lambda: got.columns)
    if kind == "special":
        return
    for bins, mult, hist in ((20, 1.5, True), (4, 0.25, True), (5, 0.0, False), (8, None, False)):
        rec.trans()
        got = d.numeric_profile(n_bins=bins, histogram=hist, gt=False, **({} if mult is None else {"iqr_multiplier": mult}))
        mult = 1.5 if mult is None else mult
        rec.check(got["column"].to_list() == list(cols) and ("histogram" in got.columns) == hist, "profile|columns", lambda: got.columns)
        for r, (c, v) in zip(got.rows(named=True), cols.items()):
            x = some(v)
            ctx = lambda: f"{kind} {v} bins {bins} multiplier {mult}: {r}"
            rec.check(r["non_null_cnt"] == len(x) and near(r["null%"], v.count(None) / n), "profile|nulls", ctx)
            if not x:
                rec.check(all(r[k] is None for k in ("mean", "std", "min", "q1", "median", "q3", "max", "IQR")) and r["outlier_cnt"] == 0, "profile|empty", ctx)
                continue
            m = math.fsum(x) / len(x)
            sd = math.sqrt(math.fsum((a - m) ** 2 for a in x) / (len(x) - 1)) if len(x) > 1 else None
            s = sorted(x)
            med = (s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2
            rec.check(near(r["mean"], m, 1e-6 if kind == "float32" else 1e-9) and near(r["std"], sd, 1e-6 if kind == "float32" else 1e-9) and r["min"] == min(x) and r["max"] == max(x) and abs(r["median"] - med) <= 0.00501, "profile|moments", ctx)
            rec.check(r["q1"] in qrange(x, 0.25) and r["q3"] in qrange(x, 0.75) and r["IQR"] == r["q3"] - r["q1"], "profile|quartiles", ctx)
            lo, hi = r["q1"] - mult * r["IQR"], r["q3"] + mult * r["IQR"]
            rec.check(r["outlier_cnt"] == sum(a < lo or a > hi for a in x), "profile|outliers", ctx)
            if hist and min(x) < max(x):
                z = [(a - min(x)) / (max(x) - min(x)) for a in x]
                if all(abs(a - (bins - 1) / bins) > 2e-5 for a in z) and (n <= 6 or all(abs(a * bins - round(a * bins)) > 1e-5 or a in (0, 1) for a in z)):
                    cnt = {}
                    for a in z:
                        b = sum(i / bins <= a for i in range(bins))
                        cnt[b] = cnt.get(b, 0) + 1
                    h = r["histogram"]
                    h = h["count"] if isinstance(h, dict) else h
                    # bins without values may be listed or not
                    rec.check([k for k in h if k] == [cnt[k] for k in sorted(cnt)] and len(h) <= bins, "profile|histogram", lambda: f"{ctx()} want {cnt}")


def str_report(rec, d, cols, n):
    rec.trans()
    got = d.str_stats()
    rec.check(got["column"].to_list() == list(cols), "strings|columns", lambda: got["column"].to_list())
    for r, (c, v) in zip(got.rows(named=True), cols.items()):
        x = some(v)
        b, ch = [len(a.encode()) for a in x], [len(a) for a in x]
        ctx = lambda: f"{v}: {r}"
        top = max(v.count(a) for a in v)
        rec.check(r["null_count"] == v.count(None) and r["n_unique"] == uniq(v) and r["most_freq_cnt"] == top and v.count(r["most_freq"]) == top, "strings|counts", ctx)
        if x:
            rec.check((r["min_byte_len"], r["min_char_len"], r["max_byte_len"], r["max_char_len"]) == (min(b), min(ch), max(b), max(ch)) and near(r["avg_byte_len"], sum(b) / len(b)) and near(r["avg_char_len"], sum(ch) / len(ch))
                      and r["5p_byte_len"] in qrange(b, 0.05) and r["95p_byte_len"] in qrange(b, 0.95), "strings|lengths", ctx)
        else:
            rec.check(r["min_byte_len"] is None and r["max_char_len"] is None and r["avg_byte_len"] is None, "strings|lengths of none", ctx)


# ---------------------------------------------------------------- list columns
def list_cases(tier):
    return [[n] for n in range(1, 4 if tier == "quick" else 5)]


def list_run(case, rec):
    n = case[0]
    for lo in (0,):
        every = list(product(LISTS, repeat=n))
        for lo in range(0, len(every), 49):
            cols = {f"l{i}": list(v) for i, v in enumerate(every[lo : lo + 49], lo)}
            for dt in (pl.List(pl.Float64), pl.List(pl.Float32)):
                rec.state(len(cols))
                rec.trans()
                df = pl.DataFrame(cols, schema={c: dt for c in cols})
                # claimed without nulls, and for columns that fail on a list that is there
                bad = lambda v: any(min(x) < 0 or abs(sum(x) - 1) > 1e-6 for x in some(v)) or len({len(x) for x in some(v)}) > 1
                want = [c for c, v in cols.items() if None not in v and not bad(v)]
                got = quiet(DIA(df).infer_prob)
                rec.check(got[0] == "ok" and [c for c in got[1] if None not in cols[c]] == want and not any(bad(cols[c]) for c in got[1]), "lists|prob", lambda: f"{got[1]}: {[cols[c] for c in got[1]] if got[0] == 'ok' else ''} want {want}")
                m = DIA(df).meta()
                rec.check(m["list_floats"] == list(cols) and m["simple_types"] == list(cols) and not m["other_types"], "lists|meta", lambda: m)
    df = pl.DataFrame({"a": [[1]], "b": [[True]], "c": [["x"]], "d": [[[1]]], "e": [{"k": 1}], "f": [1.5], "g": ["x"], "h": [True], "i": [2]}, schema_overrides={"a": pl.List(pl.Int16)})
    m = DIA(df).meta()
    rec.check((m["list_ints"], m["list_bool"], m["list_str"], m["other_types"], m["numerics"], m["simple_types"]) == (["a"], ["b"], ["c"], ["d", "e"], ["f", "i"], ["f", "i", "g", "h", "a", "b", "c"]), "lists|types", lambda: m)
    rec.outcome(n)


# ---------------------------------------------------------------- validation rules
def val_cases(tier):
    return [[n, r] for n, r in ([(1, 3), (2, 2), (3, 2), (2, 3)] if tier == "quick" else [(1, 3), (2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (1, 5)])]


def val_run(case, rec):
    n, nr = case
    names = ["zz", "rule b", "a"][:nr] if nr <= 3 else ["q", "zz", "rule b", "a", "m"]
    for flat in product((True, False, None), repeat=n * nr):
        rows = [flat[i * nr : (i + 1) * nr] for i in range(n)]
        df = pl.DataFrame({"id": [f"r{i}" for i in range(n)], **{f"v{j}": pl.Series([r[j] for r in rows], dtype=pl.Boolean) for j in range(nr)}})
        d = DIA(df if sum(map(bool, flat)) % 2 else df.lazy())
        rules = [(pl.col(f"v{j}"), nm) for j, nm in enumerate(names)]
        bad = [(i, [nm for nm, x in zip(names, r) if x is False]) for i, r in enumerate(rows) if False in r]
        rec.state()
        rec.trans(4)
        got = d.row_validation(*rules)
        rec.check(got.columns == ["__index__", "__reason__"] and got["__index__"].to_list() == [i for i, _ in bad] and all(g in w for g, (_, w) in zip(got["__reason__"].to_list(), bad)), "rows", lambda: f"{rows}: {got.rows()}")
        got = d.row_validation(*rules, id_col="id", columns_to_keep=["v0"])
        rec.check(got.columns == ["id", "v0", "__reason__"] and got["id"].to_list() == [f"r{i}" for i, _ in bad] and got["v0"].to_list() == [rows[i][0] for i, _ in bad], "rows|id", lambda: f"{rows}: {got.rows()}")
        got = d.row_validation(*rules, all_reasons=True)
        rec.same(got.rows(), [(i, sorted(w)) for i, w in bad], "rows|all reasons", rows)
        if n == 1:
            got = d.col_validation(*((pl.col(f"v{j}").first(), nm) for j, nm in enumerate(names)))
            rec.same(got.rows(), [(f"v{j}", nm) for j, nm in enumerate(names) if rows[0][j] is False], "columns", rows)
        else:
            got = d.col_validation(*((pl.col(f"v{j}").all(), nm) for j, nm in enumerate(names)))
            rec.same(got.rows(), [(f"v{j}", nm) for j, nm in enumerate(names) if any(r[j] is False for r in rows)], "columns", rows)
        # rules on one column, and rules on many columns at once
        cols = [f"v{j}" for j in range(nr)]
        some_ = [c for j, c in enumerate(cols) if any(r[j] is True for r in rows)]
        none_ = [c for j, c in enumerate(cols) if all(r[j] is not True for r in rows)]
        full = [c for j, c in enumerate(cols) if all(r[j] is not None for r in rows)]
        o = outcome_of(d.col_validation, (pl.col("v0").any(), "some"), (pl.col("v0").null_count() == 0, "full"), (pl.col(*cols).any().not_(), "none"))
        if rec.check(o[0] == "ok", "columns|shared refused", lambda: f"{rows}: {o}"):
            want = [("v0", "some")] * ("v0" in none_) + [("v0", "full")] * ("v0" not in full) + [(c, "none") for c in some_]
            rec.same(o[1].rows(), want, "columns|shared", rows)
            rec.check(o[1].columns == ["column", "__reason__"], "columns|names", lambda: o[1].columns)
    d = DIA(pl.DataFrame({"a": [1, 2]}))
    rec.check(outcome_of(d.row_validation, (pl.col("a") > 0, "x"), (pl.col("a") > 1, "x"))[0] == "err", "rows|duplicate names accepted", "")
    rec.check(outcome_of(d.col_validation, (pl.col("a") > 0, "x"))[0] == "err", "columns|row rule accepted", "")
    rec.outcome(case)


# ---------------------------------------------------------------- pairs of columns
def pearson(x, y):
    p = [(a, b) for a, b in zip(x, y) if a is not None and b is not None]
    if len(p) < 2:
        return None
    mx, my = sum(a for a, _ in p) / len(p), sum(b for _, b in p) / len(p)
    sxx, syy = sum((a - mx) ** 2 for a, _ in p), sum((b - my) ** 2 for _, b in p)
    if sxx < 1e-12 or syy < 1e-12:
        return None
    return sum((a - mx) * (b - my) for a, b in p) / math.sqrt(sxx * syy)


def entropy(keys):
    c = {}
    for k in keys:
        c[k] = c.get(k, 0) + 1
    return -sum(v / len(keys) * math.log(v / len(keys)) for v in c.values())


def pair_cases(tier):
    return [["null", n] for n in range(1, 5 if tier == "quick" else 7)] + [["dep", a, n] for n in range(2, 6 if tier == "quick" else 7) for a in range(2)] + [["corr", n] for n in range(1, 5 if tier == "quick" else 6)] + [["chain"], ["edge"]]


def pair_run(case, rec):
    if case[0] == "null":
        n = case[1]
        pats = list(product((1, None), repeat=n))
        for lo in range(0, len(pats), 8):
            group = pats[max(0, lo - 2) : lo + 8]
            df = pl.DataFrame({f"p{i}": list(v) for i, v in enumerate(group)}, schema={f"p{i}": pl.Int64 for i in range(len(group))}).with_columns(k=pl.int_range(pl.len()))
            for flt in (None, pl.col("k") > 0):
                rec.state()
                rec.trans(2)
                use = {c: [x is None for x in (df if flt is None else df.filter(flt))[c].to_list()] for c in df.columns}
                want = {(a, b): pearson(use[a], use[b]) for a, b in combinations(df.columns, 2) if 0 < sum(use[a]) < len(use[a]) and 0 < sum(use[b]) < len(use[b])}
                got = DIA(df).null_corr(filter_by=flt)
                rec.check({(a, b) for a, b, _ in got.rows()} == set(want) and len(got) == len(want) and all(near(r, want[a, b]) for a, b, r in got.rows()), "null correlation", lambda: f"{use}: {got.rows()} want {want}")
                rec.check([abs(r) for r in got["null_corr"]] == sorted((abs(r) for r in got["null_corr"]), reverse=True), "null correlation|order", lambda: got.rows())
                sub = df.columns[:3]
                got = DIA(df.lazy()).null_corr(sub, filter_by=flt)
                rec.check({(a, b) for a, b, _ in got.rows()} == {k for k in want if set(k) <= set(sub)}, "null correlation|subset", lambda: got.rows())
        return
    if case[0] == "corr":
        n = case[1]
        vals = (0, 1, 4) if n < 4 else (0, 3)
        for x in product(vals, repeat=n):
            for y in product(vals, repeat=n):
                b = [v > 0 for v in y]
                df = pl.DataFrame({"x": x, "s": ["q"] * n, "y": [float(v) for v in y], "b": b, "z": [i * i for i in range(n)]}, schema_overrides={"x": pl.Int32})
                use = {"x": x, "y": y, "z": [i * i for i in range(n)], "b": b}
                d = DIA(df)
                rec.state()
                rec.trans(3)
                got = d.corr(["y", "x"]).rows(named=True)
                ok = [r["column"] for r in got] == ["y", "x"] and all(list(r) == ["column", "x", "y", "z"] for r in got)
                ok = ok and all((w := pearson(use[r["column"]], use[c])) is None or near(r[c], w) for r in got for c in ("x", "y", "z"))
                rec.check(ok, "correlation", lambda: f"{use}: {got}")
                got = d.infer_corr().rows()
                ok = [(a, c) for a, c, _ in sorted(got)] == sorted(combinations(["x", "y", "z", "b"], 2)) and all((w := pearson(use[a], use[c])) is None or near(r, w) for a, c, r in got)
                rec.check(ok, "inferred correlation", lambda: f"{use}: {got}")
                fin = [abs(r) for _, _, r in got if r is not None and r == r]
                rec.check(fin == sorted(fin, reverse=True), "inferred correlation|order", lambda: got)
                for m in ("spearman", "kendall", "xi") if n > 2 else ():
                    # all pairs with the method: what corr of the two columns gives; the constant string column is left out
                    from polars_ds import corr as c2
                    got = d.infer_corr(m).rows()
                    num = df.with_columns(pl.col("b").cast(pl.UInt8))
                    rec.trans()
                    ok = [(a, c) for a, c, _ in sorted(got)] == sorted(combinations(["x", "y", "z", "b"], 2))
                    for a, c, r in got:
                        if m == "xi" and len(set(use[a])) < n:
                            continue  # ties of x are broken at random
                        w = num.select(c2(a, c, method=m)).item()
                        ok = ok and (w is None or r is not None and near(r, w))
                    rec.check(ok, f"inferred correlation|{m}", lambda: f"{use}: {got}")
                    fin = [abs(r) for _, _, r in got if r is not None and r == r]
                    rec.check(fin == sorted(fin, reverse=True), f"inferred correlation|order|{m}", lambda: got)
                if n > 2:
                    for m in ("spearman", "kendall", "xi"):
                        from polars_ds import corr as c2
                        w = df.select(c2("x", "y", method=m)).item()
                        if m == "xi" and len(set(x)) < n:
                            continue  # ties of x are broken at random
                        rec.check(near(d.corr("x", m)["y"][0], w) or w is None, f"correlation|{m}", lambda: f"{use}")
        return
    if case[0] == "dep":
        _, a, n = case
        for x in product((0, 1, 2), repeat=n - 1):
            if any(v > max(x[:i], default=0) + 1 for i, v in enumerate(x)):
                continue
            for y in product("uv" if n > 4 else "uvw", repeat=n):
                if a != (y[0] == "u"):
                    continue
                cols = {"x": [0, *x], "y": list(y), "b": [True, *(i % 2 == 0 for i in range(n - 1))], "f": [0.5 * i for i in range(n)]}
                dep_one(rec, cols)
        return
    if case[0] == "chain":
        for n in (6, 9, 12):
            dep_one(rec, {"p": [i for i in range(n)], "q": [i // 2 for i in range(n)], "r": [f"g{i // 4}" for i in range(n)], "s": [i % 3 for i in range(n)], "t": [(i // 2) % 3 for i in range(n)]})
            dep_one(rec, {"r": [f"g{i // 4}" for i in range(n)], "q": [i // 2 for i in range(n)], "p": [i for i in range(n)], "c": [1] * n, "u": [None if i < 3 else i // 3 for i in range(n)]})
        return
    # frames without a column of the kind looked at
    only = pl.DataFrame({"b": [True, False, True], "b2": [True, True, True]})
    rec.state()
    rec.trans(4)
    for what, got, want in (("prob", quiet(DIA(only).infer_prob), []), ("discrete", quiet(DIA(only).infer_discrete), ["b", "b2"])):
        rec.check(got == ("ok", want), f"none|{what}", lambda: f"{got}")
    mixed = DIA(pl.DataFrame({"i": [1, 2, 3], "b": [True, None, False], "f": [0.5, 0.5, 0.5], "s": ["a", "b", "c"]}))
    for th, mx, want in ((0.1, 100, "ibfs"), (0.1, 2, "bf"), (0.5, 1, "bf"), (0.1, 1, "b")):
        got = quiet(mixed.infer_discrete, th, mx)
        rec.check(got[0] == "ok" and sorted(got[1]) == sorted(want), "mixed|discrete", lambda: f"{th} {mx}: {got}")
    got = quiet(lambda: DIA(pl.DataFrame({"x": [1, 2], "s": ["a", "b"]})).infer_corr().rows())
    rec.check(got == ("ok", []), "none|inferred correlation", lambda: f"{got}")
    got = quiet(lambda: DIA(pl.DataFrame({"x": [1, 2], "f": [0.5, 0.6]})).infer_dependency().rows())
    rec.check(got == ("ok", []), "none|dependency", lambda: f"{got}")
    rec.check(outcome_of(DIA(only).infer_k_distinct, 0)[0] == "err", "distinct|0 accepted", "")


def dep_one(rec, cols):
    df = pl.DataFrame(cols)
    nu = {c: uniq(v) for c, v in cols.items()}
    valid = [c for c in cols if df[c].dtype != pl.Float64 and nu[c] > 1]
    rec.state()
    rec.trans(2)
    got = quiet(lambda: DIA(df).infer_dependency())
    if not rec.check(got[0] == "ok", "dependency", lambda: f"{cols}: {got}"):
        return
    rows = got[1].rows()
    want = {frozenset(p) for p in combinations(valid, 2)}
    ok = [frozenset((a, b)) for a, b, _ in rows] and {frozenset((a, b)) for a, b, _ in rows} == want or not want and not rows
    rec.check(bool(ok) and len(rows) == len(want), "dependency|pairs", lambda: f"{cols}: {rows}")
    for a, b, h in rows:
        w = entropy(list(zip(cols[a], cols[b]))) - entropy(cols[b])
        rec.check(nu[a] <= nu[b] and near(h, abs(w), 1e-9), "dependency|values", lambda: f"{cols}: {a} by {b}: {h} want {w}")
    hs = [h for *_, h in rows]
    rec.check(hs == sorted(hs), "dependency|order", lambda: rows)
    # a subset of the columns: the pairs of it
    names = list(cols)
    for sub in (names[1:], names[:3], names[::2]):
        rec.trans()
        use = [c for c in valid if c in sub]
        got = quiet(lambda: DIA(df).infer_dependency(sub if len(sub) % 2 else pl.col(sub)))
        want = {frozenset((a, b)): h for a, b, h in rows if a in use and b in use}
        rec.check(got[0] == "ok" and len(got[1]) == len(want) and all(near(h, want.get(frozenset((a, b)), -1), 1e-9) for a, b, h in got[1].rows()), "dependency|subset", lambda: f"{cols} {sub}: {got} want {want}")
    graph(rec, df, cols, {(b, a) for a, b, h in rows if h < 0.01}, {})
    graph(rec, df, cols, {(b, a) for a, b, h in rows if h < 0.01 and "f" not in (a, b) and names[0] not in (a, b)}, {"subset": names[1:]})
    # other thresholds: the same rule on what is below them, as long as that is transitive
    for th in (0.0, 0.3, 0.7, 5.0):
        dep = {(b, a) for a, b, h in rows if h < th}
        if all((a, c) in dep for a, b in dep for b2, c in dep if b == b2) and all(abs(h - th) > 1e-9 for *_, h in rows):
            graph(rec, df, cols, dep, {"threshold": th})


def graph(rec, df, cols, dep, kw):
    """an edge per dependency, those implied by others left out"""
    edges = {(p, c) for p, c in dep if not any((p, q) in dep and (q, c) in dep for q in cols)}
    rec.trans()
    g = quiet(lambda: DIA(df).plot_dependency(**kw))
    if not rec.check(g[0] == "ok", "graph", lambda: f"{kw}: {g}"):
        return
    found = []
    for line in g[1].body:
        if "->" in line:
            found.append(tuple(t.strip().strip('"') for t in line.split("->")))
    rec.check(len(found) == len(set(found)) and set(found) == edges, "graph|edges", lambda: f"{cols} {kw}: {found} want {edges}, dependencies {dep}")


FAMILIES = [
    Family("columns", col_cases, col_run, "every column of up to 4 (6) values of 3 or 4 incl. null, and about 90 (each) of 8 lengths to 1000 (45 to 3000), in 8 types (narrow integers at their ends, NaN and infinity): special values, numeric profile x 3 settings, string statistics, and all inferences of high null, constant, binary, k distinct, discrete and probability columns x thresholds"),
    Family("lists", list_cases, list_run, "every list column of up to 3 (4) of 8 lists in two types: class probabilities; classification of column types"),
    Family("validation", val_cases, val_run, "every outcome (true, false, null) of 2 or 3 (5) rules on up to 3 (4) rows: row reports with one and all reasons, column reports with one rule per column, rules sharing a column and rules over all columns"),
    Family("pairs", pair_cases, pair_run, "every set of null patterns of up to 4 (6) rows; every pair of columns of up to 4 (5) of 2 or 3 values: correlations; every pair of groupings of up to 5 (6) rows: dependencies and their graph"),
]
