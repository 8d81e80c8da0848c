"""P06: what an expression returns depends on the rows it is given, not on how or where it is evaluated."""
from itertools import product

import polars as pl

from ..catalog import HEAVY, ITEMS, frame
from ..core import Family, outcome_of

NAMES = list(ITEMS)
TOL = dict(rtol=1e-7, atol=1e-7)


def canon(v, it):
    if it.name in ("knn_freq", "radius_freq"):  # value_counts names its field after a series, not the expression
        v = [tuple(x.values()) if isinstance(x, dict) else x for x in v]
    return sorted(v, key=repr) if it.unordered else v


def rows_of(it):
    return max(it.min_n + 1, 7)


def value(df, it, rec=None):
    if rec is not None:
        rec.trans()
    o = outcome_of(lambda: df.select(it.make().alias("o")))
    if o[0] == "ok":
        return "ok", canon(o[1]["o"].to_list(), it)
    return o


def compositions(n, tier):
    """Chunk layouts: every composition of n up to 7 (9) rows, else every layout of at most 3 chunks."""
    if n <= (7 if tier == "quick" else 9):
        for bits in range(1, 2 ** (n - 1)):
            yield [i + 1 for i in range(n - 1) if bits >> i & 1]
    else:
        for a in range(1, n):
            yield [a]
            for b in range(a + 1, n):
                yield [a, b]


def rechunk(df, cuts):
    e = [0, *cuts, df.height]
    return pl.concat([df[i:j] for i, j in zip(e, e[1:])], rechunk=False)


def layout_cases(tier):
    for name in NAMES:
        if not ITEMS[name].seed:
            for salt in (1, 2) if tier == "quick" else (1, 2, 3, 4):
                yield [name, salt, tier]


def run_layout(case, rec):
    name, salt, tier = case
    it = ITEMS[name]
    n = rows_of(it)
    df = frame(n, salt)
    want = value(df, it)
    if not rec.check(want[0] == "ok", f"{name}|base", f"{name} n={n}: {want}"):
        return
    rec.outcome(name)
    big = pl.concat([frame(3, salt + 7), df, frame(4, salt + 8)])
    rec.state(2)
    for d, tag in ((big.slice(3, n), "slice"), (big.filter(pl.int_range(pl.len()).is_between(3, n + 2)), "filter")):
        rec.same(value(d, it, rec), want, f"{name}|{tag}", f"{name} n={n} {tag}", **TOL)
    if it.kind == "elem":
        rec.state(n)
        rows = [value(df[i:i + 1], it, rec) for i in range(n)]
        rec.same([r[1] if r[0] != "ok" else r[1][0] for r in rows], want[1], f"{name}|rows", f"{name} row by row", **TOL)
    seen = rechunk(df, [2, 4])
    assert seen.n_chunks() == 3, seen.n_chunks()
    for cuts in compositions(n, tier):
        rec.state()
        rec.same(value(rechunk(df, cuts), it, rec), want, f"{name}|chunks", f"{name} n={n} cut at {cuts}", **TOL)


def lazy_cases(tier):
    for name in NAMES:
        yield [name]


def run_lazy(case, rec):
    """The optimizer may move filters, slices and projections past expressions only where nothing changes."""
    (name,) = case
    it = ITEMS[name]
    n = rows_of(it) + 2
    df = frame(n, 3)
    want = value(df, it)
    if not rec.check(want[0] == "ok", f"{name}|base", f"{name} n={n}: {want}"):
        return
    e = it.make().alias("o")

    def lazy(tag, lf, exp):
        rec.state()
        rec.trans()
        got = outcome_of(lambda: lf.collect())
        got = ("ok", canon(got[1]["o"].to_list(), it)) if got[0] == "ok" else got
        rec.same(got, ("ok", canon(exp, it)), f"{name}|{tag}", f"{name} n={n} {tag}", **TOL)

    w = want[1]
    rec.trans()
    got = outcome_of(lambda: df.lazy().select(e).collect(engine="streaming"))
    got = ("ok", canon(got[1]["o"].to_list(), it)) if got[0] == "ok" else got
    rec.same(got, ("ok", canon(w, it)), f"{name}|streaming", f"{name} n={n} streaming", **TOL)
    lazy("lazy", df.lazy().select(e), w)
    lazy("twice", df.lazy().select(e, it.make().alias("o2")), w)
    if it.kind in ("elem", "vec"):
        lazy("with_columns", df.lazy().with_columns(e), w)
        for k in range(3):
            keep = [i % 3 == k for i in range(n)]
            exp = [v for v, q in zip(w, keep) if q]
            lazy("filter-after", df.lazy().with_columns(e).filter(pl.col("id") % 3 == k).select("o"), exp)
            d2 = df.filter(pl.Series(keep))
            sub = value(d2, it)
            if d2.height >= it.min_n and sub[0] == "ok" and not it.seed:
                lazy("filter-before", df.lazy().filter(pl.col("id") % 3 == k).with_columns(e).select("o"), sub[1])
        for off, ln in ((0, 3), (2, 3), (n - 2, 2)):
            lazy("slice-after", df.lazy().with_columns(e).slice(off, ln).select("o"), w[off:off + ln])
        lazy("reverse-after", df.lazy().with_columns(e).reverse().select("o"), w[::-1])
    elif it.kind == "agg" and not it.seed:
        lazy("with_columns", df.lazy().with_columns(e).select("o"), w * n)


def group_cases(tier):
    for name in NAMES:
        if not ITEMS[name].nogroup and not ITEMS[name].seed:
            yield [name, 4 if tier == "quick" else 6]


def run_group(case, rec):
    """Two groups with enough rows each, and every assignment of `free` further rows to them."""
    name, free = case
    it = ITEMS[name]
    m = max(it.min_n, 2)
    n = 2 * m + free
    df = frame(n, 4)
    for bits in product((0, 1), repeat=free):
        rec.state()
        pos, g = 0, []
        for i in range(n):  # the free rows are spread out
            if i % 2 == 1 and pos < free and i >= 3 and len(g) < n:
                g.append(bits[pos])
                pos += 1
            else:
                g.append(None)
        g += []
        while pos < free:
            k = max(i for i in range(n) if g[i] is None)
            g[k] = bits[pos]
            pos += 1
        t = 0
        for i in range(n):
            if g[i] is None:
                g[i] = t % 2
                t += 1
        d = df.with_columns(pl.Series("g", g, dtype=pl.Int64))
        want = {}
        ok = True
        for v in (0, 1):
            r = value(d.filter(pl.col("g") == v), it)
            ok &= rec.check(r[0] == "ok", f"{name}|base", f"{name} group rows {g}: {r}")
            want[v] = r[1]
        if not ok:
            return
        rec.trans(2)
        got = outcome_of(lambda: dict(d.group_by("g").agg(it.make().alias("o")).select("g", "o").iter_rows()))
        if rec.check(got[0] == "ok", f"{name}|group_by", f"{name} groups {g}: {got}"):
            for v in (0, 1):
                x = got[1][v]
                if it.kind != "agg":
                    x = canon(x if isinstance(x, list) else [x], it)
                    rec.same(x, want[v], f"{name}|group_by", f"{name} groups {g}, group {v}", **TOL)
                else:
                    rec.same(x, want[v][0], f"{name}|group_by", f"{name} groups {g}, group {v}", **TOL)
        if it.kind != "list":
            got = outcome_of(lambda: d.select(it.make().over("g").alias("o"))["o"].to_list())
            if rec.check(got[0] == "ok", f"{name}|over", f"{name} groups {g}: {got}"):
                c = {0: 0, 1: 0}
                exp = []
                for v in g:
                    exp.append(want[v][0] if it.kind == "agg" else want[v][c[v]])
                    c[v] += 1
                rec.same(got[1], exp, f"{name}|over", f"{name} groups {g}", **TOL)


def context_cases(tier):
    for name in NAMES:
        if not ITEMS[name].seed:
            for salt in (5,) if tier == "quick" else (5, 6, 7):
                yield [name, salt]


def run_context(case, rec):
    """Parts of larger queries: windows, branches, predicates, keys, nested in other expressions."""
    name, salt = case
    it = ITEMS[name]
    w = max(it.min_n + 1, 4)
    n = 3 * w
    df = frame(n, salt).with_columns(i=pl.int_range(n), one=pl.lit(1), g3=pl.Series([0, 2, 1] * w))
    make = lambda: it.make().alias("o")
    base = value(df, it)
    if not rec.check(base[0] == "ok", f"{name}|base", f"{name} n={n}: {base}"):
        return
    full = outcome_of(lambda: df.select(make())["o"])[1]
    rec.outcome(name)

    def part(rows):
        """The rows of the result on some of the rows, as a group of them gives it; None where it is an error."""
        r = value(df[rows], it)
        return (r[1][0] if it.kind == "agg" else r[1]) if r[0] == "ok" else None

    def same(tag, q, want):
        rec.state()
        rec.trans()
        got = outcome_of(q)
        if got[0] == "ok":
            got = "ok", [canon(v, it) if isinstance(v, list) and it.kind != "agg" and tag in GROUPED else v for v in got[1]] if tag in GROUPED else canon(got[1], it)
        rec.same(got, ("ok", want), f"{name}|{tag}", f"{name} n={n} {tag}", **TOL)

    if not it.nogroup:
        for tag, windows, q in (
            ("rolling", [list(range(max(0, i - w + 1), i + 1)) for i in range(n)], lambda lf: lf.rolling("i", period=f"{w}i").agg(make())),
            ("dynamic", [list(range(i, min(n, i + w))) for i in range(0, n, w)], lambda lf: lf.group_by_dynamic("i", every=f"{w}i").agg(make())),
            ("overlapping", [list(range(i, min(n, i + 2 * w))) for i in range(0, n, w)], lambda lf: lf.group_by_dynamic("i", every=f"{w}i", period=f"{2 * w}i").agg(make())),
            ("three groups", [list(range(k, n, 3)) for k in range(3)], lambda lf: lf.group_by("g3", maintain_order=True).agg(make())),
            ("two keys", [list(range(k, n, 3)) for k in range(3)], lambda lf: lf.group_by("g3", "one", maintain_order=True).agg(make())),
            ("one group", [list(range(n))], lambda lf: lf.group_by("one").agg(make())),
        ):
            want = [part(r) for r in windows]
            if any(v is None for v in want):
                continue
            for lf in (df, df.lazy()):
                same(tag, lambda: q(lf).lazy().collect()["o"].to_list(), want)
        if it.kind in ("elem", "vec", "agg"):
            for tag, kw, key in (("over ordered", dict(order_by="i", descending=True), lambda i: -i), ("over by id", dict(order_by="i"), lambda i: i)):
                want = [None] * n
                for k in range(3):
                    rows = sorted(range(k, n, 3), key=key)
                    r = part(rows)
                    if r is None:
                        want = None
                        break
                    for j, i in enumerate(rows):
                        want[i] = r if it.kind == "agg" else r[j]
                if want is not None and not it.unordered:
                    same(tag, lambda: df.select(make().over("g3", **kw))["o"].to_list(), want)
    W = full.to_list()
    if it.kind in ("elem", "vec") and not it.unordered:
        pick = [i % 3 == 1 for i in range(n)]
        same("then", lambda: df.select(o=pl.when(pl.col("i") % 3 == 1).then(it.make()))["o"].to_list(), [v if k else None for v, k in zip(W, pick)])
        same("otherwise", lambda: df.lazy().select(o=pl.when(pl.col("i") % 3 == 1).then(None).otherwise(it.make())).collect()["o"].to_list(), [None if k else v for v, k in zip(W, pick)])
        same("struct", lambda: df.select(o=pl.struct(make(), "i").struct.field("o"))["o"].to_list(), W)
        same("reverse", lambda: df.select(it.make().reverse().alias("o"))["o"].to_list(), W[::-1])
        same("shift", lambda: df.lazy().with_columns(it.make().shift(1).alias("o")).collect()["o"].to_list(), [None] + W[:-1])
        same("filter", lambda: df.lazy().select(it.make().filter(pl.col("i") % 3 == 1).alias("o")).collect()["o"].to_list(), [v for v, k in zip(W, pick) if k])
        same("head", lambda: df.lazy().select(it.make().alias("o")).head(2).collect()["o"].to_list(), W[:2])
        same("tail", lambda: df.lazy().with_columns(it.make().alias("o")).tail(2).select("o").collect()["o"].to_list(), W[-2:])
        same("sort by", lambda: df.lazy().select(it.make().sort_by(-pl.col("i")).alias("o")).collect()["o"].to_list(), W[::-1])
        same("predicate", lambda: df.lazy().filter(it.make().is_not_null()).select("i").collect()["i"].to_list(), [i for i, v in enumerate(W) if v is not None])
        same("predicate after", lambda: df.lazy().with_columns(make()).filter(pl.col("o").is_not_null(), pl.col("i") > 1).select("o").collect()["o"].to_list(), [v for i, v in enumerate(W) if v is not None and i > 1])
        same("union", lambda: pl.concat([df.lazy().select(make()), df.lazy().select(make())]).collect()["o"].to_list(), W + W)
        same("null", lambda: df.lazy().select(it.make().is_null().sum().alias("o")).collect()["o"].to_list(), [sum(v is None for v in W)])
        same("list", lambda: df.select(it.make().implode().alias("o"))["o"].to_list()[0], W)
    elif it.kind == "agg":
        same("then", lambda: df.select(o=pl.when(pl.col("i") % 3 == 1).then(it.make()))["o"].to_list(), [W[0] if i % 3 == 1 else None for i in range(n)])
        same("predicate", lambda: df.lazy().filter(it.make().is_not_null()).select("i").collect()["i"].to_list(), list(range(n)) if W[0] is not None else [])
        same("struct", lambda: df.select(o=pl.struct(make()).struct.field("o"))["o"].to_list(), W)
        same("list", lambda: df.select(pl.concat_list(it.make()).alias("o"))["o"].to_list()[0] if not isinstance(W[0], (dict, list)) else W, W)
        same("sequential", lambda: df.lazy().select_seq(make()).collect()["o"].to_list(), W)
    else:
        same("list", lambda: df.select(it.make().implode().alias("o"))["o"].to_list()[0], base[1])
        same("len", lambda: df.lazy().select(it.make().len().alias("o")).collect()["o"].to_list(), [len(W)])
    same("subset", lambda: df.lazy().with_columns(extra=pl.col("i") + 1).select(make(), pl.col("extra").max().alias("m") if it.kind == "agg" else it.make().alias("o2")).select("o").collect()["o"].to_list(), base[1])
    same("cache", lambda: df.lazy().cache().select(make()).collect()["o"].to_list(), base[1])


GROUPED = ("rolling", "dynamic", "overlapping", "three groups", "two keys", "one group")


# ---------------------------------------------------------------- long tables
def long_cases(tier):
    for name in NAMES:
        for n in (300, 1500) if tier == "quick" else (300, 513, 1025, 1500, 3001):
            if not ITEMS[name].seed:
                yield [name, n if name not in ("product", "combinations") else n // 10]  # of quadratic length
    for name in NAMES:
        if name not in HEAVY and not ITEMS[name].seed:
            yield [name, 70001]


def run_long(case, rec):
    """Tables of hundreds and thousands of rows: cut in few and many places, sliced, in groups, over groups, lazily."""
    name, n = case
    it = ITEMS[name]
    df = frame(n, 6)
    want = value(df, it, rec)
    if not rec.check(want[0] == "ok", f"{name}|base", f"{name} n={n}: {want}"):
        return
    rec.outcome((name, n))
    for cuts in ([1], [n - 1], [n // 2], [7, 128, n // 2 + 1], list(range(100, n, 100)), list(range(1, n, 37))) if n < 5000 else ([7, 65536], list(range(997, n, 997))):
        cuts = sorted({c for c in cuts if 0 < c < n})
        rec.state()
        rec.same(value(rechunk(df, cuts), it, rec), want, f"{name}|chunks", f"{name} n={n} cut at {cuts}", **TOL)
    big = pl.concat([frame(130, 8), df, frame(67, 9)])
    lazy = outcome_of(lambda: big.lazy().slice(130, n).select(it.make().alias("o")).collect()["o"].to_list())
    rec.trans()
    if rec.check(lazy[0] == "ok", f"{name}|slice", f"{name} n={n}: {lazy}"):
        rec.same(canon(lazy[1], it), want[1], f"{name}|slice", f"{name} n={n}, a slice of a longer table", **TOL)
    if it.kind == "elem":
        h = n // 2 + 3
        parts = [value(df[a:b], it, rec) for a, b in ((0, h), (h, n))]
        if all(p[0] == "ok" for p in parts):
            rec.same(parts[0][1] + parts[1][1], want[1], f"{name}|halves", f"{name} n={n} in two parts", **TOL)
    if it.nogroup:
        return
    # three groups: a long run, one in between, and every fifth row
    d = df.with_columns(g=pl.Series([2 if i % 5 == 3 else int(i > n // 3) for i in range(n)]))
    ref = {v: value(d.filter(pl.col("g") == v), it, rec) for v in (0, 1, 2)}
    if not rec.check(all(r[0] == "ok" for r in ref.values()), f"{name}|base", lambda: f"{name} n={n} groups: {[r[0] for r in ref.values()]}"):
        return
    rec.trans(2)
    rec.state(2)
    got = outcome_of(lambda: dict(d.group_by("g").agg(it.make().alias("o")).select("g", "o").iter_rows()))
    if rec.check(got[0] == "ok", f"{name}|group_by", f"{name} n={n}: {got}"):
        for v in (0, 1, 2):
            x = got[1][v]
            x = [x] if it.kind == "agg" else canon(x if isinstance(x, list) else [x], it)
            rec.same(x, ref[v][1], f"{name}|group_by", f"{name} n={n}, group {v}", **TOL)
    if it.kind != "list":
        got = outcome_of(lambda: d.select(it.make().over("g").alias("o"))["o"].to_list())
        if rec.check(got[0] == "ok", f"{name}|over", f"{name} n={n}: {got}"):
            at = {v: 0 for v in ref}
            exp = []
            for v in d["g"]:
                exp.append(ref[v][1][0 if it.kind == "agg" else at[v]])
                at[v] += 1
            rec.same(got[1], exp, f"{name}|over", f"{name} n={n}", **TOL)


FAMILIES = [
    Family("layout", layout_cases, run_layout,
           f"{len(NAMES)} expressions x 2 (4) tables x every chunk layout (all compositions of up to 7 (9) rows; at most three chunks "
           "for expressions that need more rows), a slice and a filter of a larger table"),
    Family("lazy", lazy_cases, run_lazy,
           "every expression in lazy select/with_columns, with filters, slices and reversal before and after it", threads=(1, 4)),
    Family("groups", group_cases, run_group,
           "every expression in group_by().agg and over: two groups, all assignments of 4 (6) further rows to the groups", threads=(1, 4)),
    Family("contexts", context_cases, run_context,
           "every expression x 1 (3) tables in rolling and dynamic windows, groups by one and two keys, ordered over, branches of when, structs, predicates, slices, sorts, shifts, unions, caches, eager and lazy"),
    Family("long", long_cases, run_long,
           "every expression on tables of 300, 1500 (to 3001) and 70,001 rows, cut at one place to every 37 rows, sliced, in two parts, in and over three groups"),
]
