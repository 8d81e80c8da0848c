"""P05: parallel=True returns what parallel=False returns."""
import numpy as np
import polars as pl
from polars_ds.spatial import KDTree

from ..catalog import ITEMS, frame
from ..clouds import METRICS, dist_matrix, pattern
from ..core import Family, outcome_of

PAR = [n for n, i in ITEMS.items() if i.par]
THREADS = (1, 2, 3, 4, 8)
NULLABLE = {"x": 5, "y": 7, "a": 4, "b": 5}


def lengths(tier):
    return [*range(0, 72), 100, 129, 255, 256, 257, 513, 1025, 2050] if tier == "quick" else [*range(0, 300), 511, 512, 513, 1023, 1024, 1025, 2050, 5000]


def with_nulls(df):
    n = df.height
    return df.with_columns(
        pl.when(pl.Series([i % k == k - 2 for i in range(n)], dtype=pl.Boolean)).then(None).otherwise(pl.col(c)).alias(c)
        for c, k in NULLABLE.items())


def value(df, e, unordered):
    o = outcome_of(lambda: df.select(e.alias("o"))["o"])
    if o[0] != "ok":
        return o[0], None
    v = o[1].to_list()
    return "ok", (sorted(v, key=repr) if unordered else v)


def compare(it, df, rec, key, ctx):
    a, b = it.make(parallel=False), it.make(parallel=True)
    s, p = value(df, a, it.unordered), value(df, b, it.unordered)
    rec.trans(2)
    rec.state()
    rec.same(p, s, key, ctx, rtol=1e-9, atol=1e-9)
    rec.outcome((s[0],))


def len_cases(tier):
    for name in PAR:
        for n in lengths(tier):
            if n == 0 or n >= ITEMS[name].min_n:
                yield [name, n]


def run_len(case, rec):
    name, n = case
    it = ITEMS[name]
    df = frame(n)
    compare(it, df, rec, f"{name}|plain", f"{name} n={n}")
    if n:
        compare(it, with_nulls(df), rec, f"{name}|nulls", f"{name} n={n} nulls")


# quadratic, or nearly, in the rows of this frame
SLOW = ("radius", "nb_cnt", "approx", "sample_entropy")


def long_cases(tier):
    for name in PAR:
        for n in (6000, 40000 if any(s in name for s in SLOW) else 70001):
            if n == 6000 or n > 100000 or tier != "quick":
                yield [name, n]


def chunk_cases(tier):
    for name in PAR:
        n = max(9, ITEMS[name].min_n + 2) if tier == "quick" else 14
        for c1 in range(0, n):
            yield [name, n, c1]


def run_chunk(case, rec):
    """The columns of one frame are split at different places (0: one chunk)."""
    name, n, c1 = case
    it = ITEMS[name]
    df = frame(n, 2)

    def cut(s, c):
        return s if c == 0 else s[:c].append(s[c:])

    want = value(df, it.make(parallel=False), it.unordered)
    for c2 in range(0, n):
        d2 = pl.DataFrame([cut(s.clone(), c1 if k % 2 == 0 else c2) for k, s in enumerate(df)])
        got = value(d2, it.make(parallel=True), it.unordered)
        rec.trans()
        rec.state()
        rec.same(got, want, f"{name}|chunks", f"{name} n={n} columns cut at {c1} / {c2}", rtol=1e-9, atol=1e-9)


# ---------------------------------------------------------------- the tree class
def tree_cases(tier):
    sizes = [*range(1, 37), 47, 48, 49, 64, 100, 257, 1025] if tier == "quick" else [*range(1, 140), 255, 256, 257, 513, 1025, 3000]
    return [[q, d] for q in sizes for d in (1, 2, 5)]


def tree_run(case, rec):
    """Every query of KDTree, in parallel and not, on trees built at once and grown."""
    q, d = case
    for grown in (False, True):
        P, Q = pattern("mix", 60, d), np.ascontiguousarray(pattern("mix", q + 3, d)[3:] * 0.75 + 0.5)
        for m in METRICS:
            t = KDTree(P[:20] if grown else P, distance=m)
            if grown:
                t.add(P[20:45]).add(P[45:])
            D = dist_matrix(Q, P, m)
            med = float(np.median(D))
            row = np.array([med * (i % 4) / 2 for i in range(q)])
            calls = {}
            for k in (1, 3, 61):
                for bound in (1e9, med):
                    for eps in (0.0, 0.5):
                        calls[f"knn k={k} bound={bound} eps={eps}"] = lambda par, k=k, bound=bound, eps=eps: [v.tolist() for v in t.knn(Q, k, epsilon=eps, max_dist_bound=bound, parallel=par)]
            for r in (med, row) if q > 1 else (med,):
                tag = "scalar" if r is med else "by row"
                calls[f"count {tag}"] = lambda par, r=r: t.within_count(Q, r, parallel=par).tolist()
                for sort in (False, True):
                    for dist in (False, True):
                        calls[f"within {tag} {sort} {dist}"] = lambda par, r=r, sort=sort, dist=dist: t.within(Q, r, sort=sort, return_dist=dist, parallel=par)
            for k, f in calls.items():
                rec.state()
                rec.trans(2)
                a, b = outcome_of(f, False), outcome_of(f, True)
                rec.check(a == b, f"tree|{k.split('=')[0]}", lambda: f"{case} grown={grown} {m} {k}: parallel {str(b)[:200]} not {str(a)[:200]}")
                rec.outcome((k, a[0]))


FAMILIES = [
    Family("lengths", len_cases, run_len,
           f"{len(PAR)} expressions taking parallel= x lengths 0..71, 100, 129, 255..257 (thorough: 0..299, 511..513, 1023..1025) x "
           "with and without nulls x thread pools of 1, 2, 3, 4 and 8", threads=THREADS),
    Family("long", long_cases, run_len, "the same expressions on 6,000 rows and, those of linear cost, on 70,001; thread pools of 3 and 8", threads=(3, 8)),
    Family("chunks", chunk_cases, run_chunk,
           "the same expressions, n = 9 (thorough 14) rows, alternating columns cut into two chunks at every pair of positions; "
           "thread pools of 1, 3, 8", threads=(1, 3, 8)),
    Family("tree class", tree_cases, tree_run, "every query method of KDTree x 1 to 36, 47..49, 64, 100, 257, 1025 (139, 255..257, 513, 1025, 3000) query rows x 3 dimensions x 4 metrics x built at once and grown x "
           "thread pools of 1, 3, 8", threads=(1, 3, 8)),
]
