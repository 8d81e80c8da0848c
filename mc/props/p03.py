"""P03: a KDTree grown by any history of additions answers as a tree built from scratch."""
from itertools import product

import numpy as np
from polars_ds.spatial import KDTree

from ..clouds import METRICS, check_knn, check_within, dist_matrix, pattern
from ..core import Family, outcome_of


def block(name, d, step):
    if name == "dup":  # one point that is already there
        return np.full((1, d), 3.0)
    if name == "far":  # outside of every box so far
        return np.full((1, d), 50.0 + 20 * step) * np.where(np.arange(d) % 2 == 0, 1, -1)
    if name == "in":  # inside of the box
        return np.arange(d, dtype=float)[None] % 3 + 1 + step
    if name == "line":
        return pattern("line", 5, d) + step
    if name == "burst":  # enough to split a leaf several times
        return pattern("mix", 23, d) + 4 * step
    if name == "same12":
        return np.full((12, d), 2.0)
    raise KeyError(name)


BLOCKS = ("dup", "far", "in", "line", "burst", "same12")
BAD = ("baddim", "bad1d", "empty", "fortran")
INIT = [("same", 1), ("mix", 1), ("line", 10), ("mix", 11), ("grid", 25), ("same", 12)]


def observe(t, P, m, rec, ctx, full):
    d = P.shape[1]
    rec.same(len(t), len(P), f"len|{m}", ctx)
    rec.same(t.count(), len(P), f"count|{m}", ctx)
    lo, hi = P.min(0), P.max(0)
    Q = np.ascontiguousarray(np.array([P[0], P[-1], (lo + hi) / 2, lo - 2, hi + 1.5, np.full(d, 3.0)]))
    D = dist_matrix(Q, P, m)
    for k in (1, 4, len(P) + 1) if full else (4,):
        dd, ii = t.knn(Q, k, max_dist_bound=1e9)
        rec.trans()
        check_knn(rec, f"knn|{m}", f"{ctx} k={k}", dd, ii, D, k, 1e9)
    r = max(1.0, float(np.ceil(np.median(D)))) + (0.5 if m == "l2" else 0)
    check_within(rec, f"within|{m}", ctx, t.within(Q, r, sort=True), D, r, True, False)
    rec.same([int(v) for v in t.within_count(Q, r)], (D <= r).sum(1).tolist(), f"within_count|{m}", ctx)
    rec.trans(2)


def hist_cases(tier):
    depth = 3 if tier == "quick" else 4
    for i in range(len(INIT)):
        for d in (1, 2, 5) if tier == "quick" else (1, 2, 5, 10, 16):
            for m in METRICS:
                for first in BLOCKS:
                    yield [i, d, m, first, depth]


def run_hist(case, rec):
    i, d, m, first, depth = case
    P0 = pattern(*INIT[i], d)

    def go(hist, P):
        """Replays the history on a fresh tree (no undo exists), observing after the last step."""
        t = KDTree(P0.copy(), distance=m)
        cur = P0
        for s, b in enumerate(hist):
            X = block(b, d, s)
            keep = X.copy()
            t.add(X)
            rec.trans()
            X[:] = -777.0  # the tree copies: later changes of the caller's array are not seen
            cur = np.vstack([cur, keep])
        rec.state()
        rec.outcome((len(cur), tuple(hist)))
        observe(t, cur, m, rec, f"init={INIT[i]} d={d} {m} hist={hist}", len(hist) == depth)
        if len(hist) < depth:
            for b in BLOCKS:
                go(hist + [b], cur)

    go([first], P0)


# queries between the additions do not change anything, and rejected additions leave the tree as it was
def mix_cases(tier):
    ops = ("q", "far", "burst", "in") + BAD
    for h in product(ops, repeat=3 if tier == "quick" else 4):
        yield [list(h)]


def run_mix(case, rec):
    (hist,) = case
    for d, m in ((2, "l1"), (3, "sql2")):
        P = pattern("mix", 11, d)
        t = KDTree(P, distance=m)
        rec.state()
        for s, o in enumerate(hist):
            rec.trans()
            if o == "q":
                observe(t, P, m, rec, f"d={d} {m} {hist} at {s}", True)
            elif o in BAD:
                X = {"baddim": np.zeros((2, d + 1)), "bad1d": np.zeros(d), "empty": np.zeros((0, d)),
                     "fortran": np.asfortranarray(pattern("mix", 4, d) + 1)}[o]
                st, _ = outcome_of(t.add, X)
                rec.outcome((o, st))
                rec.check(st in ("ok", "err"), f"panic|{o}", f"add({o}) panicked")
                if o == "fortran" and st == "ok":
                    P = np.vstack([P, X])
                elif o != "empty":
                    rec.check(st == "err", f"accepted|{o}", f"add of a {o} array was accepted")
            else:
                X = block(o, d, s)
                t.add(X)
                P = np.vstack([P, X])
        observe(t, P, m, rec, f"d={d} {m} {hist} end", True)


# building from copies of any memory layout
def layout_cases(tier):
    for p in ("mix", "grid", "wide"):
        for n in (1, 7, 12, 40):
            for d in (1, 2, 5, 16):
                yield [p, n, d]


def run_layout(case, rec):
    import warnings
    warnings.simplefilter("ignore")
    p, n, d = case
    P = pattern(p, n, d)
    for name, X in (("c", P.copy()), ("f", np.asfortranarray(P)), ("strided", np.repeat(P, 2, 0)[::2]), ("rev", P[::-1].copy()[::-1])):
        for m in METRICS:
            Y = X.copy(order="K") if name in "cf" else X
            t = KDTree(Y, distance=m)
            if name in "cf":
                Y[:] = 1e6
            rec.state()
            observe(t, P, m, rec, f"{case} {m} {name}", True)


# queries with arrays that do not fit the tree
def bad_cases(tier):
    return [[d, e] for d in (1, 2, 3, 5) for e in range(0, d + 3)]


def bad_run(case, rec):
    d, e = case
    for p, n in (("mix", 5), ("mix", 40), ("grid", 40)):
        P = pattern(p, n, d)
        for m in METRICS:
            t = KDTree(P, distance=m)
            for rows in (0, 1, 2, 40):
                X = np.full((rows, e), 2.5)
                calls = {"knn": lambda par: t.knn(X, 2, max_dist_bound=1e9, parallel=par), "count": lambda par: t.within_count(X, 2.0, parallel=par),
                         "counts": lambda par: t.within_count(X, np.full(rows, 2.0), parallel=par)}
                for sort, dist in ((False, False), (True, False), (False, True)):
                    calls[f"within {sort} {dist}"] = lambda par, sort=sort, dist=dist: t.within(X, 2.0, sort=sort, return_dist=dist, parallel=par)
                    calls[f"within by row {sort} {dist}"] = lambda par, sort=sort, dist=dist: t.within(X, np.full(rows, 2.0), sort=sort, return_dist=dist, parallel=par)
                    if rows > 2:
                        calls[f"fewer radii {sort} {dist}"] = lambda par, sort=sort, dist=dist: t.within(X, np.full(rows - 1, 2.0), sort=sort, return_dist=dist, parallel=par)
                        calls[f"more radii {sort} {dist}"] = lambda par, sort=sort, dist=dist: t.within(X, np.full(rows + 1, 2.0), sort=sort, return_dist=dist, parallel=par)
                for k, f in calls.items():
                    for par in (False, True):
                        rec.state()
                        rec.trans()
                        st, v = outcome_of(f, par)
                        want = "ok" if d == e and rows > 0 and "radii" not in k else "err"
                        if d == e and rows == 0:
                            rec.check(st != "panic", f"panic|{k}", lambda: f"{case} {p} {n} {m} rows={rows} {k}: {v}")
                        else:
                            rec.check(st == want, f"outcome|{k}", lambda: f"{case} {p} {n} {m} query of {rows} x {e} on a tree of dimension {d}, {k}: {st} {str(v)[:100]}")
                        rec.outcome((k, st))
            observe(t, P, m, rec, f"{case} {p} {n} {m} afterwards", True)


# ---------------------------------------------------------------- long histories
LENGTHS = {"quick": 40, "thorough": 120}


def long_cases(tier):
    return [[i, d, m, step, LENGTHS[tier]] for i in range(len(INIT)) for d in (1, 2, 6) for m in METRICS for step in (1, 2, 5)]


def long_run(case, rec):
    """Trees grown by many additions, of points one at a time and of hundreds, observed along the way."""
    i, d, m, step, length = case
    cur = pattern(*INIT[i], d)
    t = KDTree(cur.copy(), distance=m)
    for s in range(length):
        b = BLOCKS[(s * step + i) % len(BLOCKS)]
        X = pattern("wide", 150, d) / 8 + s if s % 11 == 7 else pattern("mix", 70 + s, d)[s:] * (s % 3 + 1) if s % 11 == 3 else block(b, d, s % 9)
        t.add(np.ascontiguousarray(X))
        cur = np.vstack([cur, X])
        rec.state()
        rec.trans()
        if s % 7 == 0 or s == length - 1:
            observe(t, cur, m, rec, f"init={INIT[i]} d={d} {m} {s + 1} additions", s == length - 1)
    rec.outcome((len(cur), i, step))


def many_cases(tier):
    for kind in ("doubling", "thousands", "singles", "sorted"):
        for p, d in (("wide", 1), ("wide", 2), ("frac", 3)):
            for m in METRICS if tier != "quick" or kind == "doubling" else METRICS[(d + len(kind)) % 4:][:1]:
                yield [kind, p, d, m]


def many_run(case, rec):
    """Trees grown to 70,000 points by additions that double them, of a thousand points each, of single points, and in order."""
    kind, p, d, m = case
    A = pattern(p, 70001, d)
    A = A * 8 if p == "frac" else A
    if kind == "sorted":
        A = A[np.argsort(A[:, -1], kind="stable")]
    A = np.ascontiguousarray(A)
    if kind in ("doubling", "sorted"):
        cuts = [5] + [10 * 2 ** j for j in range(13)] + [len(A)]
    elif kind == "thousands":
        cuts = list(range(1, len(A), 1000)) + [len(A)]
    else:
        cuts = [60000] + list(range(60001, 63001)) + [len(A) - 500] + list(range(len(A) - 499, len(A) + 1))
    t = KDTree(A[:cuts[0]].copy(), distance=m)
    for s, (a, b) in enumerate(zip(cuts, cuts[1:])):
        t.add(A[a:b].copy())
        rec.state()
        rec.trans()
        if b == len(A) or s % (len(cuts) // 4 + 1) == 0:
            observe(t, A[:b], m, rec, f"{case} {s + 1} additions", b < 2000)
    Q = np.ascontiguousarray(A[::997] + 0.25)
    D = dist_matrix(Q, A, m)
    dd, ii = t.knn(Q, 130, max_dist_bound=1e9)
    rec.trans(2)
    check_knn(rec, f"many|knn|{m}", str(case), dd, ii, D, 130, 1e9)
    r = float(np.sort(D[0])[300]) + 1e-6
    rec.check((t.within_count(Q, r) == (D <= r).sum(1)).all(), f"many|within_count|{m}", str(case))
    rec.outcome(tuple(case))


FAMILIES = [
    Family("histories", hist_cases, run_hist, "6 initial trees x 3 (5) dimensions x 4 metrics x every history of up to 3 (4) additions out of 6 blocks, observed after every step"),
    Family("mixed", mix_cases, run_mix, "every history of 3 (4) operations out of query, 3 additions, 4 unacceptable additions"),
    Family("layouts", layout_cases, run_layout, "3 patterns x 4 sizes x 4 dimensions x 4 metrics x 4 memory layouts"),
    Family("long", long_cases, long_run, "6 initial trees x 3 dimensions x 4 metrics x 3 orders of 40 (120) additions of 1 to 150 points, observed after every seventh"),
    Family("queries", bad_cases, bad_run, "every query method x parallel x queries of 0 to d + 2 columns and 0, 1, 2, 40 rows, too few and too many radii, on trees of 4 dimensions and 4 metrics"),
    Family("many", many_cases, many_run, "trees of 3 shapes grown to 70,001 points in 4 ways (doubling, by thousands, by single points, in order), observed along the way"),
]
