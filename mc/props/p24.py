"""P24: entropies and complexities of columns."""
import math
from collections import Counter
from itertools import product

import polars as pl
import polars_ds as pds
from scipy.special import digamma

from ..clouds import lcg
from ..core import Family, outcome_of

NAN = math.nan


def near(g, w, tol=1e-9):
    if w != w:
        return g is not None and g != g
    if g is None:
        return False
    if math.isinf(w):
        return g == w
    return abs(g - w) <= tol * (1 + abs(w))


def entropy(counts, base=math.e):
    n = sum(counts)
    return -sum(c / n * math.log(c / n, base) for c in counts)


def std(x, ddof):
    m = sum(x) / len(x)
    return math.sqrt(sum((v - m) ** 2 for v in x) / (len(x) - ddof))


def linf(a, b):
    return max(abs(x - y) for x, y in zip(a, b))


def windows(x, m):
    return [x[i:i + m] for i in range(len(x) - m + 1)]


def samp(x, m, r):
    count = lambda w: sum(linf(a, b) <= r for i, a in enumerate(w) for j, b in enumerate(w) if i != j)
    a, b = count(windows(x, m + 1)), count(windows(x, m))
    return math.inf if a == 0 and b else NAN if a == 0 else math.log(b / a)


def apen(x, m, r):
    def phi(k):
        w = windows(x, k)
        return sum(math.log(sum(linf(a, b) <= r for b in w) / len(w)) for a in w) / len(w)
    return abs(phi(m) - phi(m + 1))


def run_cases(tier):
    n = 7 if tier == "quick" else 8
    return [[k, a, b] for k in range(2, n + 1) for a in (0, 1, 3) for b in (0, 1, 3)] + [["long", n] for n in (*range(8, 80, 3), 150, 400)] + [["short"]]


def run_one(rec, x, ms, par):
    df = pl.DataFrame({"x": x}, schema={"x": pl.Float64 if par else pl.Int32})
    n = len(x)
    s0, s1 = std(x, 0), std(x, 1) if n > 1 else NAN
    for m in ms:
        for ratio in (0.31, 0.83):
            rec.trans(3)
            rec.state()
            for key, e, r, ref in (
                ("sample", pds.query_sample_entropy("x", ratio, m, parallel=par), ratio * s0, samp),
                ("approximate", pds.query_approx_entropy("x", m, ratio, parallel=par), ratio * s1, apen),
                ("approximate, no scaling", pds.query_approx_entropy("x", m, ratio * 1.7, scale_by_std=False, parallel=not par), ratio * 1.7, apen),
            ):
                if abs(r - round(r)) < 1e-9 and r > 1e-12:
                    continue  # a distance exactly at the tolerance is decided by rounding
                got = df.select(e.alias("o"))["o"].to_list()
                want = NAN if n < 2 * m or not r > 0 else ref(x, m, r)
                rec.check(len(got) == 1 and near(got[0], want), key, lambda: f"{x} m={m} r={r}: {got} want {want}")


def run_run(case, rec):
    if case[0] == "long":
        n = case[1]
        x = [(i * i * 7 + 3 * i) % 31 - 15 for i in range(n)]
        y = [i % 4 + (i * i) % 3 for i in range(n)]
        for v in (x, y):
            run_one(rec, v, (2, 3, 4, 5) if n < 300 else (3,), False)
            run_one(rec, v, (2, 3) if n < 300 else (2,), True)
    elif case == ["short"]:
        for n in (0, 1):
            df = pl.DataFrame({"x": [1.0] * n}, schema={"x": pl.Float64})
            for e in (pds.query_sample_entropy("x", 0.5), pds.query_approx_entropy("x", 2, 0.5), pds.query_approx_entropy("x", 2, 0.5, scale_by_std=False)):
                rec.state()
                rec.trans()
                got = df.select(e.alias("o"))["o"].to_list()
                rec.check(len(got) == 1 and near(got[0], NAN), "too short", f"{n} rows: {got}")
        for f in (lambda: pds.query_sample_entropy("x", m=1), lambda: pds.query_approx_entropy("x", 1, 0.5), lambda: pds.query_approx_entropy("x", 2, 0.0), lambda: pds.query_knn_entropy("x", k=0),
                  lambda: pds.query_permute_entropy("x", 0), lambda: pds.query_permute_entropy("x", 1, 1), lambda: pds.query_transfer_entropy("x", "x", 0)):
            rec.check(outcome_of(f)[0] == "err", "argument not refused", "")
    else:
        k, a, b = case
        for rest in product((0, 1, 3), repeat=k - 2):
            x = [a, b, *rest]
            run_one(rec, x, (2,) if k < 6 else (2, 3), bool(sum(rest) % 2))
    rec.outcome(case)


# ---------------------------------------------------------------- nearest neighbour entropy and what is built on it
def knn_ent(cols, k, dist):
    rows = list(zip(*cols))
    n, d = len(rows), len(cols)
    if n <= k:
        return NAN
    f = (lambda a, b: math.dist(a, b)) if dist == "l2" else linf
    lc = d / 2 * math.log(math.pi) - d * math.log(2) - math.lgamma(1 + d / 2) if dist == "l2" else 0.0
    tot = 0.0
    for a in rows:
        e = sorted(f(a, b) for b in rows)[k]
        tot += math.log(2 * e) if e > 0 else -math.inf
    return float(digamma(n) - digamma(k)) + lc + d / n * tot


def ranks(x):
    s = sorted(x)
    return [(s.index(v) + 1 + s.index(v) + s.count(v)) / 2 / len(x) for v in x]


def cop(cols, k):
    return -knn_ent([ranks(c) for c in cols], k, "l2")


def ci(x, y, z, k):
    return cop([x, y, z], k) - cop([y, z], k) - cop([x, z], k)


def knn_cases(tier):
    n = 6 if tier == "quick" else 7
    return [["perm", k, a] for k in range(2, n + 1) for a in range(k)] + [["long", n] for n in (*range(8, 60, 4), 200, 600)]


def knn_one(rec, cols, ks, par):
    df = pl.DataFrame({f"x{i}": c for i, c in enumerate(cols)}, schema={f"x{i}": pl.Float64 for i in range(len(cols))})
    names = df.columns
    for k in ks:
        rec.state()
        q = {}
        for d in range(1, len(names) + 1):
            for dist in ("l2", "inf"):
                q[f"knn|{d}|{dist}"] = (pds.query_knn_entropy(*names[:d], k=k, dist=dist, parallel=par), knn_ent(cols[:d], k, dist))
            q[f"copula|{d}"] = (pds.query_copula_entropy(*names[:d], k=k, parallel=par), cop(cols[:d], k))
        if len(names) >= 3:
            q["conditional independence"] = (pds.query_cond_indep(*names[:3], k=k, parallel=par), ci(*cols[:3], k))
            for lag in (1, 2):
                if len(cols[0]) > lag + k:
                    q[f"transfer|lag {lag}"] = (pds.query_transfer_entropy("x0", "x1", lag, k, parallel=par), ci(cols[0][lag:], cols[1][:-lag], cols[0][:-lag], k))
        rec.trans(len(q))
        for key, (e, w) in q.items():
            got = df.select(e.alias("o"))["o"].to_list()
            if w != w and not key.startswith("knn"):
                continue
            rec.check(len(got) == 1 and near(got[0], w, 1e-7), key.split("|")[0], lambda: f"{key} of {cols} k={k}: {got} want {w}")


def knn_run(case, rec):
    if case[0] == "long":
        n = case[1]
        x = [i * 1.5 + (i * i * 7) % 31 for i in range(n)]
        y = [(i * 17) % n + 0.25 * i for i in range(n)]
        z = [(i * 29 + 5) % (2 * n + 1) + 0.125 * i for i in range(n)]
        knn_one(rec, [x, y, z], (1, 2, 3, 5) if n < 300 else (4,), False)
        knn_one(rec, [x, y, z], (3,), True)
        return
    _, k, a = case
    # every order of k distinct values, against two fixed columns
    pool = [0.0, 1.0, 2.5, 4.5, 5.0, 8.0, 8.25][:k]
    fixed = [[3.0, 0.0, 7.5, 1.0, 6.0, 9.0, 2.0][:k], [1.0, 5.0, 2.0, 9.5, 3.0, 0.5, 6.5][:k]]

    def perms(left):
        if not left:
            yield []
        for i, v in enumerate(left):
            for p in perms(left[:i] + left[i + 1:]):
                yield [v, *p]

    for p in perms(pool[:a] + pool[a + 1:]):
        knn_one(rec, [[pool[a], *p], *fixed], (1, 2) if k < 5 else (1,) if k > 5 else (2,), bool(int(p[0]) % 2))
    rec.outcome(case)


# ---------------------------------------------------------------- ordinal patterns, discrete entropies, Lempel-Ziv
def perm_ent(x, tau, d, base):
    pats = [tuple(sorted(range(d), key=lambda j: x[i + j * tau])) for i in range(len(x) - (d - 1) * tau)]
    return entropy(Counter(pats).values(), base)


def lz(bits):
    seen, i, inc = set(), 0, 1
    while i + inc <= len(bits):
        s = bits[i:i + inc]
        if s in seen:
            inc += 1
        else:
            seen.add(s)
            i, inc = i + inc, 1
    return len(seen)


def disc_cases(tier):
    n = 6 if tier == "quick" else 7
    return [["words", k, a] for k in range(1, n + 1) for a in range(4)] + [["perm", k, a] for k in range(2, n + 1) for a in range(k)] + [["lz", k] for k in range(1, 11 if tier == "quick" else 14)] + [["lz long", n] for n in (15, 33, 64, 65, 100, 128, 129, 257, 1000, 70_000, 1_700_000)] + [["long", n] for n in (*range(8, 90, 9), 300, 700, 70_000)]


def perm_one(rec, x):
    n = len(x)
    df = pl.DataFrame({"x": x}, schema={"x": pl.Int64})
    q = [(t, d) for t in (1, 2, 3, 4) for d in (2, 3, 4) if n - (d - 1) * t >= 1]
    rec.state(len(q))
    rec.trans(len(q))
    if not q:
        return
    out = df.select(pds.query_permute_entropy("x", t, d, base=2.0 if t == 2 else math.e).alias(str(i)) for i, (t, d) in enumerate(q))
    for (t, d), got in zip(q, out.row(0)):
        want = perm_ent(x, t, d, 2.0 if t == 2 else math.e)
        rec.check(near(got, want), f"permutation|{'tau 1' if t == 1 else 'tau > 1'}", lambda: f"{x} tau={t} dims={d}: {got} want {want}")


def disc_run(case, rec):
    if case[0] == "perm":
        from itertools import permutations
        _, k, a = case
        for p in permutations([v for v in range(k) if v != a]):
            perm_one(rec, [a, *p])
    elif case[0] == "long":
        n = case[1]
        perm_one(rec, [(i * 37) % 97 * 100 + i for i in range(n)])
        x = [(i * i * 7 + 3 * i) % 5 for i in range(n)]
        y = [(i * i + i // 2) % 3 for i in range(n)]
        cond_one(rec, x, y)
    elif case[0] in ("lz", "lz long"):
        k = case[1]
        if case[0] == "lz":
            words = (tuple(bool(v >> i & 1) for i in range(k)) for v in range(2**k))
        else:
            words = (bytes(b > 14 for b in lcg(k, 29, 30)),) if k > 100_000 else (tuple(f(i) for i in range(k)) for f in (lambda i: True, lambda i: i % 2 == 0, lambda i: (i * i + i // 3) % 7 > 2, lambda i: (i // 9) % 2 == 0, lambda i: i > k // 2, lambda i: (i * 7919 + i * i // 5) % 31 < 15))
        for bits in words:
            rec.state()
            rec.trans()
            col = [None if not b and i % 3 == 1 else b for i, b in enumerate(bits)]
            df = pl.DataFrame({"b": [bool(b) for b in bits], "c": [None if b is None else bool(b) for b in col]}, schema={"b": pl.Boolean, "c": pl.Boolean})
            out = df.select(a=pds.query_lempel_ziv("b", as_ratio=False), r=pds.query_lempel_ziv("b"), c=pds.query_lempel_ziv("c", as_ratio=False)).rows()
            w = lz(bits)
            rec.check(len(out) == 1 and out[0][0] == w == out[0][2] and near(out[0][1], w / k), "lempel ziv", lambda: f"{bits[:200]}: {out} want {w}")
    else:
        _, k, a = case
        vals = ("a", "b", None, "c")
        for rest in product(vals, repeat=k - 1):
            x = [vals[a], *rest]
            y = [i % 2 if v != "b" else 2 - i // 3 for i, v in enumerate(x)]
            cond_one(rec, x, y)
    rec.outcome(case)


def cond_one(rec, x, y):
    rec.state()
    rec.trans(4)
    df = pl.DataFrame({"x": x, "y": y})
    n = len(x)
    cxy, cx, cy = Counter(zip(x, y)), Counter(x), Counter(y)
    want = [entropy(cx.values()), entropy(cx.values(), 2.0), -sum(c / n * math.log(c / cy[k[1]]) for k, c in cxy.items()), -sum(c / n * math.log(c / cx[k[0]]) for k, c in cxy.items()), entropy(cx.values(), 3.0), -sum(c * math.log(c, 3.0) for c in cx.values())]
    out = df.select(a=pds.query_entropy("x"), b=pds.query_entropy("x", 2.0), c=pds.query_cond_entropy("x", "y"), d=pds.query_cond_entropy(pl.col("y"), pl.col("x")), e=pds.query_entropy("x", 3.0, True), f=pds.query_entropy("x", base=3.0, normalize=False)).rows()
    rec.check(len(out) == 1 and all(near(g, w) for g, w in list(zip(out[0], want))[: 6 if len(cx) > 1 else 5]), "discrete entropy", lambda: f"{x} {y}: {out} want {want}")


FAMILIES = [
    Family("runs", run_cases, run_run, "sample and approximate entropy: every series of 2 to 7 (8) of {0,1,3} x run length 2, 3 x tolerances, parallel and not; lengths up to 79, 150, 400, run lengths up to 5; 0 and 1 rows"),
    Family("neighbours", knn_cases, knn_run, "nearest-neighbour, copula, conditional and transfer entropy: every order of up to 6 (7) values against two fixed columns, lengths 8..59, 200, 600 x k x dimension"),
    Family("discrete", disc_cases, disc_run, "permutation entropy of every permutation of up to 6 (7) x tau 1..4 x dimension 2..4; (conditional) entropy of every column of up to 6 (7) of 3 categories and null; Lempel-Ziv of every bit string up to 10 (13); lengths to 70,000, and Lempel-Ziv of 1,700,000 bits"),
]
