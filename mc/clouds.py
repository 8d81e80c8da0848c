"""Point clouds (integer valued, so every distance is exact or correctly rounded) and brute-force distances."""
from itertools import product

import numpy as np

METRICS = ("l1", "l2", "sql2", "inf")


def lcg(n, seed=1, mod=1 << 16):
    x, out = seed * 7919 + 17, []
    for _ in range(n):
        x = (x * 25214903917 + 11) & ((1 << 48) - 1)
        out.append((x >> 20) % mod)
    return out


def pattern(name, n, d):
    """n integer points in d dimensions, deterministic."""
    if name == "same":
        a = np.zeros((n, d)) + 3
    elif name == "line":
        a = np.repeat(np.arange(n)[:, None], d, 1) * 1.0
    elif name == "rline":
        a = np.repeat(np.arange(n)[::-1, None], d, 1) * 1.0
    elif name == "axis":  # varies on the last axis only
        a = np.zeros((n, d))
        a[:, -1] = np.arange(n) % 13
    elif name == "grid":  # mixed radix base 4
        a = np.array([[(i // 4**j) % 4 for j in range(d)] for i in range(n)], float).reshape(n, d)
    elif name == "mix":
        a = np.array(lcg(n * d, 3, 9), float).reshape(n, d)
    elif name == "wide":
        a = np.array(lcg(n * d, 5, 2001), float).reshape(n, d) - 1000
    elif name == "clusters":
        a = np.array(lcg(n * d, 7, 3), float).reshape(n, d) + 100 * (np.arange(n) % 3)[:, None]
    elif name == "outlier":
        a = np.array(lcg(n * d, 11, 4), float).reshape(n, d)
        a[n // 2] = 500
    elif name == "neg":
        a = -np.array(lcg(n * d, 13, 30), float).reshape(n, d) + 7
    elif name == "mirror":
        a = np.array([[((-1) ** (i + j)) * ((i * (j + 3)) % 17) for j in range(d)] for i in range(n)], float).reshape(n, d)
    elif name == "frac":
        a = np.array(lcg(n * d, 17, 64), float).reshape(n, d) / 8
    else:
        raise KeyError(name)
    return np.ascontiguousarray(a)


PATTERNS = ("same", "line", "rline", "axis", "grid", "mix", "wide", "clusters", "outlier", "neg", "mirror", "frac")


def dist_matrix(Q, P, metric):
    diff = Q[:, None, :] - P[None, :, :]
    if metric == "l1":
        return np.abs(diff).sum(2)
    if metric == "inf":
        return np.abs(diff).max(2) if P.shape[0] else np.zeros((len(Q), 0))
    s = (diff * diff).sum(2)
    return np.sqrt(s) if metric == "l2" else s


def queries_for(P):
    """Query points: some of the points, shifted points, box corners, points outside of the box."""
    n, d = P.shape
    lo, hi = P.min(0), P.max(0)
    q = [P[i] for i in sorted({0, n // 3, n // 2, n - 1})]
    q += [P[n // 2] + 0.5, P[0] - 1, lo - 3, hi + 3, (lo + hi) / 2, np.where(np.arange(d) % 2 == 0, lo, hi)]
    return np.ascontiguousarray(np.array(q))


def seqs(alphabet, n):
    return product(alphabet, repeat=n)


def close(a, b):
    return np.isclose(a, b, rtol=1e-9, atol=1e-9)


def check_knn(rec, key, ctx, dists, idx, D, k, bound, ids=None, padded=True):
    """One kNN answer (rows of distances / indices) against the brute-force distance matrix D (queries x points)."""
    ids = np.arange(D.shape[1]) if ids is None else np.asarray(ids)
    pos = {int(v): i for i, v in enumerate(ids)}
    for q in range(D.shape[0]):
        rec.trace()
        truth = np.sort(D[q])
        truth = truth[truth <= bound][:k]
        di, ii = list(dists[q]) if dists is not None else None, [int(v) for v in idx[q]]
        if padded:
            if len(ii) != k:
                return rec.fail(key, f"{ctx}: query {q} returned {len(ii)} slots for k={k}")
            m = len(truth)
            if any(v != 2**32 - 1 for v in ii[m:]) or any(v != np.inf for v in di[m:]) or 2**32 - 1 in ii[:m]:
                return rec.fail(key, f"{ctx}: query {q} want {truth} then padding, got {di} {ii}")
            di, ii = di[:m], ii[:m]
        if len(ii) != len(truth) or len(set(ii)) != len(ii) or any(v not in pos for v in ii):
            return rec.fail(key, f"{ctx}: query {q} want {len(truth)} distinct neighbours {truth.tolist()}, got {ii} {di}")
        real = np.array([D[q][pos[v]] for v in ii])
        if di is not None and (len(di) != len(ii) or not close(np.array(di), real).all()):
            return rec.fail(key, f"{ctx}: query {q} distances {di} do not belong to indices {ii}, whose are {real}")
        if not close(real, truth).all():
            return rec.fail(key, f"{ctx}: query {q} distances {real.tolist()} want {truth.tolist()}")


def check_within(rec, key, ctx, got, D, r, sort, with_dist, ids=None):
    ids = np.arange(D.shape[1]) if ids is None else np.asarray(ids)
    for q in range(D.shape[0]):
        rec.trace()
        rq = r[q] if isinstance(r, (list, np.ndarray)) else r
        want = sorted(int(v) for v in ids[D[q] <= rq])
        g = got[q]
        gi = [int(t[0]) for t in g] if with_dist else [int(t) for t in g]
        if sorted(gi) != want:
            return rec.fail(key, f"{ctx}: query {q} r={rq}: got {sorted(gi)} want {want}")
        pos = {int(v): i for i, v in enumerate(ids)}
        real = np.array([D[q][pos[v]] for v in gi])
        if with_dist and len(g) and not close(np.array([t[1] for t in g]), real).all():
            return rec.fail(key, f"{ctx}: query {q} distances {g} want {real}")
        if sort and (np.diff(real) < -1e-9).any():
            return rec.fail(key, f"{ctx}: query {q} is not sorted: {gi} {real}")
