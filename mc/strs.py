"""Reference string distances, straight from their definitions."""
from functools import lru_cache
from itertools import product


def words(alphabet, n):
    """Every string over the alphabet of at most n characters."""
    return ["".join(w) for k in range(n + 1) for w in product(alphabet, repeat=k)]


def lev(a, b):
    row = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        prev, row[0] = row[0], i
        for j, y in enumerate(b, 1):
            prev, row[j] = row[j], min(row[j] + 1, row[j - 1] + 1, prev + (x != y))
    return row[-1]


def osa(a, b):
    d = [[0] * (len(b) + 1) for _ in range(len(a) + 1)]
    for i in range(len(a) + 1):
        d[i][0] = i
    for j in range(len(b) + 1):
        d[0][j] = j
    for i in range(1, len(a) + 1):
        for j in range(1, len(b) + 1):
            v = min(d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (a[i - 1] != b[j - 1]))
            if i > 1 and j > 1 and a[i - 1] == b[j - 2] and a[i - 2] == b[j - 1]:
                v = min(v, d[i - 2][j - 2] + 1)
            d[i][j] = v
    return d[-1][-1]


def dlev(a, b):
    """Unrestricted Damerau-Levenshtein (Lowrance and Wagner)."""
    da = {}
    m, n = len(a), len(b)
    inf = m + n
    d = [[inf] * (n + 2) for _ in range(m + 2)]
    for i in range(m + 1):
        d[i + 1][1] = i
    for j in range(n + 1):
        d[1][j + 1] = j
    for i in range(1, m + 1):
        db = 0
        for j in range(1, n + 1):
            k, l = da.get(b[j - 1], 0), db
            cost = 1
            if a[i - 1] == b[j - 1]:
                cost, db = 0, j
            d[i + 1][j + 1] = min(d[i][j] + cost, d[i + 1][j] + 1, d[i][j + 1] + 1, d[k][l] + (i - k - 1) + 1 + (j - l - 1))
        da[a[i - 1]] = i
    return d[m + 1][n + 1]


def lcs(a, b):
    row = [0] * (len(b) + 1)
    for x in a:
        prev = 0
        for j, y in enumerate(b, 1):
            prev, row[j] = row[j], prev + 1 if x == y else max(row[j], row[j - 1])
    return row[-1]


def hamming(a, b):
    return sum(x != y for x, y in zip(a, b)) if len(a) == len(b) else None


def hamming_padded(a, b):
    return sum(x != y for x, y in zip(a, b)) + abs(len(a) - len(b))


def jaro(a, b):
    if not a and not b:
        return 1.0
    if not a or not b:
        return 0.0
    w = max(max(len(a), len(b)) // 2 - 1, 0)
    used = [False] * len(b)
    ma = []
    for i, x in enumerate(a):
        for j in range(max(0, i - w), min(len(b), i + w + 1)):
            if not used[j] and b[j] == x:
                used[j] = True
                ma.append(x)
                break
    m = len(ma)
    if not m:
        return 0.0
    mb = [b[j] for j in range(len(b)) if used[j]]
    t = sum(x != y for x, y in zip(ma, mb)) // 2
    return (m / len(a) + m / len(b) + (m - t) / m) / 3


def jw(a, b, weight=0.1):
    s = jaro(a, b)
    if s > 0.7:
        p = 0
        while p < min(len(a), len(b), 4) and a[p] == b[p]:
            p += 1
        s += p * weight * (1 - s)
    return s


def norm(f):
    def g(a, b):
        m = max(len(a), len(b))
        return 1 - f(a, b) / m if m else 1.0
    return g


def lcs_dist(a, b):
    return max(len(a), len(b)) - lcs(a, b)


def indel_sim(a, b):
    return 2 * lcs(a, b) / (len(a) + len(b)) if a or b else 1.0


lev_sim, osa_sim, dlev_sim, lcs_sim = norm(lev), norm(osa), norm(dlev), norm(lcs_dist)
