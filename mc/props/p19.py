"""P19: convolution in all modes, the real FFT and isotonic regression."""
import cmath
import math
from fractions import Fraction
from itertools import accumulate, product

import numpy as np
import polars as pl
import polars_ds as pds

from ..core import Family, outcome_of

MODES = ("full", "same", "left", "right", "valid")


def conv(x, k, mode):
    n, m = len(x), len(k)
    full = [0.0] * (n + m - 1)
    if n > 10_000:
        full = np.convolve(x, k).tolist()
    else:
        for i, a in enumerate(x):
            for j, b in enumerate(k):
                full[i + j] += a * b
    s = (m - 1) // 2
    return {"full": full, "same": full[s:s + n], "left": full[:n], "right": full[m - 1:], "valid": full[m - 1:n]}[mode]


def near(got, want):
    return len(got) == len(want) and all(g is not None and abs(g - w) <= 1e-7 for g, w in zip(got, want))


def conv_all(rec, xs, kern, fill, fin, how):
    """Every mode and method of one (column, kernel) pair; fin: the kernel without its non-finite values."""
    df = pl.DataFrame({"x": xs}, schema={"x": pl.Float64})
    x = [fill if v is None else float(v) for v in xs]
    q = [(m, me, p) for m in MODES for me, p in (("direct", False), ("direct", True), ("fft", False))]
    for m, me, p in q:
        rec.trans()
        got = df.select(pds.convolve("x", kern, fill_value=fill, method=me, mode=m, parallel=p)).to_series().to_list()
        rec.check(near(got, conv(x, fin, m)), f"convolve|{m}|{me}{'|parallel' if p else ''}|{how}", lambda: f"{xs} * {fin}: {got} want {conv(x, fin, m)}")
    rec.state()


def conv_cases(tier):
    return [[a, n, tier] for n in ((2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6)) for a in (-1, 0, 2, None)]


def conv_run(case, rec):
    a, n, tier = case
    for rest in product((-1, 0, 2, None), repeat=n - 1):
        xs = [a, *rest]
        if n >= 4 and sum(v is None for v in xs) > 1:
            continue
        for m in range(2, min(n, 3) + 1):
            # the kernel's first entry follows from linearity in the kernel only for a correct convolution, so it varies too
            for kern in product((-1, 0, 2), repeat=m):
                if n >= 5 and (kern[0] == 0 or kern[-1] == 0 or tier == "quick" and (rest[0] != 0 or m < 3)):
                    continue
                df = pl.DataFrame({"x": xs}, schema={"x": pl.Float64})
                x = [0.0 if v is None else float(v) for v in xs]
                q = [(mo, me) for mo in MODES for me in ("direct", "fft")]
                mo, me = q[(sum(hash(v) for v in xs if v) + sum(kern)) % 10]
                todo = q if n < 5 else [(mo, me)]
                for mo, me in todo:
                    rec.trans()
                    got = df.select(pds.convolve("x", list(kern), method=me, mode=mo, parallel=me == "direct" and bool(n % 2))).to_series().to_list()
                    rec.check(near(got, conv(x, kern, mo)), f"convolve|{mo}|{me}", lambda: f"{xs} * {kern}: {got}")
                rec.state(len(todo))
    rec.outcome(case)


def conv_len_cases(tier):
    top = 26 if tier == "quick" else 48
    return [["pair", n, m] for n in range(2, top) for m in range(2, n + 1)] + [["pair", n, m] for n in (64, 100, 257) for m in (2, 7, 8, 9, 31, 32, 33, 63, 64)] + [["pair", n, m] for n in (513, 1025, 2100) for m in (2, 33, 65, 127, 129, 257, 500)] + [["pair", 70_001, m] for m in (2, 9, 33, 300)] + [
        ["kernel", i] for i in range(8)] + [["refuse", n, m] for n in (0, 1, 2, 3) for m in range(5) if m > n or m < 2]


def conv_len_run(case, rec):
    if case[0] == "pair":
        n, m = case[1:]
        xs = [(i * i * 7 + 3 * i) % 31 - 15 for i in range(n)]
        k = [(j * j * 5 + j) % 13 - 4 for j in range(m)]
        conv_all(rec, xs, [float(v) for v in k], 0.0, k, "list")
    elif case[0] == "refuse":
        rec.state()
        _, n, m = case
        df = pl.DataFrame({"x": [1.0] * n}, schema={"x": pl.Float64})
        for mo, me in product(MODES, ("direct", "fft")):
            rec.trans()
            got = outcome_of(lambda: df.select(pds.convolve("x", [1.0] * m, method=me, mode=mo)))
            rec.check(got[0] == "err", "convolve|not refused", f"{n} rows, kernel of {m}: {got}")
    else:
        i = case[1]
        xs = [3, None, -2, 5, None, 7]
        raw = [1.0, float("nan"), 2.0, float("inf"), -3.0, float("-inf")][: 3 + i % 4]
        fin = [v for v in raw if math.isfinite(v)]
        kern = [raw, pl.Series(raw)][i % 2]
        conv_all(rec, xs, kern, 4.0 if i > 3 else 0.0, fin, "nonfinite")
        # kernels from a column, of integers and of floats, with nulls; a fill value from the column
        for dt in (pl.Float64, pl.Int32, pl.Float32):
            df = pl.DataFrame({"x": xs, "k": [2, None, 1, None, -1, None]}, schema={"x": pl.Int64, "k": dt})
            for mo, me in product(MODES, ("direct", "fft")):
                rec.trans()
                got = df.select(pds.convolve("x", pl.col("k"), fill_value=pl.col("x").max(), method=me, mode=mo)).to_series().to_list()
                rec.check(near(got, conv([7 if v is None else v for v in xs], [2, 1, -1], mo)), f"convolve|column kernel|{mo}|{me}", f"{dt}: {got}")
    rec.outcome(case)


# ---------------------------------------------------------------- FFT
def dft(x):
    n = len(x)
    if n > 2200:
        return np.fft.fft(x).tolist()
    w = [cmath.exp(-2j * cmath.pi * i / n) for i in range(n)]
    return [sum(x[t] * w[t * f % n] for t in range(n)) for f in range(n)]


def fft_cases(tier):
    top = 40 if tier == "quick" else 70
    return [["ramp", n] for n in range(1, top)] + [["ramp", n] for n in (64, 96, 97, 128, 129, 255, 256, 257, 500, 1000, 1023, 1025, 2187, 4096, 10_007, 65_536, 70_001)] + [["words", n, a] for n in (2, 3, 4, 5, 6) for a in (-1, 0, 2)] + [["null", n] for n in (2, 3, 5)]


def cut(x, m):
    return (x + [0] * m)[:m]


def fft_check(rec, xs, n):
    df = pl.DataFrame({"x": xs}, schema={"x": pl.Int32 if len(xs) % 2 else pl.Float64})
    m = n or len(xs)
    want = dft(cut(xs, m))
    for full in (False, True):
        rec.trans()
        got = df.select(pds.rfft("x", n=n, return_full=full)).to_series()
        w = want if full else want[: m // 2 + 1]
        g = got.to_list()
        rec.check(got.dtype == pl.Array(pl.Float64, 2), "rfft|type", str(got.dtype))
        rec.check(len(g) == len(w) and all(abs(complex(*a) - b) <= 1e-7 * (1 + abs(b)) for a, b in zip(g, w)), f"rfft|{'full' if full else 'half'}",
                  lambda: f"{xs} n={n}: {g} want {w}")


def fft_run(case, rec):
    if case[0] == "ramp":
        n = case[1]
        xs = [(i * i * 7 + 3 * i) % 31 - 15 for i in range(n)]
        for m in [None] + [v for v in (2, 3, n - 1, n, n + 1, n + 2, 2 * n, n // 2) if v > 1]:
            rec.state()
            fft_check(rec, xs, m)
        for bad in (1, 0, -3):
            rec.check(outcome_of(lambda: pds.rfft("x", n=bad))[0] == "err", "rfft|n not refused", str(bad))
    elif case[0] == "words":
        for rest in product((-1, 0, 2), repeat=case[1] - 1):
            rec.state()
            fft_check(rec, [case[2], *rest], None)
    else:
        n = case[1]
        for i in range(n):
            rec.state()
            rec.trans()
            xs = [float(v) for v in range(n)]
            xs[i] = None
            got = outcome_of(lambda: pl.DataFrame({"x": xs}, schema={"x": pl.Float64}).select(pds.rfft("x")))
            rec.check(got[0] == "err", "rfft|nulls not refused", f"{xs}: {got}")
    rec.outcome(case)


# ---------------------------------------------------------------- isotonic regression
def pava(y, w, inc):
    """Minimises the weighted sum of squares exactly: the max-min formula over rationals."""
    if not inc:
        return pava(y[::-1], w[::-1], True)[::-1]
    n = len(y)
    if n > 60:
        # slopes of the greatest convex minorant of the cumulative sums, for whole numbers
        px, py = [0, *accumulate(w)], [0, *accumulate(a * b for a, b in zip(y, w))]
        hull = [0]
        for i in range(1, n + 1):
            while len(hull) > 1 and (py[hull[-1]] - py[hull[-2]]) * (px[i] - px[hull[-1]]) >= (py[i] - py[hull[-1]]) * (px[hull[-1]] - px[hull[-2]]):
                hull.pop()
            hull.append(i)
        return [(py[b] - py[a]) / (px[b] - px[a]) for a, b in zip(hull, hull[1:]) for _ in range(a, b)]
    pw, pwy = [Fraction(0)], [Fraction(0)]
    for a, b in zip(y, w):
        pw.append(pw[-1] + Fraction(b))
        pwy.append(pwy[-1] + Fraction(b) * Fraction(a))
    av = lambda i, j: (pwy[j + 1] - pwy[i]) / (pw[j + 1] - pw[i])
    return [float(max(min(av(i, j) for j in range(t, n)) for i in range(t + 1))) for t in range(n)]


def iso_cases(tier):
    vals = (0, 1, 3)
    for n in range(1, 7 if tier == "quick" else 8):
        for a in vals:
            for b in vals if n > 4 else (None,):
                yield [n, a, b]
    yield ["long"]
    yield from (["longer", n] for n in (61, 130, 300, 1000, 5000, 70_000))
    yield ["refuse"]


def iso_one(rec, y, w):
    df = pl.DataFrame({"y": y, "w": w or [1.0] * len(y)}, schema={"y": pl.Float64, "w": pl.Float64})
    rec.state()
    rec.trans(2)
    ww = None if w is None else "w"
    out = df.select(i=pds.isotonic_regression("y", weights=ww), d=pds.isotonic_regression("y", weights=ww, increasing=False))
    for c, inc in (("i", True), ("d", False)):
        want = pava(y, w or [1] * len(y), inc)
        rec.same(out[c].to_list(), want, f"isotonic|{'increasing' if inc else 'decreasing'}|{'weights' if w else 'plain'}", (y, w))


def iso_run(case, rec):
    if case == ["long"]:
        for n in range(8, 30):
            y = [(i * i * 7 + 3 * i) % 31 - 15 for i in range(n)]
            iso_one(rec, y, None)
            iso_one(rec, y, [1 + i * 5 % 7 for i in range(n)])
            iso_one(rec, [v + i for i, v in enumerate(y)], [0.5 + i % 3 for i in range(n)])
            iso_one(rec, list(range(n)), None)
            iso_one(rec, list(range(n))[::-1], [1 + i % 2 for i in range(n)])
        return
    if case[0] == "longer":
        n = case[1]
        for p in (31, 1009):
            y = [(i * i * 7 + 3 * i) % p - p // 2 for i in range(n)]
            iso_one(rec, y, None)
            iso_one(rec, y, [1 + i * 5 % 7 for i in range(n)])
            iso_one(rec, [v + i // 9 for i, v in enumerate(y)], [1 + i % 3 for i in range(n)])
            iso_one(rec, [v - i for i, v in enumerate(y)], None)
        iso_one(rec, list(range(n)), None)
        iso_one(rec, list(range(n))[::-1], [1 + i % 2 for i in range(n)])
        iso_one(rec, [i if i < n - 1 else 0 for i in range(n)], None)
        iso_one(rec, [i if i else n for i in range(n)], [1 + i % 4 for i in range(n)])
        return
    if case == ["refuse"]:
        for y, w in (([1, None, 2], None), ([1, 2, 3], [1, None, 1]), ([1, 2, 3], [1, 0, 1]), ([1, 2, 3], [1, 1, -2])):
            rec.state()
            rec.trans()
            df = pl.DataFrame({"y": y, "w": w or [1.0] * 3}, schema={"y": pl.Float64, "w": pl.Float64})
            for inc in (True, False):
                got = outcome_of(lambda: df.select(pds.isotonic_regression("y", weights="w" if w else None, increasing=inc)))
                rec.check(got[0] == "err", "isotonic|not refused", f"{y} {w}: {got}")
        return
    n, a, b = case
    for rest in product((0, 1, 3), repeat=n - 1 if b is None else n - 2):
        y = [a, *rest] if b is None else [a, b, *rest]
        iso_one(rec, y, None)
        if n <= 3:
            for w in product((1, 2, 5), repeat=n):
                iso_one(rec, y, list(w))
        else:
            iso_one(rec, y, [(1, 4, 2, 7, 3, 5, 6)[i] for i in range(n)])
            if n == 4:
                for w in product((1, 3), repeat=4):
                    iso_one(rec, y, list(w))
    rec.outcome(case)


FAMILIES = [
    Family("convolve", conv_cases, conv_run, "every column of 2 to 4 (n >= 5: a covering part) values of {-1,0,2,null} x every kernel of 2 and 3 of {-1,0,2} x 5 modes x 2 methods"),
    Family("lengths", conv_len_cases, conv_len_run, "every input length up to 25 (47) x kernel length up to it, lengths 64 to 2100 and 70,001 x kernels around powers of two; non-finite and column kernels, fill values; impossible lengths"),
    Family("fft", fft_cases, fft_run, "every length up to 39 (69) and 64..2187, 4096..70,001 x crop and pad sizes x both outputs, every word of 2 to 6 of {-1,0,2}, every position of a null"),
    Family("isotonic", iso_cases, iso_run, "every response of 1 to 6 (7) of {0,1,3} x both directions x weights (all of {1,2,5} up to 3, of {1,3} for 4), lengths 8..29, 61 to 70,000"),
]
