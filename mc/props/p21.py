"""P21: elementwise numeric functions, column shortcuts, haversine, gcd and lcm, trapezoidal integration, Jaccard similarities."""
import math
from itertools import combinations_with_replacement, product

import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.exprs.num import sinc
from scipy import special

from ..core import Family, outcome_of


def agree(rec, key, got, want, ctx, tol=1e-9):
    """got: list; want: list with None for null."""
    rec.trace(len(want))
    if len(got) != len(want):
        rec.fail(key, f"{ctx}: {len(got)} values, want {len(want)}: {got[:5]}")
        return
    for i, (g, w) in enumerate(zip(got, want)):
        if w is None or g is None:
            ok = g is w
        elif w != w:
            ok = g != g
        elif math.isinf(w):
            ok = g == w
        else:
            ok = abs(g - w) <= tol * (1 + abs(w))
        if not ok:
            rec.fail(key, f"{ctx}: value {i}: got {g} want {w}")
            return


def col(df, e):
    return df.select(e.alias("o"))["o"].to_list()


# ---------------------------------------------------------------- functions of one float
def np_logit(x):
    with np.errstate(all="ignore"):
        return np.where(x == 0, -np.inf, np.where(x == 1, np.inf, np.where((x < 0) | (x > 1), np.nan, np.log(x / (1 - x)))))


def np_sinc(x):
    with np.errstate(all="ignore"):
        return np.where(x == 0, 1.0, np.sin(np.pi * x) / (np.pi * x))


def positive(f):
    with np.errstate(all="ignore"):
        return lambda x: f(x)


# name -> (expression, reference, domain, relative tolerance; 0: bitwise)
FN = {
    "trunc": (pds.trunc, np.trunc, lambda x: x == x, 0),
    "fract": (pds.fract, lambda x: x - np.trunc(x), np.isfinite, 0),
    "next_up": (pds.next_up, lambda x: np.nextafter(x, np.array(np.inf, dtype=x.dtype)), lambda x: x == x, 0),
    "next_down": (pds.next_down, lambda x: np.nextafter(x, np.array(-np.inf, dtype=x.dtype)), lambda x: x == x, 0),
    "exp2": (pds.exp2, np.exp2, lambda x: x == x, 1e-9),
    "expit": (pds.expit, special.expit, lambda x: x == x, 1e-9),
    "logit": (pds.logit, np_logit, lambda x: x == x, 1e-9),
    "gamma": (pds.gamma, special.gamma, lambda x: (x > 0) & (np.abs(x) < 1e300) & (x > 1e-300), 1e-9),
    "digamma": (pds.digamma, special.digamma, lambda x: (x > 1e-300) & np.isfinite(x), 1e-8),
    "sinc": (sinc, np_sinc, lambda x: np.abs(x) < 1e3, 1e-9),
}


def floats(kind, part, parts):
    """A grid over every exponent and the ends of every mantissa range, both signs, and the special values."""
    if kind == "f64":
        e = np.arange(0, 2047, dtype=np.uint64)
        mant = np.array([0, 1, 2**51, 2**51 + 1, 2**52 - 1, 0x5555555555555, 0xA3D70A3D70A3D, 0x1999999999999, 0x7AE147AE147AE, 2**50, 3 * 2**50], dtype=np.uint64)
        bits = (e[:, None] << np.uint64(52) | mant[None, :]).ravel()
        x = np.concatenate([bits, bits | np.uint64(1 << 63)]).view(np.float64)
        x = np.concatenate([x, [np.inf, -np.inf, np.nan], np.arange(-400, 401) / 8.0, np.arange(1, 2000) / 2000.0, np.arange(0.05, 30, 0.05)])
    else:
        x = np.arange(0, 2**32, 2**12 + 1, dtype=np.uint64).astype(np.uint32).view(np.float32)
        x = np.concatenate([x, np.array([0, -0.0, 1, np.inf, -np.inf], dtype=np.float32)])
    return x[part::parts]


def fn_cases(tier):
    n = 4 if tier == "quick" else 8
    return [[f, k, p, n] for f in FN for k in ("f64", "f32") for p in range(n)] + [[f, "ints", 0, 1] for f in FN if not f.startswith("next")]


def fn_run(case, rec):
    name, kind, part, parts = case
    expr, ref, dom, tol = FN[name]
    if kind == "ints":
        for dt in (pl.Int8, pl.UInt16, pl.Int32, pl.Int64, pl.UInt64):
            xs = list(range(0 if "UInt" in str(dt) else -9, 12))
            rec.state(len(xs))
            rec.trans()
            a = np.array(xs, float)
            with np.errstate(all="ignore"):
                want = ref(a)
            keep = dom(a)
            got = pl.DataFrame({"x": [None] + [v for v, k in zip(xs, keep) if k]}, schema={"x": dt}).select(expr("x").alias("o"))["o"].to_list()
            agree(rec, f"{name}|integers", got, [None] + [float(v) for v in want[keep]], str(dt))
        return
    x = floats(kind, part, parts)
    with np.errstate(all="ignore"):
        x = x[dom(x)]
        want = ref(x)
    rec.state(len(x))
    rec.trans(2)
    s = pl.Series("x", x)
    got = pl.DataFrame({"x": s}).select(expr("x").alias("o"))["o"]
    rec.trace(len(x))
    g = got.to_numpy()
    if len(g) != len(x) or got.null_count():
        rec.fail(f"{name}|{kind}|rows", f"{len(g)} values, {got.null_count()} nulls")
        return
    if tol == 0:
        bad = (g != want) & ~((g != g) & (want != want))
        bad |= g.dtype != x.dtype
    else:
        if kind == "f32":
            tol, g, want = 2e-5, g.astype(float), np.asarray(want, float)
        with np.errstate(all="ignore"):
            w = np.asarray(want, float)
            tiny = 1e-40 if kind == "f32" else 1e-290
            near = np.abs(g - w) <= tol * np.maximum(np.abs(w), 1e-30 if name in ("expit",) else tiny) + (tol if name in ("digamma", "logit", "sinc") else 0)
            # values at the end of the range may round to infinity or to zero
            edge = (np.abs(w) > (3e38 if kind == "f32" else 1.7e308)) & np.isinf(g) & (np.sign(g) == np.sign(w)) | (np.abs(w) < (1e-35 if kind == "f32" else 1e-300)) & (np.abs(g) < (1e-30 if kind == "f32" else 1e-290))
            bad = ~(near | (g == w) | (g != g) & (w != w) | edge)
    if bad.any():
        i = int(np.argmax(bad))
        rec.fail(f"{name}|{kind}", f"{name}({x[i]!r}) = {g[i]!r} want {want[i]!r} ({int(bad.sum())} of {len(x)})")
    # nulls stay where they are
    m = np.arange(len(x)) % 3 == 1
    d = pl.DataFrame({"x": s, "m": m}).select(pl.when(pl.col("m")).then(None).otherwise(pl.col("x")).alias("x"))
    n = d.select(expr("x").alias("o"))["o"]
    rec.check(bool((n.is_null().to_numpy() == m).all()) and n.drop_nulls().equals(got.filter(pl.Series(~m)), null_equal=True) or
              all(a == b or a != a and b != b for a, b in zip(n.drop_nulls().to_list(), got.filter(pl.Series(~m)).to_list())), f"{name}|{kind}|nulls", "values next to nulls differ")
    rec.outcome(case)


# ---------------------------------------------------------------- functions of pairs
def pair_cases(tier):
    r = 24 if tier == "quick" else 60
    return [["int", a] for a in range(-r, r + 1)] + [["xlogy"]] + [["hav", i] for i in range(7)]


HAV = [(0.0, 0.0), (90.0, 0.0), (-90.0, 77.0), (51.5, -0.1), (-33.9, 151.2), (0.0, 180.0), (12.25, -179.5)]


def hav(a, b):
    la, lb = math.radians(a[0]), math.radians(b[0])
    dlat, dlon = lb - la, math.radians(b[1] - a[1])
    h = math.sin(dlat / 2) ** 2 + math.cos(la) * math.cos(lb) * math.sin(dlon / 2) ** 2
    return 2 * 6371.0 * math.asin(math.sqrt(min(1.0, h)))


def pair_run(case, rec):
    if case[0] == "int":
        a = case[1]
        r = 24
        ys = [*range(-r, r + 1), 97, 360, -1001, 46341, None]
        rec.state(len(ys))
        df = pl.DataFrame({"x": [a] * len(ys) + [None], "y": ys + [5]}, schema={"x": pl.Int32, "y": pl.Int16 if abs(a) % 2 and False else pl.Int32})
        for name, f, ref in (("gcd", pds.gcd, math.gcd), ("lcm", pds.lcm, math.lcm)):
            want = [None if y is None else ref(a, y) for y in ys] + [None]
            rec.trans(2 + len(ys))
            agree(rec, name, col(df, f("x", "y")), want, a)
            agree(rec, f"{name}|int64 columns", col(df.cast(pl.Int64), f("x", pl.col("y"))), want, a)
            for y, w in zip(ys, want):
                agree(rec, f"{name}|literal", col(df, f("x", pl.lit(y, dtype=pl.Int32) if y is None or y % 2 else y)), [w] * len(ys) + [None], (a, y))
            one = pl.DataFrame({"x": [a, a, None], "y": [6, None, 4]}, schema={"x": pl.Int32, "y": pl.Int32})
            for i in range(3):
                agree(rec, f"{name}|one row", col(one[i:i + 1], f("x", "y")), [[ref(a, 6), None, None][i]], a)
    elif case[0] == "xlogy":
        vals = [0.0, -0.0, 1.0, 0.5, 2.0, -1.0, math.inf, math.nan, 1e-300, None]
        pairs = list(product(vals, repeat=2))
        want = []
        for x, y in pairs:
            if x is None or y is None:
                want.append(None)
            else:
                with np.errstate(all="ignore"):
                    want.append(0.0 if x == 0 and y == y else float(x * np.log(y)))
        rec.state(len(pairs))
        rec.trans(2)
        df = pl.DataFrame(pairs, schema={"x": pl.Float64, "y": pl.Float64}, orient="row")
        agree(rec, "xlogy", col(df, pds.xlogy("x", "y")), want, "")
        ints = list(product(range(4), range(4)))
        agree(rec, "xlogy|integers", col(pl.DataFrame(ints, schema=["x", "y"], orient="row"), pds.xlogy("x", "y")),
              [0.0 if a == 0 else a * math.log(b) if b else -math.inf for a, b in ints], "")
    else:
        p = HAV[case[1]]
        rows = [(*p, *q) for q in HAV]
        mask = [tuple(None if m >> i & 1 else v for i, v in enumerate(rows[3])) for m in range(1, 16)]
        rows += mask
        want = [None if None in r else hav(r[:2], r[2:]) for r in rows]
        rec.state(len(rows))
        rec.trans(2 + len(HAV))
        df = pl.DataFrame(rows, schema={k: pl.Float64 for k in "abcd"}, orient="row")
        agree(rec, "haversine", col(df, pds.haversine("a", "b", "c", "d")), want, p, 1e-7)
        agree(rec, "haversine|float32", col(df.cast(pl.Float32), pds.haversine("a", "b", "c", "d")), want, p, 2e-2)
        for i in range(len(rows)):
            agree(rec, "haversine|one row", col(df[i:i + 1], pds.haversine("a", "b", "c", "d")), [want[i]], rows[i], 1e-7)
        for q in HAV:
            agree(rec, "haversine|literal", col(df, pds.haversine("a", "b", q[0], q[1])), [None if None in r[:2] else hav(r[:2], q) for r in rows], (p, q), 1e-7)
            for la, lo in ((None, q[1]), (q[0], None)):
                agree(rec, "haversine|null literal", col(df, pds.haversine("a", "b", pl.lit(la, dtype=pl.Float64), pl.lit(lo, dtype=pl.Float64))), [None] * len(rows), (p, q))
    rec.outcome(case)


# ---------------------------------------------------------------- shortcuts over a whole column
def colfn_cases(tier):
    n = 4 if tier == "quick" else 5
    return [[k, a] for k in range(1, n + 1) for a in (0, 1, 3, -2)] + [["long"]]


def ref_detrend(y):
    v = [(i, t) for i, t in enumerate(y) if t is not None]
    n = len(v)
    mx, my = sum(i for i, _ in v) / n, sum(t for _, t in v) / n
    b = sum((i - mx) * (t - my) for i, t in v) / sum((i - mx) ** 2 for i, _ in v)
    return [None if t is None else t - my - b * (i - mx) for i, t in enumerate(y)]


def colfn_one(rec, xs, dt):
    df = pl.DataFrame({"x": xs}, schema={"x": dt})
    v = [t for t in xs if t is not None]
    n = len(v)
    rec.state()
    rec.trans(9)
    m = sum(v) / n if n else None
    if n:
        agree(rec, "center", col(df, pds.center("x")), [None if t is None else t - m for t in xs], xs)
        agree(rec, "detrend|mean", col(df, pds.detrend("x", "mean")), [None if t is None else t - m for t in xs], xs)
        z = sum(math.exp(t) for t in v)
        agree(rec, "softmax", col(df, pds.softmax("x")), [None if t is None else math.exp(t) / z for t in xs], xs)
    if n > 1:
        sd = math.sqrt(sum((t - m) ** 2 for t in v) / (n - 1))
        if sd:
            agree(rec, "z_normalize", col(df, pds.z_normalize("x")), [None if t is None else (t - m) / sd for t in xs], xs)
        agree(rec, "detrend|linear", col(df, pds.detrend("x")), ref_detrend(xs), xs)
    if n == len(xs):
        pairs = list(zip(xs, xs[1:]))
        for name, f, weak, strict in (("increasing", pds.is_increasing, lambda a, b: a <= b, lambda a, b: a < b), ("decreasing", pds.is_decreasing, lambda a, b: a >= b, lambda a, b: a > b)):
            agree(rec, f"is_{name}", col(df, f("x")), [all(weak(a, b) for a, b in pairs)], xs)
            agree(rec, f"is_{name}|strict", col(df, f("x", strict=True)), [all(strict(a, b) for a, b in pairs)], xs)


def colfn_run(case, rec):
    if case == ["long"]:
        for n in (*range(5, 40), 63, 64, 65, 100, 257, 3000, 70_000):
            xs = [(i * i * 7 + 3 * i) % 31 - 15 for i in range(n)]
            colfn_one(rec, xs, pl.Int32)
            colfn_one(rec, [None if i % 4 == 2 else t for i, t in enumerate(xs)], pl.Float64)
            colfn_one(rec, [min(i, 255) for i in range(n)], pl.UInt8)
            colfn_one(rec, [(n - 1 - i) * 257 // max(n, 257) for i in range(n)], pl.UInt32)
        return
    k, a = case
    for rest in product((0, 1, 3, -2, None), repeat=k - 1):
        xs = [a, *rest]
        colfn_one(rec, xs, pl.Float64)
        colfn_one(rec, xs, pl.Int16)
        if a == -2:
            colfn_one(rec, [None, *rest], pl.Float64)
    rec.outcome(case)


def horiz_cases(tier):
    return [[n] for n in (1, 2, 3, 4, 5, 8, 13, 30)]


def horiz_run(case, rec):
    (n,) = case
    rows = list(product((-3, 0, 2, None), repeat=n)) if n <= 4 else [tuple(None if p and (i * 3 + j) % p == 1 else (i * j * 7 + 3 * i + j * j) % 23 - 11 for j in range(n)) for p in (0, 2, 3, 7) for i in range(40)] + [(None,) * n, (None,) * (n - 1) + (-4,)]
    cs = [f"c{i}" for i in range(n)]
    for dt in (pl.Float64, pl.Int32):
        df = pl.DataFrame(rows, schema={c: dt for c in cs}, orient="row")
        rec.state(len(rows))
        for norm in (False, True):
            d = n if norm else 1
            rec.trans(3)
            vs = [[v for v in r if v is not None] for r in rows]
            agree(rec, "l1_horizontal", col(df, pds.l1_horizontal(*cs, normalize=norm)), [sum(map(abs, v)) / d for v in vs], (n, norm))
            agree(rec, "l2_sq_horizontal", col(df, pds.l2_sq_horizontal(*cs, normalize=norm)), [sum(t * t for t in v) / d for v in vs], (n, norm))
            agree(rec, "l_inf_horizontal", col(df, pds.l_inf_horizontal(*[pl.col(c) for c in cs], normalize=norm)), [max(map(abs, v)) / d if v else None for v in vs], (n, norm))
    if n > 3:
        lists = [[(i * 37 + j * 11 + i * j) % 101 - 50 if j != i % m else 60 for j in range(m)] for m in range(n, n + 8) for i in range(20)]
        df = pl.DataFrame({"l": lists}, schema={"l": pl.List(pl.Float64)})
        rec.state(len(lists))
        rec.trans()
        got = col(df, pds.list_amax("l"))
        rec.check(got == [[l.index(max(l))] for l in lists], "list_amax|long", lambda: str([(l, g) for l, g in zip(lists, got) if g != [l.index(max(l))]][:3]))
        rec.outcome(n)
        return
    # list_amax: the position of the largest value of a list
    lists = [list(t) for k in (1, 2, 3, 4) for t in product((0, 1, 2, 3), repeat=k) if t.count(max(t)) == 1]
    df = pl.DataFrame({"l": lists + [None]}, schema={"l": pl.List(pl.Int64)})
    rec.state(len(lists))
    rec.trans()
    got = col(df, pds.list_amax("l"))
    rec.check(got == [[l.index(max(l))] for l in lists] + [None], "list_amax", lambda: str([(l, g) for l, g in zip(lists, got) if g != [l.index(max(l))]][:3]))


# ---------------------------------------------------------------- trapezoidal rule
def trapz_cases(tier):
    return [["word", n, a] for n in range(1, 6 if tier == "quick" else 7) for a in (-1, 0, 2)] + [["len", n] for n in (*range(1, 70), 257, 1000, 4099, 70_001)] + [["bad"]]


def trapz_run(case, rec):
    if case[0] == "word":
        n, a = case[1:]
        steps = list(product((0, 1, 3), repeat=n - 1)) if n <= 3 else [tuple((i * 2 + j) % 4 for i in range(n - 1)) for j in range(3)]
        for rest in product((-1, 0, 2), repeat=n - 1):
            y = [a, *rest]
            for s in steps:
                x = [5.0]
                for d in s:
                    x.append(x[-1] + d)
                trapz_one(rec, y, x)
    elif case[0] == "len":
        n = case[1]
        y = [(i * i * 7 + 3 * i) % 31 - 15 for i in range(n)]
        trapz_one(rec, y, [i * i / 4 for i in range(n)])
    else:
        for y, x in (([1.0, None, 2.0], [0.0, 1.0, 2.0]), ([1.0, 2.0, 3.0], [0.0, None, 2.0]), ([], [])):
            df = pl.DataFrame({"y": y, "x": x}, schema={"y": pl.Float64, "x": pl.Float64})
            rec.state()
            rec.trans(2)
            agree(rec, "trapz|nulls", col(df, pds.integrate_trapz("y", pl.col("x"))), [math.nan], (y, x))
            if None not in x:
                agree(rec, "trapz|nulls, step", col(df, pds.integrate_trapz("y", 0.5)), [math.nan], (y, x))
    rec.outcome(case)


def trapz_one(rec, y, x):
    df = pl.DataFrame({"y": y, "x": x}, schema={"y": pl.Int64, "x": pl.Float64})
    n = len(y)
    rec.state()
    rec.trans(3)
    agree(rec, "trapz|x", col(df, pds.integrate_trapz("y", pl.col("x"))), [sum((y[i] + y[i + 1]) / 2 * (x[i + 1] - x[i]) for i in range(n - 1))], (y, x))
    for dx in (0.5, -2.0):
        agree(rec, "trapz|dx", col(df, pds.integrate_trapz("y", dx)), [sum((y[i] + y[i + 1]) / 2 * abs(dx) for i in range(n - 1))], (y, dx))


# ---------------------------------------------------------------- Jaccard
def jac(a, b):
    return len(a & b) / len(a | b) if a | b else math.nan


def jac_cases(tier):
    return [["row", t] for t in ("Int8", "Int64", "UInt32", "String")] + [["col", t] for t in ("Int8", "Int16", "Int32", "Int64", "UInt8", "UInt16", "UInt32", "UInt64", "Float32", "Float64", "String", "mixed")] + [["types", t] for t in JAC_INTS] + [["large", t] for t in ("Int8", "Int32", "UInt64", "Float64", "String")]


JAC_INTS = {t: (-(2 ** (b - 1)) if t[0] == "I" else 0, 2 ** (b - (t[0] == "I")) - 1) for t, b in (("Int8", 8), ("Int16", 16), ("Int32", 32), ("Int64", 64), ("UInt8", 8), ("UInt16", 16), ("UInt32", 32), ("UInt64", 64))}


def jac_types(ta, rec):
    """Columns of every two integer types, and of an integer and a float type, over the ends of all types."""
    ends = sorted({v + d for lo, hi in JAC_INTS.values() for v, d in ((lo, 0), (hi, 0), (hi, 1))} | {0, 1, -1})
    for tb in list(JAC_INTS) + ["Float64"]:
        lo, hi = JAC_INTS[ta]
        va = [v for v in ends if lo <= v <= hi]
        if tb == "Float64":
            va, vb = [v for v in va if abs(v) < 2**53], [float(v) for v in ends if abs(v) < 2**53] + [0.5, -0.5, 1.75]
        else:
            vb = [v for v in ends if JAC_INTS[tb][0] <= v <= JAC_INTS[tb][1]]
        pairs = [([a, va[0]], [b, vb[-1]]) for a in va for b in vb] + [([a, None], [b, 0 if tb != "Float64" else 0.5]) for a in va for b in vb]
        for a, b in pairs:
            rec.state()
            rec.trans(2)
            df = pl.DataFrame({"a": pl.Series(a, dtype=getattr(pl, ta)), "b": pl.Series(b, dtype=getattr(pl, tb))})
            want = jac(set(a) - {None}, set(b) - {None})
            agree(rec, f"jaccard_col|{ta} {tb}", list(df.select(x=pds.jaccard_col("a", "b"), y=pds.jaccard_col("b", "a")).row(0)), [want, want], (a, b))
    rec.outcome((ta, "types"))


def jac_large(t, rec):
    """Columns and lists of up to 300 values with up to 120 distinct ones that overlap by any amount."""
    conv = {"String": lambda v: None if v is None else "é" * (v % 3) + str(v), "Float64": lambda v: None if v is None else v / 4}.get(t, lambda v: v)
    dt = getattr(pl, t)
    for n in (4, 7, 16, 17, 33, 64, 65, 128, 300):
        for k in (2, 5, 31, 120):
            for shift in sorted({0, 1, k // 2, k - 1, k}):
                for nul in (0, 5):
                    if t == "Int8" and k + shift > 127:
                        continue
                    a = [conv(None if nul and i % nul == 2 else (i * i + i // 3) % k) for i in range(n)]
                    b = [conv(None if nul and i % 9 == 4 else (i * i * 3 + i // 2) % k + shift) for i in range(n)]
                    rec.state()
                    rec.trans(4)
                    df = pl.DataFrame({"a": a, "b": b}, schema={"a": dt, "b": dt})
                    want = [jac(set(a), set(b)), jac(set(a) - {None}, set(b) - {None})]
                    agree(rec, f"jaccard_col|large {t}", list(df.select(c=pds.jaccard_col("a", "b", count_null=True), n=pds.jaccard_col("a", "b")).row(0)), want, (n, k, shift, nul))
                    if t in ("Int8", "Int32", "UInt64", "String"):
                        lists = pl.DataFrame({"a": [a, a[: n // 2], b], "b": [b, b[n // 3 :], b]}, schema={"a": pl.List(dt), "b": pl.List(dt)})
                        agree(rec, f"jaccard_row|large {t}", col(lists, pds.jaccard_row("a", "b")), [want[0], jac(set(a[: n // 2]), set(b[n // 3 :])), 1.0], (n, k, shift, nul))
    rec.outcome((t, "large"))


def jac_run(case, rec):
    kind, t = case
    if kind == "types":
        return jac_types(t, rec)
    if kind == "large":
        return jac_large(t, rec)
    if kind == "row":
        lists = [[]] + [list(x) for k in (1, 2, 3) for x in combinations_with_replacement((None, 0, 1, 2), k)] + [[2, 1], [1, 2, 0, 1, 2]]
        conv = (lambda l: [None if v is None else str(v) for v in l]) if t == "String" else (lambda l: l)
        dt = pl.List(getattr(pl, t))
        pairs = [(conv(a), conv(b)) for a in lists for b in lists if a or b] + [(None, conv([1])), (conv([1]), None)]
        want = [None if a is None or b is None else jac(set(a), set(b)) for a, b in pairs]
        rec.state(len(pairs))
        rec.trans(1 + len(lists))
        df = pl.DataFrame(pairs, schema={"a": dt, "b": dt}, orient="row")
        agree(rec, f"jaccard_row|{t}", col(df, pds.jaccard_row("a", "b")), want, t)
        sub = pl.DataFrame({"a": [conv(l) for l in lists if l] + [None]}, schema={"a": dt})
        for b in lists:
            lit = pl.lit(pl.Series([conv(b)], dtype=dt)).first()
            agree(rec, f"jaccard_row|literal|{t}", col(sub, pds.jaccard_row("a", lit)), [jac(set(conv(a)), set(conv(b))) for a in lists if a] + [None], (t, b))
        return
    vals = ("0", "1", "2", None) if t == "String" else (0, 1, 2, None)
    da, db = (pl.Int16, pl.UInt32) if t == "mixed" else (getattr(pl, t),) * 2
    words = [w for n in (1, 2, 3) for w in product(vals, repeat=n)] + [tuple(vals[i % 3] for i in range(70)), tuple(vals[i % 4] for i in range(70))]
    words = words if t in ("Int64", "String", "Float64") else words[::3] + [(None,), (0, None), (None, 0)]
    for a in words:
        for b in words:
            if len(a) != len(b):
                continue
            df = pl.DataFrame({"a": list(a), "b": list(b)}, schema={"a": da, "b": db})
            rec.state()
            rec.trans()
            out = df.select(c=pds.jaccard_col("a", "b", count_null=True), n=pds.jaccard_col("a", "b")).row(0)
            want = [jac(set(a), set(b)), jac(set(a) - {None}, set(b) - {None})]
            agree(rec, f"jaccard_col|{t}", list(out), want, (a, b))
    rec.outcome(case)


FAMILIES = [
    Family("functions", fn_cases, fn_run, "10 functions on 45 000 doubles (every exponent, ends of the mantissa range, both signs, special values) and a million floats (every 4097th bit pattern), small integers of 5 types, nulls in between"),
    Family("pairs", pair_cases, pair_run, "gcd and lcm of all pairs of -24..24 (-60..60) and some larger numbers, xlogy of all pairs of 10 values, haversine of all pairs of 7 places and every null mask; columns, literals, one-row columns"),
    Family("columns", colfn_cases, colfn_run, "every column of 1 to 4 (5) values of {0,1,3,-2,null}, two types; lengths 5..39 and to 70,000"),
    Family("horizontal", horiz_cases, horiz_run, "every row of 1 to 4 of {-3,0,2,null}, 162 rows of 5, 8, 13, 30; every list of 1 to 4 of 0..3 with one maximum, lists to 37"),
    Family("trapz", trapz_cases, trapz_run, "every y of 1 to 5 (6) of {-1,0,2} x step patterns; lengths up to 69, 257, 1000, 4099, 70,001; nulls"),
    Family("jaccard", jac_cases, jac_run, "all pairs of multisets of up to 3 of {null,0,1,2} as list rows (4 types) and all pairs of columns of up to 3 of them (12 types), literals; every two integer types and integers with floats over the ends of all types; up to 300 values, 120 distinct, in 5 types"),
]
