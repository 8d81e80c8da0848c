"""P35: the numeric type that holds the numbers does not change the answer."""
from itertools import product

import polars as pl

from ..catalog import ITEMS, frame
from ..clouds import lcg
from ..core import Family, outcome_of

FLOATS = ("x", "y", "z", "p", "w", "u", "lat", "lon")
INTS = ("i", "j", "t", "c3", "id")
SIGNED = {"Int8": 8, "Int16": 16, "Int32": 32, "Int64": 64}
UNSIGNED = {"UInt8": 8, "UInt16": 16, "UInt32": 32, "UInt64": 64}
TYPES = [*SIGNED, *UNSIGNED, "Float32"]
SCALES = ("small", "wide", "ends")
# The neighbouring number is a matter of the type, and float32 has no room for the factorial of 35.
OWN_FLOAT32 = {"next_up", "next_down", "gamma"}
# Documented as shorthands of Polars expressions, which count in the type of the column.
# (haversine is given lat + 1 here, where it is the addition that overflows.)
SHORTHANDS = {"l1_horizontal", "l2_sq_horizontal", "l_inf_horizontal", "haversine"}
RANDOM = {n for n, i in ITEMS.items() if i.seed}
NAMES = [n for n, i in ITEMS.items() if not i.seed]


def limits(t):
    """The integers of a type that float64 (and, for Float32, float32) holds exactly."""
    if t in SIGNED:
        b = min(SIGNED[t], 53)
        return -(2 ** (b - 1)), 2 ** (b - 1) - 1
    if t in UNSIGNED:
        return 0, 2 ** min(UNSIGNED[t], 52) - 1
    return -(2**24), 2**24


def values(n, t, scale, k):
    lo, hi = limits(t)
    r = lcg(n, k, 1 << 15)
    if scale == "small":
        a, b = max(lo, -40), min(hi, 60)
        return [a + v % (b - a) for v in r]
    if scale == "ends":
        e = sorted({lo, max(lo, -1), 0, 1, hi // 2, hi})
        return [e[v % len(e)] for v in r]
    return [lo + (hi - lo) * v // (2**15 - 1) for v in r]


def used(it):
    return set(it.make().meta.root_names())


def make(n, t, scale, salt, cols):
    """(frame in type t, the same numbers in Float64 / Int64)"""
    base = frame(n, salt)
    num = {c: values(n, t, scale, salt * 31 + 7 * k) for k, c in enumerate(FLOATS)}
    num["u"] = [v % 2 for v in num["u"]]
    num["p"] = [max(abs(v), 1) if v != limits(t)[0] else 1 for v in num["p"]]  # positive
    num["w"] = [max(abs(v), 1) if v != limits(t)[0] else 1 for v in num["w"]]
    if t == "Float32":
        ints = {}
    else:
        ints = {c: (base[c].cast(pl.Int64) % 120).to_list() if n > 120 else base[c].cast(pl.Int64).to_list() for c in INTS}
        if t in UNSIGNED:
            ints["i"] = [abs(v) for v in ints["i"]]
    T = getattr(pl, t)
    typed = base.with_columns(*(pl.Series(c, v, dtype=pl.Float64).cast(T) for c, v in num.items()), *(pl.Series(c, v, dtype=T) for c, v in ints.items()))
    ref = base.with_columns(*(pl.Series(c, v, dtype=pl.Float64) for c, v in num.items()), *(pl.Series(c, v, dtype=pl.Int64) for c, v in ints.items()))
    return typed, ref


def value(df, it):
    o = outcome_of(lambda: df.select(it.make().alias("o"))["o"].to_list())
    if o[0] == "ok" and it.unordered:
        return "ok", sorted(o[1], key=repr)
    return o


def cases(tier):
    for name in NAMES:
        if name in SHORTHANDS or not used(ITEMS[name]) & set(FLOATS + INTS):
            continue
        for t in TYPES:
            if t == "Float32" and (name in OWN_FLOAT32 or not used(ITEMS[name]) & set(FLOATS)):
                continue
            yield [name, t]


def run(case, rec):
    name, t = case
    it = ITEMS[name]
    tol = 1e-3 if t == "Float32" else 1e-9
    for scale in SCALES if t != "Float32" else ("small",):
        long = (700, 1300) if scale == "small" and name not in ("product", "combinations") else ()
        for n in (max(it.min_n + 2, 8), max(it.min_n + 3, 25), *long):
            for salt in (1, 2, 3) if n < 500 else (1,):
                typed, ref = make(n, t, scale, salt, used(it))
                want, got = value(ref, it), value(typed, it)
                rec.state()
                rec.trans(2)
                rec.outcome((want[0], got[0]))
                if want[0] == "ok":
                    if rec.check(got[0] == "ok", f"{name}|{t}|refused", lambda: f"{name} {t} {scale}: {got[1]}"):
                        rec.same(got[1], want[1], f"{name}|{t}|{scale}", f"{name} {t} {scale} n={n} salt={salt}", rtol=tol, atol=tol)
                else:
                    rec.check(got[0] != "ok", f"{name}|{t}|accepted", lambda: f"{name} {t} {scale}: {got[1]} but floats give {want[1]}")


# Columns of different types together: every assignment of these to at most three columns, and the
# cyclic ones (from each start, by each step) to more.
MIX = ("Int8", "Int32", "UInt8", "UInt64", "Float64")


def assignments(k):
    if k <= 3:
        return list(product(MIX, repeat=k))
    return [tuple(MIX[(i * step + s) % 5] for i in range(k)) for s in range(5) for step in (1, 2)]


def mixed_cases(tier):
    for name in NAMES:
        cols = sorted(used(ITEMS[name]) & set(FLOATS))
        if name not in SHORTHANDS and len(cols) >= 2:
            for a in assignments(len(cols)):
                yield [name, dict(zip(cols, a)), tier]


def mixed_run(case, rec):
    name, types, tier = case
    it = ITEMS[name]
    for n, salt in ((max(it.min_n + 2, 8), 1), (max(it.min_n + 3, 25), 2)) if tier == "quick" else ((max(it.min_n + k, 8), k) for k in range(1, 9)):
        # numbers that every type holds
        _, ref = make(n, "UInt8", "small", salt, None)
        ref = ref.with_columns(pl.col(c) for c in types)
        typed = ref.with_columns(pl.col(c).cast(getattr(pl, t)) for c, t in types.items())
        want, got = value(ref, it), value(typed, it)
        rec.state()
        rec.trans(2)
        rec.outcome((want[0], got[0]))
        if rec.check(got[0] == want[0], f"{name}|outcome", lambda: f"{name} {types}: {got} but floats give {want}"):
            if want[0] == "ok":
                rec.same(got[1], want[1], f"{name}|mixed", f"{name} {types} n={n} salt={salt}", rtol=1e-9, atol=1e-9)


FAMILIES = [
    Family("types", cases, run, "every numeric expression of the catalogue x 8 integer types and Float32 x 3 ranges of values (small, the whole range, the end points) x 2 lengths x 3 fillings, and 700 and 1300 rows, against the same numbers in Float64 and Int64"),
    Family("mixed", mixed_cases, mixed_run, "every assignment of 5 types to the columns of expressions of 2 or 3 columns, 10 assignments to more; 2 (8) frames"),
]
