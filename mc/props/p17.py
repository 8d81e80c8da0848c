"""P17: bounded string filters, the nearest string, vocabulary similarity and n-gram set similarities."""
from itertools import product

import polars as pl
import polars_ds as pds
from polars_ds.exprs.string import str_overlap_coeff

from .. import strs
from ..core import Family
from .p16 import LENS, distinct, known, text, variants

SPACES = {"abc": ("abc", 4, 5), "multibyte": ("aé😀", 3, 4), "ab": ("ab", 6, 7)}


def space(name, tier):
    al, q, t = SPACES[name]
    return strs.words(al, q if tier == "quick" else t)


def chunk_cases(tier):
    for name in SPACES:
        for lo in range(0, len(space(name, tier)), 16):
            yield [name, tier, lo]


def mismatch(rec, key, got, want, rows, ctx):
    rec.trace(len(want))
    if len(got) != len(want):
        rec.fail(key, f"{len(got)} rows for {len(want)} {ctx}")
        return
    for g, w, r in zip(got, want, rows):
        if g is None or w is None or isinstance(w, (bool, str)):
            bad = g is not w if not isinstance(w, str) else g != w
        else:
            bad = abs(g - w) > 1e-12
        if bad:
            rec.fail(key, f"{r}: {g} want {w} {ctx}")
            return


def filter_run(case, rec):
    name, tier, lo = case
    ws = space(name, tier)
    mine = ws[lo:lo + 16]
    pairs = [(a, b) for a in mine for b in ws] + [(None, "a"), ("a", None)]
    rec.state(len(pairs))
    lv = [None if a is None or b is None else strs.lev(a, b) for a, b in pairs]
    hm = [None if a is None or b is None else strs.hamming(a, b) for a, b in pairs]
    df = pl.DataFrame(pairs, schema={"a": pl.String, "b": pl.String}, orient="row")
    null = [a is None or b is None for a, b in pairs]
    for bound in range(5):
        wl = [None if z else d <= bound for z, d in zip(null, lv)]
        wh = [None if z else d is not None and d <= bound for z, d in zip(null, hm)]
        for par in (False, True):
            rec.trans(2)
            out = df.select(l=pds.filter_by_levenshtein("a", "b", bound, parallel=par), h=pds.filter_by_hamming("a", "b", bound, parallel=par))
            mismatch(rec, "levenshtein filter", out["l"].to_list(), wl, pairs, f"bound={bound}")
            mismatch(rec, "hamming filter", out["h"].to_list(), wh, pairs, f"bound={bound}")
        sub = pl.DataFrame({"b": ws})
        for i, a in enumerate(mine):
            rec.trans(2)
            par = bool((i + bound) % 2)
            out = sub.select(l=pds.filter_by_levenshtein("b", pl.lit(a), bound, parallel=par), h=pds.filter_by_hamming("b", pl.lit(a), bound, parallel=par))
            s = slice(i * len(ws), (i + 1) * len(ws))
            mismatch(rec, "levenshtein filter literal", out["l"].to_list(), wl[s], ws, f"{a!r} bound={bound}")
            mismatch(rec, "hamming filter literal", out["h"].to_list(), wh[s], ws, f"{a!r} bound={bound}")
    rec.outcome((name, lo))


# ---------------------------------------------------------------- n-grams
def grams(w, n):
    b = w.encode()
    return {b} if len(b) < n else {b[i:i + n] for i in range(len(b) - n + 1)}


def ngram_refs(a, b, n):
    x, y = grams(a, n), grams(b, n)
    i = len(x & y)
    return {"jaccard": i / len(x | y), "dice": 2 * i / (len(x) + len(y)), "overlap": i / min(len(x), len(y)),
            "tversky": i / (i + 0.3 * len(x - y) + 2.0 * len(y - x)), "tversky1": i / (i + len(x - y) + len(y - x))}


def ngram_exprs(o, n, par):
    k = dict(substr_size=n, parallel=par)
    return dict(jaccard=pds.str_jaccard("a", o, **k), dice=pds.str_sorensen_dice("a", o, **k), overlap=str_overlap_coeff("a", o, **k),
                tversky=pds.str_tversky_sim("a", o, 0.3, 2.0, **k), tversky1=pds.str_tversky_sim("a", o, 1.0, 1.0, **k))


def ngram_run(case, rec):
    name, tier, lo = case
    ws = [w for w in space(name, tier) if w]
    mine = ws[lo:lo + 16]
    if not mine:
        return
    pairs = [(a, b) for a in ws for b in mine]
    rec.state(len(pairs) * 4)
    for n in (1, 2, 3, 4):
        refs = [ngram_refs(a, b, n) for a, b in pairs]
        df = pl.DataFrame(pairs + [(None, "a"), ("a", None)], schema={"a": pl.String, "b": pl.String}, orient="row")
        for par in (False, True):
            rec.trans(5)
            out = df.select(**ngram_exprs("b", n, par))
            for k in out.columns:
                mismatch(rec, f"ngram|{k}", out[k].to_list(), [r[k] for r in refs] + [None, None], pairs, f"n={n}")
        sub = pl.DataFrame({"a": ws})
        for i, b in enumerate(mine):
            rec.trans(5)
            out = sub.select(**ngram_exprs(pl.lit(b), n, bool(i % 2)))
            for k in out.columns:
                mismatch(rec, f"ngram literal|{k}", out[k].to_list(), [refs[j * len(mine) + i][k] for j in range(len(ws))], ws, f"{b!r} n={n}")
    rec.outcome((name, lo))


# ---------------------------------------------------------------- nearest string, vocabulary
POOL = [None, "", "a", "ab", "abc", "xbc", "xyz", "é", "abcd"]


def near_cases(tier):
    for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for first in range(len(POOL)):
            yield [k, first]
    for k in (9, 40, 300, 1100):
        yield [k, None]


def near_long(k):
    """Columns with their nearest at either end, in the middle, several times, or nowhere."""
    far = [(None, "xyzxyz", "qqqqqq", "abcdefg", "")[i % 5] for i in range(k)]
    yield far
    for at in (0, 1, k // 2, k - 2, k - 1):
        for w, u in (("abc", None), ("abd", "xbd"), ("b", "é"), ("c", "bc")):
            col = list(far)
            col[at] = w
            if u:
                col[(at * 3 + 5) % k] = u
            yield col


def near_run(case, rec):
    k, first = case
    for col in near_long(k) if first is None else ([POOL[first], *rest] for rest in product(POOL, repeat=k - 1)):
        df = pl.DataFrame({"a": col}, schema={"a": pl.String})
        rec.state()
        q = [(m, w, t) for m in ("lv", "hamming") for w in ("", "abc", "b") for t in (1, 2, 100)]
        rec.trans(len(q))
        out = df.select(pds.str_nearest("a", w, threshold=t, metric=m).alias(str(i)) for i, (m, w, t) in enumerate(q))
        rec.check(out.height == 1, "nearest|rows", f"{col}: {out.height}")
        for (m, w, t), got in zip(q, out.row(0)):
            d = {}
            for s in col:
                if s is not None:
                    x = strs.lev(s, w) if m == "lv" else strs.hamming(s, w)
                    if x is not None and x <= t:
                        d[s] = x
            want = {s for s, x in d.items() if x == min(d.values())} or {None}
            rec.check(got in want, f"nearest|{m}", lambda: f"{col} nearest to {w!r} within {t} ({m}): {got!r}, want one of {want}")
        rec.outcome(repr(out.row(0)[:3]))


VOC = ["apple", "", "aple", "é", "elppa", "banana"]
SIMS = {"lv": strs.lev_sim, "dlv": strs.dlev_sim, "osa": strs.osa_sim, "jw": strs.jw}


def vocab_cases(tier):
    return [[m, list(v)] for m in SIMS for n in (1, 2, 3) for v in product(VOC, repeat=n) if n < 3 or tier != "quick" or v[0] == "apple"] + [[m, long_vocab(n)] for m in SIMS for n in (7, 20, 45)]


def long_vocab(n):
    base = ["apple", "bandana", "é", "", "aplpe", "grape", "papaya", "naïve", "apples"]
    return [base[i] if i < len(base) else base[i % 9][::-1] + "xyz"[: i % 4] * (i // 9) for i in range(n)]


def vocab_run(case, rec):
    m, vocab = case
    words = ["apple", "aplpe", "banana", "", "x", "paple", "é"]
    df = pl.DataFrame({"a": words})
    sims = {w: [SIMS[m](w, v) for v in vocab] for w in words}
    avgs = [sum(s) / len(s) for s in sims.values()]
    # thresholds that are not within rounding of a value
    for t in (0.2, 0.45, 0.5, 0.55, 0.81, 0.95, 1.0):
        rec.state(len(words))
        rec.trans(3)
        out = df.select(**{s: pds.similar_to_vocab("a", vocab, t, metric=m, strategy=s) for s in ("avg", "all", "any")})
        for i, w in enumerate(words):
            got = out.row(i, named=True)
            near = [abs(x - t) < 1e-9 and x != t for x in sims[w]]
            if not any(near):
                rec.check(got["all"] == all(x >= t for x in sims[w]) and got["any"] == any(x >= t for x in sims[w]), f"vocab|{m}",
                          lambda: f"{w!r} vs {vocab} threshold {t}: {got}, similarities {sims[w]}")
            exact = len(vocab) in (1, 2, 4) and all(x * 8 % 1 == 0 for x in sims[w])
            if abs(avgs[i] - t) > 1e-9 or exact:
                rec.check(got["avg"] == (avgs[i] >= t), f"vocab avg|{m}", lambda: f"{w!r} vs {vocab} threshold {t}: {got}, average {avgs[i]}")
        rec.outcome(repr(out.rows()))


# ---------------------------------------------------------------- long strings
BOUNDS = (0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 63, 64, 65, 100, 149, 1000)


def long_cases(tier):
    return [[kind, n, tier] for kind in (("period", "mixed") if tier == "quick" else ("period", "mixed", "alpha")) for n in LENS]


def long_run(case, rec):
    """Strings longer than the blocks of the bit-parallel algorithms: bounds, n-grams, the nearest of a column."""
    kind, n, tier = case
    s = text(kind, n)
    others = list(dict.fromkeys([*variants(s), *(text(k, m) for k in ("period", "mixed") for m in (1, n // 2, max(n - 9, 0), n, n + 5, 64, 65, 129))]))
    far = [o[:i] + c * 2 + o[i + 3:] for o in variants(s) for i in range(1, n, 11 if tier == "quick" else 5) for c in "Qé"]
    others = list(dict.fromkeys([*others, *far]))
    pairs = [(o, s) for o in others] + [(None, s), (s, None)]
    rec.state(len(pairs))
    lv = [strs.lev(o, s) for o in others]
    hm = [strs.hamming(o, s) for o in others]
    df = pl.DataFrame(pairs, schema={"a": pl.String, "b": pl.String}, orient="row")
    for bound in BOUNDS:
        wl = [d <= bound for d in lv]
        wh = [d is not None and d <= bound for d in hm]
        for par in (False, True):
            rec.trans(4)
            for o, end in (("b", [None, None]), (pl.lit(s), [None, True])):
                out = df.select(l=pds.filter_by_levenshtein("a", o, bound, parallel=par), h=pds.filter_by_hamming("a", o, bound, parallel=par))
                tag = "" if o is not None and isinstance(o, str) else " literal"
                mismatch(rec, f"long|levenshtein filter{tag}", out["l"].to_list(), wl + end, pairs, f"bound={bound}")
                mismatch(rec, f"long|hamming filter{tag}", out["h"].to_list(), wh + end, pairs, f"bound={bound}")
    for order in (others, others[::-1], others[1:] + [None], [*others[len(others) // 2:], *others[1:len(others) // 2]]):
        for metric, dist in (("lv", dict(zip(others, lv))), ("hamming", dict(zip(others, hm)))):
            d = {o: dist[o] for o in order if o is not None}
            for t in (1, 2, 3, 4, 5, 16, 64, 65, 1000):
                rec.trans()
                near = {o: v for o, v in d.items() if v is not None and v <= t}
                want = {o for o, v in near.items() if v == min(near.values())} or {None}
                got = pl.DataFrame({"a": order}, schema={"a": pl.String}).select(pds.str_nearest("a", s, threshold=t, metric=metric)).item()
                rec.check(got in want, f"long|nearest {metric}", lambda: f"{len(order)} strings, length {n}, within {t}: {got!r}, want one of {want}")
    words = [o for o in others if o][:40]
    if s:
        for size in (1, 2, 3, 5, 17, 64):
            refs = [ngram_refs(o, s, size) for o in words]
            sub = pl.DataFrame({"a": words, "b": [s] * len(words)})
            for o, par in (("b", False), ("b", True), (pl.lit(s), False), (pl.lit(s), True)):
                rec.trans(5)
                out = sub.select(**ngram_exprs(o, size, par))
                for k in out.columns:
                    mismatch(rec, f"long|ngram {k}", out[k].to_list(), [r[k] for r in refs], words, f"{s!r} n={size}")
    rec.outcome((kind, n))


def known_cases(tier):
    return [[n] for n in (300, 5000, 66000) + ((140000,) if tier != "quick" else ())]


def known_run(case, rec):
    """Very long strings: bounds around distances known by construction, and n-gram sets of tens of thousands."""
    n, = case
    s = distinct(n)
    rows = list(known(n))
    others = ["".join(r[0]) for r in rows]
    df = pl.DataFrame({"a": others, "b": ["".join(s)] * len(others)})
    lv, hm = [r[2] for r in rows], [r[4] for r in rows]
    for bound in sorted({0, 1, 2, 6, n // 100, n // 50, n // 7, n - 1, n, n + 76, n + 77}):
        for o in ("b", pl.lit("".join(s))):
            for par in (False, True) if n <= 20000 else ((bound + isinstance(o, str)) % 2 == 0,):
                rec.state(len(rows))
                rec.trans(2)
                out = df.select(l=pds.filter_by_levenshtein("a", o, bound, parallel=par), h=pds.filter_by_hamming("a", o, bound, parallel=par))
                mismatch(rec, "known|levenshtein filter", out["l"].to_list(), [d <= bound for d in lv], range(len(rows)), f"length {n} bound={bound}")
                mismatch(rec, "known|hamming filter", out["h"].to_list(), [d is not None and d <= bound for d in hm], range(len(rows)), f"length {n} bound={bound}")
    for t in (1, 2, n // 7 - 1, n // 7, n):
        rec.trans()
        got = pl.DataFrame({"a": others[1:]}).select(pds.str_nearest("a", "".join(s), threshold=t)).item()
        want = {o for o, d in zip(others[1:], lv[1:]) if d == min(lv[1:]) <= t} or {None}
        rec.check(got in want, "known|nearest", lambda: f"length {n} within {t}: string {others.index(got) if got in others else got}")
    for size in (2, 3, 7):
        refs = [ngram_refs(o, "".join(s), size) for o in others]
        for o, par in (("b", False), ("b", True), (pl.lit("".join(s)), False)):
            rec.trans(5)
            out = df.select(**ngram_exprs(o, size, par))
            for k in out.columns:
                mismatch(rec, f"known|ngram {k}", out[k].to_list(), [r[k] for r in refs], range(len(rows)), f"length {n} n={size}")
    rec.outcome(n)


FAMILIES = [
    Family("filters", chunk_cases, filter_run, "every pair of strings over {a,b,c} up to 4 (5), {a,é,😀} up to 3 (4), {a,b} up to 6 (7) characters x bounds 0..4, columns and literals, parallel and not"),
    Family("ngrams", chunk_cases, ngram_run, "every pair of the non-empty ones x n-gram sizes 1..4, columns and literals, parallel and not"),
    Family("nearest", near_cases, near_run, "every column of 1 to 3 (4) of 9 strings (null included) x 3 words x thresholds 1, 2, 100 x both metrics"),
    Family("vocab", vocab_cases, vocab_run, "every vocabulary of 1, 2 (and 3) of 6 words x 4 metrics x 3 strategies x 7 thresholds"),
    Family("long strings", long_cases, long_run, "19 lengths 0..150 around the 16/32/64/128 blocks of the bit-parallel algorithms, ASCII and mixed: up to 300 edited and foreign strings x 18 bounds, 9 thresholds for the nearest string in 4 orders, 6 n-gram sizes, columns and literals, parallel and not"),
    Family("very long", known_cases, known_run, "strings of 300 to 66,000 (140,000) different characters, edits whose distances are known by construction x 11 bounds around them, the nearest, and sets of up to 200,000 n-grams of 3 sizes"),
]
