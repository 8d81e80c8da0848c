"""P16: string distances and similarities against their definitions, every pair of short strings."""
import polars as pl
import polars_ds as pds

from .. import strs
from ..core import Family

M = {
    "leven": (lambda c, o, **k: pds.str_leven(c, o, **k), strs.lev),
    "leven_sim": (lambda c, o, **k: pds.str_leven(c, o, return_sim=True, **k), strs.lev_sim),
    "d_leven": (lambda c, o, **k: pds.str_d_leven(c, o, **k), strs.dlev),
    "d_leven_sim": (lambda c, o, **k: pds.str_d_leven(c, o, return_sim=True, **k), strs.dlev_sim),
    "osa": (lambda c, o, **k: pds.str_osa(c, o, **k), strs.osa),
    "osa_sim": (lambda c, o, **k: pds.str_osa(c, o, return_sim=True, **k), strs.osa_sim),
    "lcs_dist": (lambda c, o, **k: pds.str_lcs_seq(c, o, return_sim=False, **k), strs.lcs_dist),
    "lcs_sim": (lambda c, o, **k: pds.str_lcs_seq(c, o, **k), strs.lcs_sim),
    "hamming": (lambda c, o, **k: pds.str_hamming(c, o, **k), strs.hamming),
    "hamming_pad": (lambda c, o, **k: pds.str_hamming(c, o, pad=True, **k), strs.hamming_padded),
    "fuzz": (lambda c, o, **k: pds.str_fuzz(c, o, **k), strs.indel_sim),
    "jaro": (lambda c, o, **k: pds.str_jaro(c, o, **k), strs.jaro),
    "jw": (lambda c, o, **k: pds.str_jw(c, o, **k), strs.jw),
    "jw.25": (lambda c, o, **k: pds.str_jw(c, o, weight=0.25, **k), lambda a, b: strs.jw(a, b, 0.25)),
}
SPACES = {  # name -> alphabet, length quick, length thorough
    "abc": ("abc", 5, 5), "ab": ("ab", 7, 8), "multibyte": ("aé😀", 4, 5),
}


def pair_cases(tier):
    for name, (al, q, t) in SPACES.items():
        ws = strs.words(al, q if tier == "quick" else t)
        for lo in range(0, len(ws), 16):
            yield [name, q if tier == "quick" else t, lo]


def compare(rec, df, other, want, tag, parallel):
    exprs = [f("a", other, parallel=parallel).alias(k) for k, (f, _) in M.items()]
    rec.trans(len(exprs))
    got = df.select(exprs)
    a, b = df["a"].to_list(), df["b"].to_list() if "b" in df.columns else None
    for k in M:
        g = got[k].to_list()
        w = want[k]
        if not rec.check(len(g) == len(w), f"{tag}|{k}", lambda: f"{len(g)} rows for {len(w)}"):
            continue
        rec.trace(len(w))
        for i, (x, y) in enumerate(zip(g, w)):
            if (x is None) != (y is None) or (x is not None and (type(x) is not type(y) or abs(x - y) > 1e-9)):
                rec.fail(f"{tag}|{k}", f"{k}({a[i]!r}, {b[i] if b else tag!r}) = {x}, want {y} (parallel={parallel})")
                break


def refs(pairs):
    memo = {}
    out = {k: [] for k in M}
    for k, (_, ref) in M.items():
        for a, b in pairs:
            out[k].append(None if a is None or b is None else ref(a, b))
    return out


def pair_run(case, rec):
    name, n, lo = case
    ws = strs.words(SPACES[name][0], n)
    mine = ws[lo:lo + 16]
    pairs = [(a, b) for a in mine for b in ws] + [(None, mine[0]), (mine[0], None), (None, None)]
    rec.state(len(pairs))
    want = refs(pairs)
    df = pl.DataFrame(pairs, schema={"a": pl.String, "b": pl.String}, orient="row")
    for parallel in (False, True):
        compare(rec, df, "b", want, "columns", parallel)
    for i, a in enumerate(mine):  # every distance here is symmetric: the literal is the other string
        sub = pl.DataFrame({"a": ws + [None]}, schema={"a": pl.String})
        w = {k: v[i * len(ws):(i + 1) * len(ws)] + [None] for k, v in want.items()}
        compare(rec, sub, pl.lit(a, dtype=pl.String), w, "literal", bool(i % 2))
    sub = pl.DataFrame({"a": mine}, schema={"a": pl.String})
    compare(rec, sub, pl.lit(None, dtype=pl.String), {k: [None] * len(mine) for k in M}, "null literal", False)
    for k in M:
        rec.outcome((k, len(set(want[k]))))


LENS = [0, 1, 5, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 96, 127, 128, 129, 130, 150]


def text(kind, n):
    if kind == "period":
        return "".join("abcde"[i % 5] for i in range(n))
    if kind == "mixed":
        return "".join("abé😀z"[(i * i + i // 7) % 5] for i in range(n))
    return "".join("abcdefghijklmnopqrstuvwxyz"[(i * 7 + i // 26) % 26] for i in range(n))


def variants(s):
    n = len(s)
    yield s
    if n > 1:
        yield s[1:]
        yield s[:-1]
        yield s[1] + s[0] + s[2:]
        yield s[:-2] + s[-1] + s[-2]
        yield s[::-1]
    if n > 4:
        m = n // 2
        yield s[:m] + "Q" + s[m:]
        yield s[:m] + s[m + 1:]
        yield s[:m] + "Q" + s[m + 1:]
        yield s[m:] + s[:m]
        yield s[:m - 1] + s[m] + s[m - 1] + s[m + 1:]


def long_cases(tier):
    return [[k, n] for k in (("period", "mixed") if tier == "quick" else ("period", "mixed", "alpha")) for n in LENS]


def long_run(case, rec):
    kind, n = case
    s = text(kind, n)
    others = list(dict.fromkeys(list(variants(s)) + [text(kind, m) for m in (1, 33, 64, 65, 129)]))
    want = refs([(o, s) for o in others])
    rec.state(len(others))
    df = pl.DataFrame({"a": others, "b": [s] * len(others)})
    for parallel in (False, True):
        compare(rec, df, "b", want, "long", parallel)
        compare(rec, df, pl.lit(s), want, "long literal", parallel)
    rec.outcome((kind, n))


# ---------------------------------------------------------------- very long strings, whose distances are known by construction
def distinct(n):
    """n different characters of two and three bytes each."""
    return [chr(i + 0x100 + (0x800 if i >= 0xD700 else 0)) for i in range(n)]


def known(n):
    """(other string, m, osa, lev, lcs, hamming, transpositions) against the string of n different characters."""
    s = distinct(n)
    yield s, 0, 0, n, 0, 0
    for m in sorted({1, 3, n // 100, n // 7}) if n <= 20000 else (n // 7,):
        step = n // (m + 1)
        if step < 3:
            continue
        sub, swp = list(s), list(s)
        for i in range(m):
            at = i * step + 1
            sub[at] = "Q"
            swp[at], swp[at + 1] = swp[at + 1], swp[at]
        yield sub, m, m, n - m, m, 0
        yield swp, m, 2 * m, n - m, 2 * m, m
        yield s + ["Q"] * m, m, m, n, None, 0
        yield s[:-m], m, m, n - m, None, 0
        if 2 * m < n // 2:
            yield s[m:] + s[:m], None, 2 * m, n - m, n, None
    yield ["Q"] * n, n, n, 0, n, 0
    yield ["Q"] * (n + 77), n + 77, n + 77, 0, None, 0


def known_cases(tier):
    out = [[n, o, par] for n in (200, 1000, 4000) for o in ("b", "literal") for par in (False, True)]
    for n in (12000, 66000) + ((140000,) if tier != "quick" else ()):
        out += [[n, "b", True], [n, "literal", False]]
    return out


def known_run(case, rec):
    n, tag, par = case
    s = distinct(n)
    rows = list(known(n))
    others = ["".join(r[0]) for r in rows]
    lens = [len(r[0]) for r in rows]
    pad = [r[4] if r[4] is not None else abs(len(r[0]) - n) + (n if r[3] == 0 else 0) for r in rows]
    top = [max(n, l) for l in lens]
    jaro = [None if r[5] is None else 0.0 if r[3] == 0 else ((r[3] + r[5]) / l + (r[3] + r[5]) / n + r[3] / (r[3] + r[5])) / 3 for r, l in zip(rows, lens)]
    head = [sum(1 for k in range(4) if k < l and all(r[0][j] == s[j] for j in range(k + 1))) for r, l in zip(rows, lens)]
    want = {
        "leven": [r[2] for r in rows], "leven_sim": [1 - r[2] / t for r, t in zip(rows, top)],
        "osa": [r[1] for r in rows], "osa_sim": [None if r[1] is None else 1 - r[1] / t for r, t in zip(rows, top)],
        "lcs_dist": [t - r[3] for r, t in zip(rows, top)], "lcs_sim": [r[3] / t for r, t in zip(rows, top)],
        "hamming": [r[4] for r in rows], "hamming_pad": pad, "fuzz": [2 * r[3] / (n + l) for r, l in zip(rows, lens)],
        "jaro": jaro, "jw": [None if j is None else j + h * 0.1 * (1 - j) if j > 0.7 else j for j, h in zip(jaro, head)],
    }
    if n <= 1000:
        want["d_leven"] = want["osa"]
    open_rows = {"osa", "osa_sim", "d_leven", "jaro", "jw"}
    df = pl.DataFrame({"a": others, "b": ["".join(s)] * len(others)})
    other = "b" if tag == "b" else pl.lit("".join(s))
    rec.state(len(rows))
    rec.trans(len(want))
    got = df.select(M[k][0]("a", other, parallel=par).alias(k) for k in want)
    for k, w in want.items():
        rec.trace(len(w))
        for i, (g, x) in enumerate(zip(got[k].to_list(), w)):
            if x is None and k in open_rows:
                continue
            rec.check((g is None) == (x is None) and (x is None or abs(g - x) <= 1e-9), f"known|{tag}|{k}", lambda: f"{k} of string {i} (length {lens[i]}) against {n} different characters: {g}, want {x} (parallel={par})")
    rec.outcome(n)


FAMILIES = [
    Family("pairs", pair_cases, pair_run, "every ordered pair of strings over {a,b,c} up to 5, over {a,b} up to 7 (8), over {a, é, 😀} up to 4 (5) characters, and nulls, as columns and as literal, parallel and not"),
    Family("long", long_cases, long_run, "lengths 0..150 around the 16/32/64/128 blocks of the bit-parallel algorithms x 11 edits x 5 other lengths"),
    Family("very long", known_cases, known_run, "200 to 66,000 (140,000) different characters against substitutions, swaps, rotations, extensions and truncations of 1 to a seventh of them, distances known by construction"),
]
