"""P18: text cleaning, case conversion, stemming, stopwords, tokens and numbers, by independent reimplementation."""
from itertools import product
import re
import unicodedata
import warnings

import polars as pl
import polars_ds as pds

from ..core import Family
from ..porter2 import stem
from ..strs import words

warnings.simplefilter("ignore", DeprecationWarning)

STOP = set("""
a about above after again against ain all am an and any are aren aren't as at be because been before being below between both but by can couldn
couldn't d did didn didn't do does doesn doesn't doing don don't down during each few for from further had hadn hadn't has hasn hasn't have haven
haven't having he her here hers herself him himself his how i if in into is isn isn't it it's its itself just ll m ma me mightn mightn't more most
mustn mustn't my myself needn needn't no nor not now o of off on once only or other our ours ourselves out over own re s same shan shan't she she's
should should've shouldn shouldn't so some such t than that that'll the their theirs them themselves then there these they this those through to too
under until up ve very was wasn wasn't we were weren weren't what when where which while who whom why will with won't wouldn wouldn't y you you'd
you'll you're you've your yours yourself yourselves
""".split())


def mismatch(rec, key, got, want, rows, ctx=""):
    rec.trace(len(want))
    if len(got) != len(want):
        rec.fail(key, f"{len(got)} rows for {len(want)} {ctx}")
        return
    for g, w, r in zip(got, want, rows):
        if g != w or (g is None) != (w is None):
            rec.fail(key, f"{r!r}: {g!r} want {w!r} {ctx}")
            return


# ---------------------------------------------------------------- stemming
SPACES = {"aebyslt": 5, "ingedb": 6, "y'saw": 5, "eltxzn": 5, "ousicm": 5}
BASES = ("hop hope rat relat agree generous commun arsen gener communic univers skies dy cri by say happi differ predic condition valen hesit digit conform "
         "radic analog vietnam oper feudal decisiv hopeful callous formal sensit sensibl triplic form electr good reviv allow infer airlin gyroscop adjust "
         "irrit replac depend adopt commun activ angular effect bowdler rate ceas control roll y sta enjoy beautif argu tee flee knee sur ow ax").split()
SUFFIX = ("'s s' es s ed ing edly ingly eed eedly ly ness ful less ation ational tional ization izer alism aliti alli fulness ousli ousness iveness iviti biliti "
          "bli fulli lessli ogi logi li alize icate iciti ical ative al ance ence er ic able ible ant ement ment ent ism ate iti ous ive ize ion sion tion "
          "e le ll y ies ied ated bled ized sses us ss").split()
EXC = "skis skies dying lying tying idly gently ugly early only singly sky news howe atlas cosmos bias andes inning outing canning herring earring proceed exceed succeed".split()


FLOATS = ["infinity", "inf", "nan"]  # words that parse as floating point numbers
AZ = "abcdefghijklmnopqrstuvwxyz"


def stem_cases(tier):
    for al, n in SPACES.items():
        for p in al:
            yield ["space", al, p]
    for b in BASES:
        yield ["base", b, tier]
    for c in AZ:
        yield ["letters", c, tier]
    yield ["exceptions", "", ""]


def stem_words(case):
    kind, a, b = case
    if kind == "space":
        return [b + w for w in words(a, SPACES[a] - 1)]
    if kind == "letters":  # every pair of letters at the end and every letter at the start of a stem
        stems = ["bo" + a + c for c in AZ] + ["tra" + c + a for c in "aeiouy"] + [a + x for x in ("", "at", "eet", "ross", "yan")] + ["ge" + a]
        if b != "quick":
            stems += ["wea" + a + c for c in AZ] + [a + c for c in AZ] + [a + "ur" + c for c in AZ] + ["un" + a + "o" + c for c in AZ]
        return [p + t for p in stems for t in [""] + SUFFIX]
    if kind == "base":
        second = [""] + (SUFFIX if b != "quick" else SUFFIX[::2])
        return [a + s + t for s in [""] + SUFFIX for t in second]
    return [w + s for w in EXC + FLOATS for s in ("", "s", "ed", "ing", "'s", "ly", "e")] + ["un" + w for w in EXC] + sorted(STOP)


def number(w):
    """A numeral; words such as "infinity" and "nan", which float() also reads, are not."""
    if not any(c in "0123456789" for c in w):
        return False
    try:
        float(w.replace("_", "?"))
        return True
    except ValueError:
        return False


def stem_run(case, rec):
    ws = list(dict.fromkeys(w for w in stem_words(case) if not number(w)))
    rec.state(len(ws))
    rec.trans(4)
    df = pl.DataFrame({"a": ws + [None]})
    out = df.select(k=pds.str_snowball("a", no_stopwords=False), d=pds.str_snowball("a"), s=pds.is_stopword("a"))
    st = [stem(w) for w in ws]
    mismatch(rec, "stem", out["k"].to_list(), st + [None], ws + [None])
    mismatch(rec, "stem without stopwords", out["d"].to_list(), ["" if w in STOP else s for w, s in zip(ws, st)] + [None], ws + [None])
    mismatch(rec, "stopword", out["s"].to_list(), [w in STOP for w in ws] + [None], ws + [None])
    rec.outcome((tuple(case), len(set(st))))


def stop_cases(tier):
    return [[k] for k in range(8)]


def stop_run(case, rec):
    """Every stopword, and every string one deletion, insertion, substitution or case change away."""
    (part,) = case
    near = []
    for w in sorted(STOP)[part::8]:
        near += [w, w.upper(), w.capitalize(), w + " ", " " + w]
        for i in range(len(w) + 1):
            near += [w[:i] + w[i + 1:]] + [w[:i] + c + w[i:] for c in "abcdefghijklmnopqrstuvwxyz'"] + [w[:i] + c + w[i + 1:] for c in "abcdefghijklmnopqrstuvwxyz'"]
    near = list(dict.fromkeys(near))
    rec.state(len(near))
    rec.trans()
    mismatch(rec, "stopword", pl.DataFrame({"a": near}).select(pds.is_stopword("a")).to_series().to_list(), [w in STOP for w in near], near)
    nums = ["12", "0", "-3", "1.5", "+7", ".5", "1e5", "007", "2.", "1e-3", "1E9", "-0.0", "1" * 400, "9e999"]
    rec.trans()
    mismatch(rec, "numbers", pl.DataFrame({"a": nums}).select(pds.str_snowball("a", no_stopwords=bool(part % 2))).to_series().to_list(), [""] * len(nums), nums)
    rec.outcome(part)


# ---------------------------------------------------------------- case conversion
WORDS = ["a", "ab", "hello", "x1", "big2big"]


def case_cases(tier):
    return [[n] for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4))]


def case_run(case, rec):
    (n,) = case
    src, want = [], {k: [] for k in ("camel", "snake", "pascal", "constant")}
    for ws in product(WORDS, repeat=n):
        cap = [w[0].upper() + w[1:] for w in ws]
        forms = {sep.join(v) for sep in " _-" for v in (ws, cap, [w.upper() for w in ws])}
        if not any(c.isdigit() for w in ws[:-1] for c in w[-1:]) and all(len(w) > 1 for w in ws[:-1]):
            forms |= {ws[0] + "".join(cap[1:]), "".join(cap)}
        for f in forms:
            src.append(f)
            want["camel"].append(ws[0] + "".join(cap[1:]))
            want["pascal"].append("".join(cap))
            want["snake"].append("_".join(ws))
            want["constant"].append("_".join(ws).upper())
    rec.state(len(src))
    rec.trans(4)
    df = pl.DataFrame({"a": src + [None, ""]})
    out = df.select(camel=pds.to_camel_case("a"), snake=pds.to_snake_case("a"), pascal=pds.to_pascal_case("a"), constant=pds.to_constant_case("a"))
    for k in want:
        mismatch(rec, k, out[k].to_list(), want[k] + [None, ""], src + [None, ""])
    rec.outcome(n)


# ---------------------------------------------------------------- Unicode
def code_points():
    return [c for c in range(0x110000) if unicodedata.category(chr(c)) not in ("Cn", "Cs", "Co")]


def uni_cases(tier):
    return [["points", k] for k in range(16)] + [["combined", k] for k in range(8)]


MARKS = ["\u0301", "\u0327", "\u0323", "\u0345", "\u0300"]
BASECH = ["a", "e", "C", "é", "ç", "Å", "\u212b", "ﬁ", "½", "\u1100", "\u1161", "\u11a8", "가", " ", "ß", "ㄱ"]


def uni_run(case, rec):
    kind, k = case
    if kind == "points":
        rows = [chr(c) for c in code_points()[k::16]]
        rows += [f"x{c}y" for c in rows[::7]]
    else:
        rows = [b + m for b in BASECH[k::8] for n in range(4) for m in map("".join, product(MARKS, repeat=n))]
        rows += [b + c + d for b in BASECH[k::8] for c in BASECH for d in BASECH + MARKS]
    rec.state(len(rows))
    rec.trans(7)
    df = pl.DataFrame({"a": rows + [None]}, schema={"a": pl.String})
    out = df.select(NFC=pds.normalize_string("a", "NFC"), NFD=pds.normalize_string("a", "NFD"), NFKC=pds.normalize_string("a", "NFKC"), NFKD=pds.normalize_string("a", "NFKD"),
                    dia=pds.remove_diacritics("a"), non=pds.replace_non_ascii("a"), rep=pds.replace_non_ascii("a", "?!"))
    for f in ("NFC", "NFD", "NFKC", "NFKD"):
        mismatch(rec, f, out[f].to_list(), [unicodedata.normalize(f, r) for r in rows] + [None], rows + [None])
    ascii_only = lambda s, v="": "".join(c if ord(c) < 128 else v for c in s)
    mismatch(rec, "remove_diacritics", out["dia"].to_list(), [ascii_only(unicodedata.normalize("NFD", r)) for r in rows] + [None], rows + [None])
    mismatch(rec, "replace_non_ascii", out["non"].to_list(), [ascii_only(r) for r in rows] + [None], rows + [None])
    mismatch(rec, "replace_non_ascii value", out["rep"].to_list(), [ascii_only(r, "?!") for r in rows] + [None], rows + [None])
    rec.outcome((kind, k))


# ---------------------------------------------------------------- whitespace, words, numbers, tokens
MAPS = [{"a": "b"}, {"a": "b", "b": "a"}, {"ab": "x y", "a": ""}, {"é": "e", "b": "éé"}, {}]


def word_cases(tier):
    return [[first] for first in "ab é\t\n\u3000"]


def word_run(case, rec):
    rows = [case[0] + w for w in words("ab é\t\u3000", 4)] + ["", "a", " ", " a  b "]
    rec.state(len(rows))
    df = pl.DataFrame({"a": rows + [None]})
    rec.trans(2 + len(MAPS))
    out = df.select(n=pds.normalize_whitespace("a"), s=pds.normalize_whitespace("a", only_spaces=True), **{f"m{i}": pds.map_words("a", m) for i, m in enumerate(MAPS)})
    mismatch(rec, "normalize_whitespace", out["n"].to_list(), [" ".join(r.split()) for r in rows] + [None], rows + [None])
    mismatch(rec, "normalize_whitespace only_spaces", out["s"].to_list(), [re.sub(" +", " ", r) for r in rows] + [None], rows + [None])
    for i, m in enumerate(MAPS):
        got = out[f"m{i}"].to_list()
        plain = [r == " ".join(r.split()) for r in rows]
        want = [" ".join(m.get(w, w) for w in r.split()) for r in rows]
        mismatch(rec, "map_words", [g if p else g.split() for g, p in zip(got, plain)] + got[-1:], [w if p else w.split() for w, p in zip(want, plain)] + [None], rows + [None], f"{m}")
    rec.outcome(case[0])


def num_cases(tier):
    return [[c, 5 if tier == "quick" else 6] for c in ("", "1", "2", ".", ",", "a", "-")]


def num_run(case, rec):
    c, n = case
    rows = [c + w for w in words("12.,a-", n - 1)] if c else ["", "0% of my time", "1% to 25%", "x1.5y.25,1,000", "1.2.3", "٣a"]
    rec.state(len(rows))
    df = pl.DataFrame({"a": rows + [None]})
    find = lambda s: re.findall(r"\d*\.?\d+", s)
    bare = [r.replace(",", "") for r in rows]
    rec.trans(6)
    out = df.select(a=pds.extract_numbers("a"), b=pds.extract_numbers("a", ignore_comma=True), c=pds.extract_numbers("a", join_by="-"), d=pds.extract_numbers("a", ignore_comma=True, join_by="; "))
    mismatch(rec, "numbers", out["a"].to_list(), [find(r) for r in rows] + [None], rows + [None])
    mismatch(rec, "numbers without comma", out["b"].to_list(), [find(r) for r in bare] + [None], rows + [None])
    mismatch(rec, "numbers joined", out["c"].to_list(), ["-".join(find(r)) for r in rows] + [None], rows + [None])
    mismatch(rec, "numbers without comma joined", out["d"].to_list(), ["; ".join(find(r)) for r in bare] + [None], rows + [None])
    f = [r for r in rows if "٣" not in r]
    got = pl.DataFrame({"a": f}).select(pds.extract_numbers("a", dtype=pl.Float64)).to_series().to_list()
    mismatch(rec, "numbers as float", got, [[float(x) for x in find(r)] for r in f], f)
    f = [r for r in f if "." not in r]
    for t in (pl.Int64, pl.UInt32, pl.Float32):
        s = pl.DataFrame({"a": f}, schema={"a": pl.String}).select(pds.extract_numbers("a", dtype=t)).to_series()
        rec.check(s.dtype == pl.List(t), "numbers as integers", lambda: f"{s.dtype}")
        mismatch(rec, "numbers as integers", s.to_list(), [[int(x) for x in find(r)] for r in f], f)
    rec.outcome(c)


def token_cases(tier):
    return [[c] for c in ("cat", "cats", "the", "a", "12", "running", "", "infinity", "nan", "1e5", "inf")]


def token_run(case, rec):
    ws = ["cat", "cats", "the", "a", "12", "running", "run", "Éa"]
    rows = [s.join([case[0], *w]) for n in (1, 2, 3) for w in product(ws, repeat=n) for s in (" ", ", ")]
    rec.state(len(rows))
    rec.trans(3)
    out = pl.DataFrame({"a": rows + [None]}).select(a=pds.str_tokenize("a"), b=pds.str_tokenize("a", stem=True), c=pds.str_tokenize("a", pattern="[a-c]+"))
    find = lambda r: re.findall(r"\b\w\w+\b", r)
    mismatch(rec, "tokens", out["a"].to_list(), [find(r) for r in rows] + [None], rows + [None])
    mismatch(rec, "tokens by pattern", out["c"].to_list(), [re.findall("[a-c]+", r) for r in rows] + [None], rows + [None])
    want = [sorted({stem(w) for w in find(r) if w not in STOP and not number(w)}) for r in rows]
    mismatch(rec, "stemmed tokens", [None if g is None else sorted(g) for g in out["b"].to_list()], want + [None], rows + [None])
    rec.outcome(case[0])


FAMILIES = [
    Family("stem", stem_cases, stem_run, "every word up to 5 or 6 letters over five small alphabets, 65 bases x 66 suffixes x 33 (66) suffixes, every pair of letters before each suffix, exceptional forms: the stem, with stopwords kept or mapped to the empty string"),
    Family("stopwords", stop_cases, stop_run, "every stopword and every string one edit or case change away; numbers"),
    Family("case", case_cases, case_run, "every sequence of 1 to 3 (4) of 5 words x 9 to 11 ways of writing it: camel, snake, Pascal and constant case"),
    Family("unicode", uni_cases, uni_run, "every assigned code point, and bases with up to 3 combining marks or 2 further characters: NFC, NFD, NFKC, NFKD, diacritics and non-ASCII removal"),
    Family("words", word_cases, word_run, "every string up to 5 over {a, b, é, space, tab, ideographic space}: whitespace normalisation, word mapping"),
    Family("numbers", num_cases, num_run, "every string up to 5 (6) over {1, 2, '.', ',', a, -}: extraction as strings, joined, floats and integers"),
    Family("tokens", token_cases, token_run, "every sequence of 2 to 4 of 8 words with separators: tokens, unique stems"),
]
