"""P31: sampling, down-sampling, volume neutral selection, splits and partitions."""
import math
import warnings
from itertools import combinations, product

import polars as pl
from polars_ds.partition.partition import PartitionHelper
from polars_ds.sample_and_split import sample_and_split as ss

from ..core import Family, outcome_of

SEEDS = (0, 1, 42)


def ids(df):
    return df["id"].to_list()


def subset(rec, key, df, out, ctx):
    """Distinct rows of the frame, unchanged and in their order."""
    i = ids(out)
    ok = out.columns == df.columns and out.schema == df.schema and i == sorted(set(i)) and out.equals(df.filter(pl.col("id").is_in(i)))
    rec.check(ok, f"{key}|rows", lambda: f"{ctx}: {out.rows()}")
    return i


def frame(n, **cols):
    return pl.DataFrame({"id": list(range(n)), "v": [i * 1.5 for i in range(n)], **cols})


# ---------------------------------------------------------------- sample
def sample_cases(tier):
    return [["n", n] for n in (*range(0, 31 if tier == "quick" else 120), 1000)] + [["all", n, k] for n in (3, 4, 5, 6) for k in range(1, n)] + [["bad"]]


FRACS = (0.001, 0.1, 0.25, 1 / 3, 0.5, 0.7, 0.75, 0.9, 0.999)


def sample_run(case, rec):
    if case[0] == "bad":
        df = frame(5)
        for v in (0, -1, 0.0, 1.0, 1.5, -0.5, math.nan, math.inf, "1", None):
            rec.state()
            rec.trans()
            if isinstance(v, float) and math.isnan(v):
                continue
            rec.check(outcome_of(ss.sample, df, v)[0] == "err", f"sample|accepted {v}", lambda: f"{v}")
        return
    if case[0] == "all":
        _, n, k = case
        df = frame(n)
        seen = {}
        S = 200 * math.comb(n, k)
        for s in range(S):
            key = tuple(ids(ss.sample(df, k, seed=s)))
            seen[key] = seen.get(key, 0) + 1
        rec.state(S)
        rec.trans(S)
        rec.check(set(seen) == set(combinations(range(n), k)), "sample|reachable", lambda: f"{n} {k}: {seen}")
        rec.check(all(120 <= c <= 290 for c in seen.values()), "sample|even", lambda: f"{n} {k}: {seen}")
        return
    n = case[1]
    df = frame(n)
    for v in [*range(1, n + 3), *FRACS]:
        want = min(v, n) if isinstance(v, int) else int(n * v)
        for s in SEEDS + (None,):
            rec.state()
            rec.trans(2)
            out = ss.sample(df, v, seed=s)
            got = subset(rec, "sample", df, out, (n, v, s))
            rec.check(len(got) == want, "sample|count", lambda: f"{v} of {n} rows: {got}")
            if s is not None:
                rec.check(ids(ss.sample(df.lazy(), v, s)) == got, "sample|seed", lambda: f"{v} of {n} rows, seed {s}")
    rec.outcome(case)


# ---------------------------------------------------------------- volume neutral, downsample
def volume_cases(tier):
    n = 6 if tier == "quick" else 7
    return [[a, n] for a in (0, 1, 2, None)] + [["long", n] for n in (30, 77, 200, 1200)]


def counts(xs):
    out = {}
    for x in xs:
        out[x] = out.get(x, 0) + 1
    return out


def volume_one(rec, by, ctrl):
    n = len(by)
    df = frame(n, by=pl.Series(by, dtype=pl.Int64), c=pl.Series(ctrl, dtype=pl.String))
    low = min(counts(by).values())
    for target in (None, 1, 2, 100):
        rec.state()
        rec.trans()
        want = {k: min(low, target or low) for k in counts(by)}
        out = ss.volume_neutral(df.lazy() if target else df, pl.col("by"), target_volume=target, seed=n)
        got = subset(rec, "volume", df, out, (by, target))
        rec.check(counts(by[i] for i in got) == want, "volume|counts", lambda: f"{by} target {target}: {counts(by[i] for i in got)} want {want}")
        want = {}
        for c in set(ctrl):
            cc = counts(b for b, d in zip(by, ctrl) if d == c)
            want.update({(c, b): min(min(cc.values()), target or n) for b in cc})
        for control in (pl.col("c"), [pl.col("c")]):
            rec.trans()
            out = ss.volume_neutral(df, pl.col("by"), control=control, target_volume=target, seed=3)
            got = subset(rec, "volume control", df, out, (by, ctrl, target))
            rec.check(counts((ctrl[i], by[i]) for i in got) == want, "volume|control", lambda: f"{by} {ctrl} target {target}: {got} want {want}")


def volume_run(case, rec):
    if case[0] == "long":
        n = case[1]
        for k in range(1, 6):
            volume_one(rec, [(i * i * k + i // 3) % (k + 1) for i in range(n)], ["pq"[(i * k) % 5 % 2] for i in range(n)])
        return
    a, n = case
    for m in range(n):
        for rest in product((0, 1, None) if m > 3 else (0, 1, 2, None), repeat=m):
            by = [a, *rest]
            volume_one(rec, by, ["p" if (i * i + len(by)) % 3 else "q" for i in range(len(by))])
    rec.outcome(case)


def down_cases(tier):
    n = 6 if tier == "quick" else 8
    return [[a, b, n] for a in (0, 1, 2, None) for b in (0, 1, 2, None)] + [["long", k] for k in range(1, 8)]


def down_one(rec, y):
    n = len(y)
    df = frame(n, y=pl.Series(y, dtype=pl.Int64))
    for r1, r2 in ((1, 2), (0.5, 1), (0.5, 0.25), (3, 0.9)):
        for two in (False, True):
            conds = [(pl.col("y") == 1, r1)] + ([(pl.col("y") == 2, r2)] if two else [])
            want = counts(y)
            for v, r in ((1, r1), (2, r2))[: 1 + two]:
                if v in want:
                    want[v] = min(r, want[v]) if isinstance(r, int) else int(want[v] * r)
            want = {k: v for k, v in want.items() if v}
            rec.state()
            rec.trans(2)
            out = ss.downsample(df, *conds, seed=7)
            got = subset(rec, "downsample", df, out, (y, r1, r2))
            rec.check(counts(y[i] for i in got) == want, "downsample|counts", lambda: f"{y} {r1} {r2}: {counts(y[i] for i in got)} want {want}")
            rec.check(ids(ss.downsample(df.lazy(), *conds, seed=7)) == got, "downsample|seed", lambda: f"{y}")


def down_run(case, rec):
    if case[0] == "long":
        k = case[1]
        down_one(rec, [(i * i * k) % 7 % 4 if (i * k) % 11 else None for i in range(40 * k)])
        return
    a, b, n = case
    for m in range(n - 1):
        for rest in product((0, 1, 2, None) if m < 4 else (1, 2, None), repeat=m):
            down_one(rec, [a, b, *rest])
    rec.outcome(case)


# ---------------------------------------------------------------- columns
def cols_cases(tier):
    return [[n] for n in range(1, 7 if tier == "quick" else 8)]


def cols_run(case, rec):
    n = case[0]
    names = [f"c{i}" for i in range(n)]
    for nk in range(n + 1):
        for keep in [*combinations(names, nk), *((*c, "z") for c in combinations(names, nk)), *(("y", *c, "z") for c in combinations(names, nk))] if nk else (None, (), ("z",), ("y", "z")):
            pool = [c for c in names if c not in (keep or ())]
            for k in range(0, n + 2):
                rec.state()
                kp = None if keep is None else list(keep)
                if k > len(pool):
                    rec.trans()
                    rec.check(outcome_of(ss.random_cols, names, k, kp, 1)[0] == "err", "columns|too many", lambda: f"{names} {keep} {k}")
                    continue
                seen = set()
                for s in range(30):
                    rec.trans(2)
                    out = ss.random_cols(names, k, kp, s)
                    rec.check(out[: len(keep or ())] == list(keep or ()) and len(out) == len(keep or ()) + k and out[len(keep or ()):] == [c for c in pool if c in out], "columns|choice", lambda: f"{names} keep {keep} {k}: {out}")
                    rec.check(ss.random_cols(names, k, kp, s) == out, "columns|seed", lambda: f"{names} keep {keep} {k} seed {s}")
                    seen.add(tuple(out))
                rec.check(kp == (None if keep is None else list(keep)), "columns|keep changed", lambda: f"{kp} {keep}")
                if math.comb(len(pool), k) <= 4:
                    rec.check(len(seen) == math.comb(len(pool), k), "columns|reachable", lambda: f"{names} keep {keep} {k}: {seen}")
    rec.outcome(case)


# ---------------------------------------------------------------- split
RATIOS = ([0.5, 0.5], [0.7, 0.2, 0.1], [0.1] * 10, [1 / 3] * 3, [0.6, 0.4], [0.25, 0.25, 0.5], [0.05, 0.9, 0.05], [0.33, 0.33, 0.34])


def split_cases(tier):
    return [[n] for n in (*range(0, 41 if tier == "quick" else 150), 300, 1001)] + [["all", n] for n in (3, 4, 5)] + [["bad"]]


def split_run(case, rec):
    if case[0] == "bad":
        df = frame(6)
        for r in (0.0, 1.0, -0.1, 1.1, [0.5, 0.4], [0.5, 0.6], [0.5, 0.5, 0.5], [1.5]):
            rec.state()
            rec.trans()
            rec.check(outcome_of(ss.split_by_ratio, df, r)[0] == "err", f"split|accepted {r}", lambda: f"{r}")
        return
    if case[0] == "all":
        n = case[1]
        seen, df = {}, frame(n)
        S = 200 * n
        for s in range(S):
            a, _ = ss.split_by_ratio(df, 1.01 / n, s)
            b, _ = ss.split_by_ratio(df, [1.01 / n, 1 - 1.01 / n], s)
            for t in ((0, *ids(a)), (1, *ids(b))):
                seen[t] = seen.get(t, 0) + 1
        rec.state(S)
        rec.trans(2 * S)
        rec.check(set(seen) == set(product((0, 1), range(n))) and all(120 <= c <= 290 for c in seen.values()), "split|even", lambda: f"{n}: {seen}")
        return
    n = case[0]
    df = frame(n)
    for r in [*FRACS, [0.5], *RATIOS]:
        for s in SEEDS + (None,):
            for d in (df, df.lazy()):
                rec.state()
                rec.trans()
                out = ss.split_by_ratio(d, r, s)
                parts = [ids(o) for o in out]
                rr = [r, 1 - r] if isinstance(r, float) else [*r, 0.5] if len(r) == 1 else r
                rec.check(len(out) == len(rr) and all(o.columns == df.columns and o.schema == df.schema for o in out), "split|shape", lambda: f"{r} of {n}: {out}")
                rec.check(sorted(i for p in parts for i in p) == list(range(n)) and all(v == i * 1.5 for o in out for i, v in zip(ids(o), o["v"])), "split|partition", lambda: f"{r} of {n}: {parts}")
                rec.check(all(abs(len(p) - n * v) < len(rr) for p, v in zip(parts, rr)) and [len(p) for p in parts[:-1]] == [int(n * v) for v in rr[:-1]], "split|sizes", lambda: f"{r} of {n}: {[len(p) for p in parts]}")
                if s is not None and d is df:
                    rec.trans()
                    rec.check([ids(o) for o in ss.split_by_ratio(df, r, s)] == parts, "split|seed", lambda: f"{r} of {n} seed {s}")
    rec.outcome(case)


# ---------------------------------------------------------------- partition
def part_cases(tier):
    n = 5 if tier == "quick" else 6
    return [[a, n] for a in ("x", "y z", "", None)] + [["api"], ["clash"]]


def part_run(case, rec):
    if case[0] == "api":
        df = frame(4, s=["a", "b", "a", "b"], k=[1, 2, 1, 2], f=[True, False, None, True])
        for by in ("k", ["k"], ["s", "k"], "v", ["f", "v"]):
            rec.state()
            rec.trans()
            got = outcome_of(PartitionHelper, df, by)
            rec.check(got[0] == "err" and "ValueError" in got[1], f"partition|accepted {by}", lambda: f"{by}: {got}")
        for w in ("df", "whole"):
            p = PartitionHelper(df.lazy(), None, whole_df_name=w)
            rec.check(p.names() == [w] and p.get(w).equals(df) and p.get("other") is None, "partition|whole", lambda: p.parts)
        return
    if case[0] == "clash":  # two different parts with one name: no row may be lost
        words = ("", "|", "a", "a|", "|a", "None", None)
        for s in product(words, repeat=2):
            for f in product(words, repeat=2):
                df = frame(2, s=pl.Series(s, dtype=pl.String), f=pl.Series(f, dtype=pl.String))
                for by in ("s", ["s", "f"]):
                    for sep in ("|", "-"):
                        keys = list(zip(s, f)) if by != "s" else [(v,) for v in s]
                        names = {k: sep.join(map(str, k)) for k in keys}
                        rec.state()
                        rec.trans()
                        got = outcome_of(PartitionHelper, df, by, sep)
                        if len(set(names.values())) == len(names):
                            if rec.check(got[0] == "ok", "partition|refused", lambda: f"{s} {f} by {by} {sep}: {got}"):
                                rec.check({k: ids(v) for k, v in got[1].parts.items()} == {names[k]: [i for i in (0, 1) if keys[i] == k] for k in keys}, "partition|pairs", lambda: f"{s} {f} by {by} {sep}: {got[1].parts}")
                        else:
                            rec.check(got[0] == "err" and "ValueError" in got[1], "partition|clash", lambda: f"{s} {f} by {by} {sep}: {got[1].parts}")
        return
    a, n = case
    for m in range(n):
        for rest in product(("x", "y z", "", None) if m < 4 else ("x", None), repeat=m):
            s = [a, *rest]
            f = [None if v is None else bool(v) == (i % 2 == 0) for i, v in enumerate(s)]
            df = frame(len(s), s=pl.Series(s, dtype=pl.String), f=pl.Series(f, dtype=pl.Boolean))
            for by, keys, sep in (("s", [(v,) for v in s], "|"), (["s"], [(v,) for v in s], "|"), (["s", "f"], list(zip(s, f)), "|"), (["f", "s"], list(zip(f, s)), "--"), ("f", [(v,) for v in f], "|")):
                rec.state()
                rec.trans()
                p = PartitionHelper(df.lazy() if sep == "--" else df, by, separator=sep)
                want = {}
                for i, k in enumerate(keys):
                    want.setdefault(sep.join(map(str, k)), []).append(i)
                rec.check({k: ids(v) for k, v in p.parts.items()} == want and sorted(p.names()) == sorted(want), "partition|parts", lambda: f"{s} {f} by {by}: { {k: ids(v) for k, v in p.parts.items()} } want {want}")
                rec.check(all(p.get(k).equals(df.filter(pl.col("id").is_in(v))) for k, v in want.items()), "partition|rows", lambda: f"{s}")
                for h in (0, 1, 2, 99):
                    rec.check({k: ids(v) for k, v in p.head(h).items()} == {k: v[:h] for k, v in want.items()}, "partition|head", lambda: f"{s} {h}")
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    got = p.apply(lambda k, d: (k, ids(d), 1 / (d.height - 1)))
                bad = [k for k, v in want.items() if len(v) == 1]
                rec.check(got == {k: (k, v, 1 / (len(v) - 1)) for k, v in want.items() if len(v) > 1} and len(w) == len(bad), "partition|apply", lambda: f"{s}: {got}")
    rec.outcome(case)


# ---------------------------------------------------------------- very long frames
def long_cases(tier):
    return [[n, s] for n in (20000, 70001) + ((300000,) if tier != "quick" else ()) for s in SEEDS]


def long_run(case, rec):
    """Every row once, every count as asked for, every run of rows represented, in frames of tens of thousands of rows."""
    n, seed = case
    seg = [(i * i + i // 7) % 5 if i % 6 else None for i in range(n)]
    df = frame(n, y=pl.Series(seg, dtype=pl.Int64), c=pl.Series(["pq"[i % 3 % 2] for i in range(n)]))

    def spread(key, blocks, share, ctx):
        """Blocks of 1000 rows hold about their share: more than eight standard deviations off is not chance."""
        for b in range(0, n - 999, 1000):
            c = blocks[b // 1000]
            dev = 8 * math.sqrt(1000 * share * (1 - share)) + 1
            if not rec.check(abs(c - 1000 * share) <= dev, key, lambda: f"{ctx}: {c} of the rows from {b}, the share is {share}"):
                return

    for v in (1, 999, 65535, 65537, n - 1, n, n + 5, *FRACS):
        want = min(v, n) if isinstance(v, int) else int(n * v)
        rec.state()
        rec.trans(2)
        out = ss.sample(df, v, seed=seed)
        got = subset(rec, "sample", df, out, (n, v, seed))
        blocks = [0] * (n // 1000 + 1)
        for i in got:
            blocks[i // 1000] += 1
        rec.check(len(got) == want, "sample|count", lambda: f"{v} of {n} rows: {len(got)}")
        rec.check(ids(ss.sample(df.lazy(), v, seed)) == got, "sample|seed", lambda: f"{v} of {n} rows, seed {seed}")
        if 0 < want < n:
            spread("sample|spread", blocks, want / n, f"{v} of {n} rows seed {seed}")
    for r in [0.5, 0.001, 0.999, 1 / 3, *RATIOS]:
        rec.state()
        rec.trans()
        parts = [ids(o) for o in ss.split_by_ratio(df, r, seed)]
        rr = [r, 1 - r] if isinstance(r, float) else r
        rec.check(len(parts) == len(rr) and sorted(i for p in parts for i in p) == list(range(n)), "split|partition", lambda: f"{r} of {n}: sizes {[len(p) for p in parts]}")
        rec.check([len(p) for p in parts[:-1]] == [int(n * v) for v in rr[:-1]], "split|sizes", lambda: f"{r} of {n}: {[len(p) for p in parts]}")
        for p, v in zip(parts, rr):
            blocks = [0] * (n // 1000 + 1)
            for i in p:
                blocks[i // 1000] += 1
            spread("split|spread", blocks, len(p) / n, f"{r} of {n} rows seed {seed}")
    have = counts(seg)
    low = min(have.values())
    for target in (None, 100, 10 ** 6):
        rec.state()
        rec.trans(2)
        got = subset(rec, "volume", df, ss.volume_neutral(df, pl.col("y"), target_volume=target, seed=seed), (n, target))
        rec.check(counts(seg[i] for i in got) == {k: min(low, target or low) for k in have}, "volume|counts", lambda: f"{n} target {target}: {counts(seg[i] for i in got)}")
        got = subset(rec, "volume control", df, ss.volume_neutral(df, pl.col("y"), control=pl.col("c"), target_volume=target, seed=seed), (n, target))
        want = {}
        for c in "pq":
            cc = counts(seg[i] for i in range(n) if "pq"[i % 3 % 2] == c)
            want.update({(c, b): min(min(cc.values()), target or n) for b in cc})
        rec.check(counts(("pq"[i % 3 % 2], seg[i]) for i in got) == want, "volume|control", lambda: f"{n} target {target}")
    for r1, r2 in ((100, 0.5), (0.25, 0.999), (1, 10 ** 6)):
        rec.state()
        rec.trans()
        got = subset(rec, "downsample", df, ss.downsample(df, (pl.col("y") == 1, r1), (pl.col("y") == 2, r2), seed=seed), (n, r1, r2))
        want = dict(have)
        for v, r in ((1, r1), (2, r2)):
            if v in want:
                want[v] = min(r, want[v]) if isinstance(r, int) else int(want[v] * r)
        rec.check(counts(seg[i] for i in got) == {k: v for k, v in want.items() if v}, "downsample|counts", lambda: f"{n} {r1} {r2}: {counts(seg[i] for i in got)} want {want}")
    # hundreds of parts
    k = [f"part {i * i % 307}" for i in range(n)]
    d = df.with_columns(k=pl.Series(k))
    rec.trans()
    p = PartitionHelper(d, "k")
    want = {}
    for i, v in enumerate(k):
        want.setdefault(v, []).append(i)
    rec.check({v: ids(x) for v, x in p.parts.items()} == want, "partition|parts", lambda: f"{n} rows in {len(want)} parts")
    rec.check({v: ids(x) for v, x in p.head(3).items()} == {v: x[:3] for v, x in want.items()}, "partition|head", f"{n} rows")
    rec.outcome((n, len(want)))


FAMILIES = [
    Family("long", long_cases, long_run, "20,000 and 70,001 (300,000) rows x 3 seeds: 16 sizes of sample, 12 ratios, volumes, down-sampling, 154 parts; no block of 1,000 rows over- or under-represented"),
    Family("sample", sample_cases, sample_run, "every count and 9 fractions of frames of 0 to 30 (120) and 1000 rows x 4 seeds; the subsets over all seeds of a range for up to 6 rows; refusals"),
    Family("volume neutral", volume_cases, volume_run, "every column of up to 6 (7) segment values with nulls, with and without a control column, 4 target volumes; long frames"),
    Family("downsample", down_cases, down_run, "every column of up to 6 (8) values with nulls x 4 pairs of counts and fractions x one or two conditions; long frames"),
    Family("columns", cols_cases, cols_run, "every set of kept columns among up to 6 (7) x every number of chosen ones x 30 seeds"),
    Family("split", split_cases, split_run, "18 ratios of frames of 0 to 40 (150), 300 and 1001 rows x 4 seeds x eager and lazy; evenness over all seeds of a range; refusals"),
    Family("partition", part_cases, part_run, "every text column of up to 5 (6) values with nulls, alone and with a boolean column, in both orders; every pair of rows of 7 x 7 texts whose names may clash, for 2 separators; refusals; apply with failures"),
]
