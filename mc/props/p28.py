"""P28: random columns obey their bounds, lengths, seeds and distributions."""
import math
import string as st
from itertools import product

import polars as pl
import polars_ds as pds
from scipy.stats import kstest

from ..core import Family, outcome_of

NAN = math.nan
SEEDS = (0, 1, 42, 2**63)


def frame(n):
    return pl.DataFrame({"x": [float(i % 7) for i in range(n)], "i": list(range(n))}, schema={"x": pl.Float64, "i": pl.Int64})


# name -> (parameters, expression of (parameters, seed, length), membership)
def ok_int(p, v):
    return p[0] <= v < p[1]


ALNUM = set(st.ascii_letters + st.digits)

KINDS = {
    "random": ([(0.0, 1.0), (-2.5, -2.25), (3.0, 1000.0), (0, 1), (-3, 4)], lambda p, **k: pds.random(*p, **k), ok_int, pl.Float64),
    "random_int": ([(0, 1), (0, 2), (-5, 5), (-(2**31), 2**31 - 1), (100, 103)], lambda p, **k: pds.random_int(*p, **k), lambda p, v: isinstance(v, int) and p[0] <= v < p[1], pl.Int32),
    "random_str": ([(1, 1), (0, 3), (3, 8), (8, 3), (20, 22)], lambda p, **k: pds.random_str(*p, **k), lambda p, v: min(p) <= len(v) <= max(p) and set(v) <= ALNUM, pl.String),
    "random_binomial": ([(1, 0.5), (10, 0.25), (4, 0.0), (4, 1.0), (50, 0.9)], lambda p, **k: pds.random_binomial(*p, **k), lambda p, v: isinstance(v, int) and 0 <= v <= p[0] and (p[1] not in (0.0, 1.0) or v == p[0] * p[1]), pl.UInt64),
    "random_exp": ([(1.0,), (0.25,), (8.0,)], lambda p, **k: pds.random_exp(*p, **k), lambda p, v: v >= 0, pl.Float64),
    "random_normal": ([(0.0, 1.0), (5.0, 0.5), (-3.0, 10.0), (0, 1), (2, 3)], lambda p, **k: pds.random_normal(*p, **k), lambda p, v: math.isfinite(v), pl.Float64),
}


def gen_cases(tier):
    return [[k, i] for k, v in KINDS.items() for i in range(len(v[0]))]


def gen_run(case, rec):
    kind, i = case
    params, expr, ok, dt = KINDS[kind]
    p = params[i]
    for n in (1, 2, 3, 7, 20, 100, 1000, 70001):
        df = frame(n)
        seen = []
        for seed in SEEDS:
            rec.state()
            rec.trans(4)
            a, b = df.select(a=expr(p, seed=seed), i="i")["a"], df.select(expr(p, seed=seed).alias("a"))["a"]
            rec.check(len(a) == n == len(b) and a.null_count() == 0 and a.dtype == dt and all(ok(p, v) for v in a), f"{kind}|range", lambda: f"{p} seed={seed}: {a.dtype} {a.to_list()[:20]}")
            rec.check(a.to_list() == b.to_list(), f"{kind}|seed", lambda: f"{p} seed={seed}: {a.to_list()[:9]} {b.to_list()[:9]}")
            seen.append(tuple(a.to_list()))
            c, d = df.select(c=expr(p, seed=seed, length=n + 2))["c"], df.select(c=expr(p, seed=seed, length=pl.len() + 2))["c"]
            rec.check(len(c) == n + 2 == len(d) and c.to_list() == d.to_list() and all(ok(p, v) for v in c), f"{kind}|length", lambda: f"{p} seed={seed}: {c.to_list()[:20]} {d.to_list()[:20]}")
            lz = df.lazy().with_columns(a=expr(p, seed=seed)).collect()["a"]
            rec.check(lz.to_list() == a.to_list(), f"{kind}|lazy", lambda: f"{p} seed={seed}: {lz.to_list()[:9]}")
        u = df.select(a=expr(p), b=expr(p))
        rec.check(all(ok(p, v) for c in u for v in c), f"{kind}|range without a seed", lambda: f"{p}: {u.rows()[:20]}")
        # one value in a million at best collides over twenty rows, unless there is one value only
        constant = (kind, p) in {("random_int", (0, 1)), ("random_binomial", (4, 0.0)), ("random_binomial", (4, 1.0))}
        if n >= 100 and not constant:
            rec.check(len(set(seen)) == len(SEEDS), f"{kind}|different seeds", lambda: f"{p}: equal columns for different seeds")
            rec.check(u["a"].to_list() != u["b"].to_list(), f"{kind}|no seed", lambda: f"{p}: two draws without a seed are equal")
    dist_one(rec, kind, p, expr)
    rec.outcome(case)


def dist_one(rec, kind, p, expr):
    """The draws of each seed follow the distribution (a bound some 1e-7 likely to fail once, on draws that are fixed)."""
    n = 20000
    for seed in SEEDS:
        rec.state()
        rec.trans()
        v = frame(n).select(a=expr(p, seed=seed))["a"].to_list()
        lim = 3 / math.sqrt(n)
        if kind == "random":
            d = kstest(v, "uniform", args=(p[0], p[1] - p[0])).statistic
        elif kind == "random_exp":
            d = kstest(v, "expon", args=(0, 1 / p[0])).statistic
        elif kind == "random_normal":
            d = kstest(v, "norm", args=p).statistic
        elif kind == "random_binomial":
            cdf = lambda k: sum(math.comb(p[0], j) * p[1] ** j * (1 - p[1]) ** (p[0] - j) for j in range(k + 1))
            d = max(abs(sum(a <= k for a in v) / n - cdf(k)) for k in range(p[0] + 1))
        elif kind == "random_int":
            lo, w = p[0], p[1] - p[0]
            d = max(abs(sum(a < lo + w * q / 8 for a in v) / n - math.ceil(w * q / 8) / w) for q in range(1, 9))
            rec.check(w > 100 or set(v) == set(range(*p)), f"{kind}|support", lambda: f"{p} seed={seed}: {set(v)}")
        else:
            ln = [len(a) for a in v]
            lo, hi = min(p), max(p)
            d = max(abs(ln.count(k) / n - 1 / (hi - lo + 1)) for k in range(lo, hi + 1))
            cnt = {}
            for a in v:
                for c in a:
                    cnt[c] = cnt.get(c, 0) + 1
            tot = sum(cnt.values())
            e = max(abs(cnt.get(c, 0) / tot - 1 / 62) for c in ALNUM)
            rec.check(e < 6 * math.sqrt(1 / 62 / tot), f"{kind}|characters", lambda: f"{p} seed={seed}: {cnt}")
        rec.check(d < lim, f"{kind}|distribution", lambda: f"{p} seed={seed}: distance {d} > {lim}")


# ---------------------------------------------------------------- noise and nulls added to a column
def noise_cases(tier):
    return [["perturb", e, pos] for e in (1e-5, 0.5, -2.0, 100.0) for pos in (False, True)] + [["jitter", s] for s in (0.0, 0.001, 1.0, 25.0, 2)] + [["null", p] for p in (0.01, 0.25, 0.5, 0.99)] + [["bad"]]


def noise_run(case, rec):
    kind = case[0]
    cols = [[0.0], [0.0] * 5, [0.0, None, 0.0, None, 0.0], [None, None], [], [0.0] * 2000, [None if i % 3 == 0 else 0.0 for i in range(2000)]]
    if kind == "bad":
        df = frame(3)
        for f in (lambda: pds.perturb("x", NAN), lambda: pds.perturb("x", math.inf), lambda: pds.jitter("x", -1.0), lambda: pds.random_null("x", 0.0), lambda: pds.random_null("x", 1.0), lambda: pds.random_null("x", -0.5), lambda: pds.random_null("x", 1.5),
                  lambda: pds.random_int(3, 3), lambda: pds.random_binomial(0, 0.5), lambda: df.select(pds.random_binomial(3, 1.5)), lambda: df.select(pds.perturb("i", 0.5)), lambda: df.select(pds.jitter("i", 0.5)), lambda: pds.add_noise("x", "cauchy")):
            rec.state()
            rec.trans()
            rec.check(outcome_of(f)[0] == "err", "argument not refused", "")
        # bounds taken from the data
        df = pl.DataFrame({"x": [2.0, 3.0, 5.0] * 30, "k": [4, 6, 9] * 30})
        for seed in SEEDS:
            rec.trans(3)
            out = df.select(a=pds.random(pl.col("x").min(), pl.col("x").max(), seed=seed), b=pds.random_int(pl.col("k").min(), pl.col("k").max(), seed=seed), c=pds.random_normal(pl.col("x").mean(), pl.col("x").std(), seed=seed),
                            d=pds.random(2.0, 5.0, seed=seed), e=pds.random_int(4, 9, seed=seed), f=pds.random_normal(df["x"].mean(), df["x"].std(), seed=seed))
            rec.check(out.height == 90 and out["a"].to_list() == out["d"].to_list() and out["b"].to_list() == out["e"].to_list() and out["c"].to_list() == out["f"].to_list(), "bounds from the data", lambda: f"{out.rows()[:5]}")
        return
    for xs, dt, seed in product(cols, (pl.Float64, pl.Float32), SEEDS):
        rec.state()
        rec.trans(2)
        df = pl.DataFrame({"x": xs}, schema={"x": dt})
        if kind == "perturb":
            _, e, pos = case
            lo, hi = (0.0, abs(e)) if pos else (-abs(e) / 2, abs(e) / 2)
            q = lambda s: pds.perturb("x", e, positive=pos, seed=s)
            q2 = lambda s: pds.add_noise(pl.col("x"), "uniform", epsilon=e, positive=pos, seed=s)
            eps = 1e-6 * abs(e) if dt == pl.Float32 else 0
            ok = lambda v: lo - eps <= v < hi + (eps or 0)
        elif kind == "jitter":
            s_ = case[1]
            q = lambda s: pds.jitter("x", s_, seed=s)
            q2 = lambda s: pds.add_noise(pl.col("x"), std=s_, seed=s)
            ok = lambda v: abs(v) <= 8 * s_
        else:
            p = case[1]
            out = df.select(a=pds.random_null("x", p, seed=seed), b=pds.random_null(pl.col("x"), p, seed=seed), r=pds.random(0.0, 1.0, seed=seed), u=pds.random_null("x", p))
            want = [None if b < p else a for a, b in zip(xs, out["r"].to_list())]
            rec.check(out["a"].to_list() == want == out["b"].to_list() and out["a"].dtype == dt, "random_null", lambda: f"{xs[:9]} {p} {seed}: {out.rows()[:9]}")
            rec.check(all(v is None or v == x for v, x in zip(out["u"].to_list(), xs)), "random_null|kept values", lambda: f"{xs[:9]} {p}: {out.rows()[:9]}")
            if len(xs) == 2000 and None not in xs:
                k = out["u"].null_count(), out["a"].null_count()
                rec.check(all(abs(c - 2000 * p) <= 7 * math.sqrt(2000 * p * (1 - p)) for c in k), "random_null|share", lambda: f"{p}: {k} nulls of 2000")
            continue
        out = df.select(a=q(seed), b=q2(seed), u=q(None))
        rec.check(out["a"].dtype == dt and out.height == len(xs) and out["a"].to_list() == out["b"].to_list(), kind, lambda: f"{xs[:9]} {case} {seed}: {out.rows()[:9]}")
        for c in ("a", "u"):
            v = out[c].to_list()
            rec.check(all((a is None) == (b is None) and (a is None or ok(a)) for a, b in zip(v, xs)), f"{kind}|range", lambda: f"{xs[:9]} {case} {seed} {dt}: {v[:9]}")
        # the noise does not depend on the values it is added to
        sh = df.select((pl.col("x") + 4).alias("x")).select(q(seed).alias("a") - 4)["a"].to_list()
        tol = (1e-15 if dt == pl.Float64 else 1e-6) * (8 + 20 * abs(case[1]))
        rec.check(all(a is None and b is None or abs(a - b) <= tol for a, b in zip(sh, out["a"].to_list())), f"{kind}|additive", lambda: f"{xs[:9]} {case}: {sh[:9]} {out['a'].to_list()[:9]}")
        if len(xs) == 2000 and None not in xs and case[1]:
            for c in ("a", "u"):
                v = out[c].to_list()
                d = kstest(v, "uniform", args=(lo, hi - lo)).statistic if kind == "perturb" else kstest(v, "norm", args=(0, case[1])).statistic
                rec.check(d < 3.5 / math.sqrt(2000), f"{kind}|distribution", lambda: f"{case} {seed}: distance {d}")
            rec.check(out["a"].to_list() != out["u"].to_list() and len(set(out["a"].to_list())) > 1500, f"{kind}|varies", lambda: f"{case}: {out.rows()[:5]}")
    rec.outcome(case)


FAMILIES = [
    Family("generators", gen_cases, gen_run, "6 generators x 3 to 5 parameter sets x 4 seeds and none x lengths 1 to 1000 and 70,001 (own and custom); 20000 draws per seed against the distribution"),
    Family("noise", noise_cases, noise_run, "perturb, jitter, add_noise, random_null x parameters x 4 seeds and none x 7 columns (empty, all null, nulls) x 2 types; refusals; bounds taken from the data"),
]
