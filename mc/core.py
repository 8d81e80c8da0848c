"""Shared machinery: what a family of bounded cases is, and how one case reports.

A property module (mc/props/<id>.py) lists FAMILIES.  A family enumerates *every* case of a stated
bounded space (`cases(tier)`), and `run(case, rec)` drives the real extension on that case and
compares everything observed with a reference model.  A case is a small JSON value, so that any
violation is replayed from its case alone.
"""
from __future__ import annotations

import json
import math
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable, Iterable


@dataclass
class Family:
    name: str
    cases: Callable[[str], Iterable[Any]]
    run: Callable[[Any, "Rec"], None]
    bound: str  # the alphabet and bound, in words
    threads: tuple = (2,)  # values of POLARS_MAX_THREADS under which all cases are run
    env: dict = field(default_factory=dict)
    tiers: tuple = ("quick", "thorough")


class Rec:
    """Counts and failures of one case (merged per worker)."""

    MAX_OUTCOMES = 200_000

    def __init__(self, family: str, case: Any):
        self.family, self.case = family, case
        self.states = 0  # distinct inputs / reached model states, distinct by construction of the enumeration
        self.transitions = 0  # operations of the implementation executed
        self.traces = 0  # complete observations of the implementation compared with the model
        self.outcomes: set = set()
        self.fails: list = []

    def state(self, n: int = 1):
        self.states += n

    def trans(self, n: int = 1):
        self.transitions += n

    def trace(self, n: int = 1):
        self.traces += n

    def outcome(self, key):
        if len(self.outcomes) < 2000:
            self.outcomes.add(key if isinstance(key, str) else repr(key))

    def fail(self, key: str, msg: str):
        if len(self.fails) < 20:
            self.fails.append({"key": f"{self.family}|{key}", "msg": str(msg)[:1500]})

    # -- comparisons ---------------------------------------------------------------------------
    def check(self, cond: bool, key: str, msg) -> bool:
        self.traces += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def same(self, got, want, key: str, ctx: Any = "", rtol=1e-9, atol=1e-12) -> bool:
        self.traces += 1
        if not equal(got, want, rtol, atol):
            self.fail(key, f"got {short(got)} want {short(want)} for {short(ctx)}")
            return False
        return True


def short(x, n=600) -> str:
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def equal(a, b, rtol=1e-9, atol=1e-12) -> bool:
    """Structural equality with float tolerance; None only equals None, NaN equals NaN."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b) and isinstance(a, (bool, int)) and isinstance(b, (bool, int))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b:
            return True
        fa, fb = float(a), float(b)
        if math.isnan(fa) or math.isnan(fb):
            return math.isnan(fa) and math.isnan(fb)
        if math.isinf(fa) or math.isinf(fb):
            return False
        return abs(fa - fb) <= atol + rtol * max(abs(fa), abs(fb))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y, rtol, atol) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def outcome_of(fn, *args, **kw):
    """('ok', value) or ('err', exception type); a Rust panic counts as 'panic'."""
    try:
        return ("ok", fn(*args, **kw))
    except BaseException as e:  # PanicException derives from BaseException
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        n = type(e).__name__
        return ("panic" if "Panic" in n or "panicked" in str(e) else "err", f"{n}: {str(e)[:300]}")


def jsonable(x):
    return json.loads(json.dumps(x))


def run_case(fam: Family, case) -> Rec:
    rec = Rec(fam.name, case)
    try:
        fam.run(case, rec)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        tb = traceback.format_exc()
        rec.fail(f"raised|{json.dumps(case)[:300]}", f"{type(e).__name__}: {str(e)[:500]}\n{tb[-1200:]}")
    return rec
