"""Common machinery of the checks: declare generated cases, run them, shrink failures, write evidence.

A check module (checks/Cxx_*.py) declares

    PROPERTY = "C01"
    RULE = "how cases are made, and what makes one non-trivial"

    @case(strategy, quick=300, thorough=6000)
    def name(spec, t): ...

`strategy` is a Hypothesis strategy producing a JSON-able *spec*; the body is a pure function of the spec and of the
code under test.  `t.check/t.close/...` raise `Violation`.  `t.nontrivial()` marks the case as exercising the property,
`t.label(x)` counts classes.  A replay file is the spec itself, and is replayed without Hypothesis.
"""
from __future__ import annotations

import contextlib
import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "vendor"))
if REPO != "/repo":
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings, strategies as st  # noqa: E402
from hypothesis import seed as hyp_seed  # noqa: E402


class Violation(Exception):
    pass


class StopRun(BaseException):
    """Leaves a Hypothesis run early (not an `Exception`, so that the engine lets it through)."""


class Case:
    def __init__(self, fn, strategy, quick, thorough, shards, tshards, budget, shrink_s, cost):
        self.fn, self.strategy, self.name = fn, strategy, fn.__name__
        self.n = {"quick": quick, "thorough": thorough}
        self.shards = {"quick": shards, "thorough": tshards}
        self.budget, self.shrink_s, self.cost = budget, shrink_s, cost


CASES: dict = {}


def case(strategy, quick=100, thorough=None, shards=1, tshards=None, budget=None, shrink_s=40.0, cost=1.0):
    """budget: seconds per shard {tier: s} after which generation stops (inconclusive, never a violation)."""

    def deco(fn):
        CASES[fn.__name__] = Case(
            fn, strategy, quick, quick * 20 if thorough is None else thorough, shards, tshards or max(4, shards),
            budget or {"quick": 110.0, "thorough": 700.0}, shrink_s, cost,
        )
        return fn

    return deco


def _brief(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2 :]


class T:
    """What a case body reports to."""

    def __init__(self):
        self.labels = {}
        self.is_nontrivial = False

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg, *detail):
        if not bool(cond):
            raise Violation(msg + "".join(" | " + _brief(d) for d in detail))

    def equal(self, got, want, msg):
        if isinstance(got, (np.ndarray,)) or hasattr(got, "shape") or isinstance(want, np.ndarray):
            g, w = np.asarray(got), np.asarray(want)
            ok = g.shape == w.shape and bool(np.array_equal(g, w, equal_nan=g.dtype.kind in "fc"))
        else:
            ok = got == want
        if not ok:
            raise Violation(f"{msg}: got {_brief(got)}, want {_brief(want)}")

    def close(self, got, want, msg, rtol=1e-4, atol=1e-5, nan_ok=False):
        try:
            g = np.asarray(got, dtype=np.float64)
            w = np.asarray(want, dtype=np.float64)
        except Exception as e:
            raise Violation(f"{msg}: not numeric ({e}): got {_brief(got)}")
        if g.shape != w.shape:
            raise Violation(f"{msg}: shape {g.shape}, want {w.shape}; got {_brief(got)}, want {_brief(want)}")
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=nan_ok):
            d = np.nanmax(np.abs(g - w)) if g.size else 0
            raise Violation(f"{msg}: max diff {d}; got {_brief(got)}, want {_brief(want)}")

    def shape(self, got, want, msg):
        s = tuple(getattr(got, "shape", ("no shape",)))
        if s != tuple(want):
            raise Violation(f"{msg}: shape {s}, want {tuple(want)}")

    def finite(self, got, msg):
        g = np.asarray(got, dtype=np.float64)
        if not np.all(np.isfinite(g)):
            raise Violation(f"{msg}: not finite: {_brief(g)}")

    def raises(self, exc, fn, msg):
        try:
            fn()
        except exc:
            return
        raise Violation(f"{msg}: no {exc} raised")


class HarnessError(Exception):
    pass


def _touches_repo(tb):
    fort = os.path.join(REPO, "fortuna") + os.sep
    return any(f.filename.startswith(fort) for f in traceback.extract_tb(tb))


CASE_DEADLINE = 240


@contextlib.contextmanager
def _deadline():
    """Every case is small: one that has not ended after minutes never will."""

    def ring(*_):
        raise Violation(f"did not terminate within {CASE_DEADLINE} s")

    old = signal.signal(signal.SIGALRM, ring)
    signal.alarm(CASE_DEADLINE)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run_spec(c: Case, spec):
    """Run one spec. Returns (T, None) or (T, message); raises HarnessError if the harness itself is at fault."""
    t = T()
    try:
        with _deadline():
            c.fn(spec, t)
        return t, None
    except Violation as e:
        return t, f"{c.name}: {e}"
    except (MemoryError, ImportError):
        raise HarnessError(traceback.format_exc())
    except Exception as e:
        tb = sys.exc_info()[2]
        # An exception coming out of the code under test on an input of the property's domain is a violation; so is a
        # result the oracle cannot even read (wrong type or shape). A missing name is the harness' own problem.
        if _touches_repo(tb) or isinstance(e, (TypeError, ValueError, IndexError, KeyError, ZeroDivisionError, AttributeError)):
            lines = traceback.format_exception_only(type(e), e)[-1].strip()
            where = [f for f in traceback.extract_tb(tb)]
            last = next((f for f in reversed(where) if f.filename.startswith(REPO)), where[-1])
            return t, f"{c.name}: raised {_brief(lines, 600)} at {os.path.relpath(last.filename, REPO)}:{last.name}"
        raise HarnessError(traceback.format_exc())


def canon(spec):
    return json.dumps(spec, sort_keys=True, separators=(",", ":"), default=_np_default)


def _np_default(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def run_case(c: Case, tier: str, seed: int, shard: int, n_shards: int):
    n = max(1, math.ceil(c.n[tier] / n_shards))
    budget = c.budget[tier]
    res = dict(case=c.name, evaluations=0, skipped=0, hashes=set(), labels={}, samples=[], failure=None, wall=0.0)
    t0 = time.time()
    best = {}

    def body(spec):
        now = time.time()
        if best and now - best["t"] > c.shrink_s:
            raise StopRun()
        if not best and now - t0 > budget:
            res["skipped"] += 1
            raise StopRun()
        key = canon(spec)
        t, msg = run_spec(c, json.loads(key))
        res["evaluations"] += 1
        for k, v in t.labels.items():
            res["labels"][k] = res["labels"].get(k, 0) + v
        if t.is_nontrivial:
            h = hashlib.sha1(key.encode()).hexdigest()[:16]
            if h not in res["hashes"]:
                res["hashes"].add(h)
                if len(res["samples"]) < 2 and len(key) < 3000:
                    res["samples"].append(json.loads(key))
        if msg is not None:
            if not best:
                best.update(t=now, size=len(key), spec=json.loads(key), msg=msg)
            elif len(key) <= best["size"]:
                best.update(size=len(key), spec=json.loads(key), msg=msg)
            raise Violation(msg)

    s = int(hashlib.sha1(f"{seed}/{c.name}/{shard}".encode()).hexdigest()[:8], 16)
    test = settings(
        max_examples=n, database=None, deadline=None, report_multiple_bugs=False, print_blob=False,
        phases=(Phase.generate, Phase.target, Phase.shrink),
        suppress_health_check=(HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example),
    )(given(c.strategy)(body))
    test = hyp_seed(s)(test)
    try:
        test()
    except StopRun:
        pass
    except HarnessError:
        raise
    except Exception:
        if not best:
            raise HarnessError(traceback.format_exc())
    if best:
        res["failure"] = dict(case=c.name, spec=best["spec"], message=best["msg"])
    res["wall"] = time.time() - t0
    return res


# ---------------------------------------------------------------- generators


@st.composite
def _grid(draw, n, lo, hi, levels):
    if levels <= 256:
        b = draw(st.binary(min_size=n, max_size=n))
        v = np.frombuffer(b, dtype=np.uint8).astype(np.int64) % levels
    else:
        b = draw(st.binary(min_size=2 * n, max_size=2 * n))
        v = np.frombuffer(b, dtype=">u2").astype(np.int64) % levels
    return [round(float(x), 7) for x in lo + (hi - lo) * v / (levels - 1)]


def grid(n, lo=-4.0, hi=4.0, levels=33):
    """A list of n floats on a grid (few levels: many ties)."""
    return _grid(n, lo, hi, levels)


def fine(n, lo=-4.0, hi=4.0):
    """A list of n floats, almost surely distinct."""
    return _grid(n, lo, hi, 65536)


@st.composite
def floats_mixed(draw, n, lo=-4.0, hi=4.0):
    """Tied or distinct values."""
    lv = draw(st.sampled_from([3, 9, 33, 65536, 65536]))
    return draw(_grid(n, lo, hi, lv))


def ints(n, k):
    """A list of n integers in [0, k)."""
    return st.binary(min_size=n, max_size=n).map(lambda b: [int(x) % k for x in b])


def seeds():
    return st.integers(0, 2**31 - 1)


def arr(x, shape=None, dtype=np.float32):
    a = np.asarray(x, dtype=dtype)
    return a if shape is None else a.reshape(shape)


__all__ = [
    "case", "CASES", "T", "Violation", "st", "np", "grid", "fine", "floats_mixed", "ints", "arr", "seeds", "run_spec",
    "run_case", "HarnessError", "REPO", "VERIF", "canon",
]
