"""C05: adaptive conformal inference."""
from gens import *
from pbt import *

import jax.numpy as jnp
from fortuna.conformal import (
    AdaptiveConformalClassifier,
    AdaptiveConformalRegressor,
    AdaptivePredictionConformalClassifier,
    OneDimensionalUncertaintyConformalRegressor,
    QuantileConformalRegressor,
    SimplePredictionConformalClassifier,
)

PROPERTY = "C05"
RULE = (
    "Histories of 1-10 outcomes (intervals or sets, with targets on their borders), rates up to 0.5, with and without "
    "weights; non-trivial = both hits and misses occur."
)
ASSUMPTIONS = ["Targets are scalars or one-element arrays, as in the repository's tests and examples."]


@st.composite
def history(draw):
    kind = draw(st.sampled_from(["cqr", "unc", "simple", "adaptive"]))
    T_ = draw(st.integers(1, 10))
    steps = []
    for _ in range(T_):
        if kind in ("cqr", "unc"):
            a, b = sorted(draw(grid(2, levels=9)))
            steps.append(dict(out=[a, b], y=draw(grid(1, levels=9))[0]))
        else:
            steps.append(dict(out=draw(st.lists(st.integers(0, 4), unique=True, max_size=5)), y=draw(st.integers(0, 4))))
    return dict(
        kind=kind, steps=steps, error=draw(st.integers(0, 64)) / 64, target=draw(dyadic_error()),
        gamma=draw(st.sampled_from([0.005, 0.0625, 0.125, 0.5])), vec=draw(st.booleans()), ret=draw(st.booleans()),
    )


def make(kind):
    return {
        "cqr": lambda: AdaptiveConformalRegressor(QuantileConformalRegressor()),
        "unc": lambda: AdaptiveConformalRegressor(OneDimensionalUncertaintyConformalRegressor()),
        "simple": lambda: AdaptiveConformalClassifier(SimplePredictionConformalClassifier()),
        "adaptive": lambda: AdaptiveConformalClassifier(AdaptivePredictionConformalClassifier()),
    }[kind]()


def hit(kind, step):
    if kind in ("cqr", "unc"):
        return step["out"][0] <= step["y"] <= step["out"][1]
    return step["y"] in step["out"]


def call(acr, kind, step, **kw):
    reg = kind in ("cqr", "unc")
    y = np.array(step["y"], dtype=np.float32 if reg else np.int32)
    if kw.pop("vec"):
        y = y.reshape(1)
    name = "conformal_interval" if reg else "conformal_set"
    out = np.array(step["out"], dtype=np.float32) if reg else list(step["out"])
    return acr.update_error(**{name: out}, target=jnp.array(y), **kw)


@case(history(), quick=700, shards=4)
def unweighted(s, t):
    acr = make(s["kind"])
    e = want = s["error"]
    hits, clipped, moved = [], False, 0.0
    for step in s["steps"]:
        h = hit(s["kind"], step)
        hits.append(h)
        e = call(acr, s["kind"], step, error=float(e), target_error=s["target"], gamma=s["gamma"], vec=s["vec"],
                 return_were_in=s["ret"])
        if s["ret"]:
            e, were = e
            t.equal([bool(v) for v in np.ravel(were)], [h], "reported membership")
        raw = want + s["gamma"] * (s["target"] - (0 if h else 1))
        clipped |= not 0 <= raw <= 1
        want = min(1.0, max(0.0, raw))
        t.check(0 <= float(e) <= 1, "the error left [0, 1]", e)
        t.close(float(e), want, f"error after {'hit' if h else 'miss'}", atol=2e-6)
    t.nontrivial(len(set(hits)) == 2)
    t.label(s["kind"], "clipped" if clipped else "free")
    if not clipped:  # over any history, miscoverage deviates from the target by the movement over gamma * T
        T_ = len(hits)
        miss = hits.count(False) / T_
        t.close(miss, s["target"] - (float(e) - s["error"]) / (s["gamma"] * T_), "miscoverage frequency", atol=1e-3)


@st.composite
def weighted(draw):
    h = draw(history())
    ln = draw(st.integers(2, 6))
    w = np.cumsum(np.array(draw(ints(ln, 8))) + draw(st.integers(0, 1)))
    w = w + (w.sum() == 0)
    h.update(w=[float(x) for x in w / w.sum()], past=draw(ints(ln - 1, 2)))
    return h


@case(weighted(), quick=500, shards=4)
def with_weights(s, t):
    """The window of past memberships is fed back with the current one appended; oldest first."""
    acr = make(s["kind"])
    w = np.array(s["w"])
    past = [int(v) for v in s["past"]]
    e = s["error"]
    t.nontrivial(len(set(past)) == 2 and len(set(s["w"])) > 1)
    for step in s["steps"][:3]:
        h = hit(s["kind"], step)
        window = past + [int(h)]
        miss = float(sum(a * (1 - b) for a, b in zip(w, window)))
        want = min(1.0, max(0.0, float(e) + s["gamma"] * (s["target"] - miss)))
        e, were = call(acr, s["kind"], step, error=float(e), target_error=s["target"], gamma=s["gamma"], vec=s["vec"],
                       weights=jnp.array(w), were_in=jnp.array(past), return_were_in=True)
        t.close(float(e), want, "weighted error update", atol=1e-5)
        t.equal([int(v) for v in np.ravel(were)], window, "memberships returned")
        past = window[1:]


@case(history(), quick=120, shards=2)
def delegation(s, t):
    """The adaptive method's sets and intervals are those of the method it wraps."""
    kind = s["kind"]
    e = s["target"]
    t.nontrivial()
    if kind in ("cqr", "unc"):
        v = jnp.array(arr([x["y"] for x in s["steps"]]))
        lo = jnp.array(arr([x["out"][0] for x in s["steps"]]))
        base = (QuantileConformalRegressor if kind == "cqr" else OneDimensionalUncertaintyConformalRegressor)()
        if kind == "cqr":
            args = (lo, lo + 1.0, lo[:2], lo[:2] + 1.0, v[:, None], e)
        else:
            args = (lo[:, None], jnp.ones((len(v), 1)), lo[:2, None], jnp.ones((len(lo[:2]), 1)), v[:, None], e)
        t.close(make(kind).conformal_interval(*args), base.conformal_interval(*args), "interval of the wrapped method")
    else:
        p = np.array([[1 + x["y"], 2, 5 - x["y"]] for x in s["steps"]]) / 8
        y = np.array([x["y"] % 3 for x in s["steps"]])
        base = (SimplePredictionConformalClassifier if kind == "simple" else AdaptivePredictionConformalClassifier)()
        args = (jnp.array(p), jnp.array(y), jnp.array(p[:2]), e)
        t.equal(make(kind).conformal_set(*args), base.conformal_set(*args), "sets of the wrapped method")


@case(weighted(), quick=60)
def rejects(s, t):
    """Unusable settings are refused, never silently used."""
    acr, step = make(s["kind"]), s["steps"][0]
    kw = dict(error=0.5, target_error=s["target"], vec=True)
    w, past = jnp.array(s["w"]), jnp.array(s["past"])
    t.nontrivial()
    bad = [
        dict(gamma=0.0), dict(gamma=-s["gamma"]), dict(weights=w), dict(were_in=past),
        dict(weights=w, were_in=past[:-1]), dict(weights=w, were_in=past + 2), dict(weights=2 * w, were_in=past),
        dict(weights=-w, were_in=past),
    ]
    if s["w"][0] != s["w"][-1]:
        bad.append(dict(weights=w[::-1], were_in=past))
    for b in bad:
        t.raises(ValueError, lambda: call(acr, s["kind"], step, **{**kw, **b}), f"update with {sorted(b)} unusable")
