"""C03: conformalised quantile regression and one-dimensional uncertainties."""
import math
from fractions import Fraction

from gens import *
from pbt import *

import jax.numpy as jnp
from fortuna.conformal import OneDimensionalUncertaintyConformalRegressor, QuantileConformalRegressor

PROPERTY = "C03"
RULE = (
    "1-20 calibration points, 1-3 test points, grid values with and without ties, dyadic errors; non-trivial = at "
    "least two distinct scores and the quantile below the largest one."
)
ASSUMPTIONS = [
    "Where ceil((n+1)(1-error)) > n no finite interval can reach the level; the largest score is used, as the code does.",
]
NS = [1, 2, 5, 9, 20]


@st.composite
def data(draw, n):
    a, b, y = draw(floats_mixed(n)), draw(floats_mixed(n)), draw(floats_mixed(n, lo=-6.0, hi=6.0))
    u = draw(st.binary(min_size=n, max_size=n).map(lambda x: [2.0 ** (v % 4 - 2) for v in x]))
    return dict(a=a, b=b, y=y, u=u)


@st.composite
def spec(draw):
    n, m = draw(st.sampled_from(NS)), draw(st.sampled_from([1, 3]))
    return dict(kind=draw(st.sampled_from(["cqr", "unc"])), n=n, m=m, val=draw(data(n)), test=draw(data(m)),
                error=draw(dyadic_error()), e2=draw(dyadic_error()), perm=draw(permutation(n)), two_d=draw(st.booleans()))


def col(v):
    return jnp.array(arr(v))[:, None]


def bounds(d):
    return np.minimum(d["a"], d["b"]), np.maximum(d["a"], d["b"])


def ref_scores(kind, d):
    y = np.array(d["y"])
    if kind == "cqr":
        lo, hi = bounds(d)
        return np.maximum(lo - y, y - hi)
    return np.abs(y - np.array(d["a"])) / np.array(d["u"])


def interval(s, val, test, e):
    if s["kind"] == "cqr":
        (vl, vh), (tl, th) = bounds(val), bounds(test)
        f = col if s.get("two_d") else (lambda v: jnp.array(arr(v)))
        return QuantileConformalRegressor().conformal_interval(f(vl), f(vh), f(tl), f(th), col(val["y"]), e)
    return OneDimensionalUncertaintyConformalRegressor().conformal_interval(
        col(val["a"]), col(val["u"]), col(test["a"]), col(test["u"]), col(val["y"]), e)


def quantile(s, val, e):
    if s["kind"] == "cqr":
        lo, hi = bounds(val)
        return float(QuantileConformalRegressor().quantile(jnp.array(arr(lo)), jnp.array(arr(hi)), col(val["y"]), e))
    return float(OneDimensionalUncertaintyConformalRegressor().quantile(
        col(val["a"]), col(val["u"]), col(val["y"]), e))


def take(d, idx):
    return {k: [v[i] for i in idx] for k, v in d.items()}


@case(spec(), quick=6000, shards=3)
def rule(s, t):
    val, test, n, e = s["val"], s["test"], s["n"], s["error"]
    sc = ref_scores(s["kind"], val)
    if s["kind"] == "cqr":
        lo, hi = bounds(val)
        got = QuantileConformalRegressor().score(jnp.array(arr(lo)), jnp.array(arr(hi)), col(val["y"]))
    else:
        got = OneDimensionalUncertaintyConformalRegressor().score(col(val["a"]), col(val["u"]), col(val["y"]))
    t.close(got, sc, "scores")
    k = math.ceil((1 - Fraction(e)) * (n + 1))
    srt = np.sort(sc)
    q = quantile(s, val, e)
    t.nontrivial(k < n and len(set(sc)) > 1)
    t.label(s["kind"], "capped" if k > n else "k<=n")
    t.check(srt[min(k, n) - 1] - 1e-5 <= q <= srt[min(k + 1, n) - 1] + 1e-5,
            f"quantile {q} is not between the scores of rank {min(k, n)} and {min(k + 1, n)}", srt)
    t.close(q, np.quantile(sc, min(k / n, 1.0)), "quantile", atol=2e-5)
    t.close(quantile(s, take(val, s["perm"]), e), q, "quantile after permuting the data")
    q2 = quantile(s, val, s["e2"])
    t.check((q - q2) * (s["e2"] - e) >= -1e-5, "the quantile is not monotone in the error", q, q2)
    out = interval(s, val, test, e)
    tl, th = bounds(test)
    if s["kind"] == "cqr":
        want = np.stack([tl - q, th + q], 1)
    else:
        mu, u = np.array(test["a"]), np.array(test["u"])
        want = np.stack([mu - u * q, mu + u * q], 1)
    t.close(out, want, "interval", atol=2e-5)
    t.close(interval(s, val, take(test, [0]), e), np.asarray(out)[:1], "interval of the first test point alone")


@st.composite
def pool(draw):
    n = draw(st.sampled_from([1, 2, 4, 8, 10]))
    return dict(kind=draw(st.sampled_from(["cqr", "unc"])), d=draw(data(n + 1)), error=draw(dyadic_error()))


@case(pool(), quick=600, shards=3)
def coverage(s, t):
    d, N = s["d"], len(s["d"]["y"])
    n = N - 1
    cov = 0
    for j in range(N):
        out = np.asarray(interval(s, take(d, [i for i in range(N) if i != j]), take(d, [j]), s["error"]))
        t.shape(out, (1, 2), "interval")
        cov += bool(out[0, 0] - 1e-4 <= d["y"][j] <= out[0, 1] + 1e-4)
    k = math.ceil((1 - Fraction(s["error"])) * N)
    t.nontrivial(cov < N)
    t.check(cov >= min(k, n), f"{cov} of {N} covered, {min(k, n)} promised at error {s['error']}")
