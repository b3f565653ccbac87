"""C02: jackknife+, jackknife-minmax and CV+ intervals."""
from gens import *
from pbt import *

import jax.numpy as jnp
from fortuna.conformal import (
    CVPlusConformalRegressor,
    JackknifeMinmaxConformalRegressor,
    JackknifePlusConformalRegressor,
)

PROPERTY = "C02"
RULE = (
    "1-12 held-out points in 1-4 folds, 1-4 test points, grid values with and without ties, dyadic errors; non-trivial "
    "= at least two distinct residuals and models that differ from each other."
)
ASSUMPTIONS = ["Empirical quantiles interpolate linearly between order statistics, as the code documents and uses."]


@st.composite
def loo_spec(draw, one_d=None):
    n, m = draw(st.sampled_from([1, 2, 5, 12])), draw(st.sampled_from([1, 4]))
    return dict(
        kind=draw(st.sampled_from(["plus", "minmax"])), n=n, m=m, mu=draw(floats_mixed(n)), y=draw(floats_mixed(n)),
        test=draw(floats_mixed(n * m)), error=draw(dyadic_error()), e2=draw(dyadic_error()),
        perm=draw(permutation(n)), one_d=draw(st.booleans()), np=draw(st.booleans()),
        shift=draw(st.integers(-4, 4)), scale=draw(st.sampled_from([1, 2, 4])),
    )


def ref_loo(kind, mu, y, test, e):
    r = np.abs(y - mu)
    if kind == "plus":
        return np.stack([np.quantile(test - r[:, None], e, axis=0), np.quantile(test + r[:, None], 1 - e, axis=0)], 1)
    q = np.quantile(r, 1 - e)
    return np.stack([test.min(0) - q, test.max(0) + q], 1)


def run_loo(s, mu, y, test, e):
    c = JackknifePlusConformalRegressor() if s["kind"] == "plus" else JackknifeMinmaxConformalRegressor()
    mk = (lambda a: arr(a).copy()) if s["np"] else (lambda a: jnp.array(arr(a)))
    a, b, d = mk(mu), mk(y), mk(test)
    if not s["one_d"]:
        a, b, d = a[:, None], b[:, None], d[:, :, None]
    return c.conformal_interval(a, b, d, error=e)


@case(loo_spec(), quick=1000, shards=3)
def jackknife(s, t):
    n, m = s["n"], s["m"]
    mu, y, test = np.array(s["mu"]), np.array(s["y"]), np.array(s["test"]).reshape(n, m)
    got = run_loo(s, mu, y, test, s["error"])
    t.nontrivial(n > 1 and len(set(np.abs(y - mu))) > 1)
    t.label(s["kind"], f"n{n}")
    t.close(got, ref_loo(s["kind"], mu, y, test, s["error"]), f"{s['kind']} interval", atol=2e-5)
    p = s["perm"]
    t.close(run_loo(s, mu[p], y[p], test[p], s["error"]), got, "interval after permuting the points", atol=2e-5)
    lo, hi = sorted([s["error"], s["e2"]])
    a, b = np.asarray(run_loo(s, mu, y, test, lo)), np.asarray(run_loo(s, mu, y, test, hi))
    t.check((a[:, 0] <= b[:, 0] + 2e-5).all() and (a[:, 1] >= b[:, 1] - 2e-5).all(),
            f"interval at error {hi} is not inside the one at {lo}", a, b)
    z, k = s["shift"], s["scale"]
    t.close(run_loo(s, k * mu + z, k * y + z, k * test + z, s["error"]), k * np.asarray(got) + z,
            "interval of shifted and scaled data", atol=1e-4)


@st.composite
def cv_spec(draw):
    k, m = draw(st.sampled_from([1, 2, 3, 4])), draw(st.sampled_from([1, 3]))
    sizes = [draw(st.sampled_from([1, 2, 4])) for _ in range(k)]
    return dict(
        m=m, sizes=sizes, mu=[draw(floats_mixed(n)) for n in sizes], y=[draw(floats_mixed(n)) for n in sizes],
        test=[draw(floats_mixed(m)) for _ in sizes], error=draw(dyadic_error()), perm=draw(permutation(k)),
        one_d=draw(st.booleans()),
    )


def run_cv(s, mu, y, test, t):
    mk = lambda a: jnp.array(arr(a)) if s["one_d"] else jnp.array(arr(a))[:, None]
    lists = [[mk(x) for x in v] for v in (mu, y, test)]
    copies = [list(v) for v in lists]
    got = CVPlusConformalRegressor().conformal_interval(*lists, error=s["error"])
    for a, b in zip(lists, copies):
        t.check(len(a) == len(b) and all(u is v for u, v in zip(a, b)), "the lists passed by the caller were changed")
    return got


@case(cv_spec(), quick=600, shards=3)
def cvplus(s, t):
    got = run_cv(s, s["mu"], s["y"], s["test"], t)
    left, right = [], []
    for mu, y, te in zip(s["mu"], s["y"], s["test"]):
        for a, b in zip(mu, y):
            left.append(np.array(te) - abs(a - b))
            right.append(np.array(te) + abs(a - b))
    want = np.stack([np.quantile(left, s["error"], axis=0), np.quantile(right, 1 - s["error"], axis=0)], 1)
    t.nontrivial(len(s["sizes"]) > 1 and len(set(map(tuple, s["test"]))) > 1)
    t.label(f"folds{len(s['sizes'])}", "unequal" if len(set(s["sizes"])) > 1 else "equal")
    t.close(got, want, "CV+ interval", atol=2e-5)
    p = s["perm"]
    again = run_cv(s, [s["mu"][i] for i in p], [s["y"][i] for i in p], [s["test"][i] for i in p], t)
    t.close(again, got, "CV+ interval after permuting the folds", atol=2e-5)
    one = run_cv(s, s["mu"], s["y"], [x[:1] for x in s["test"]], t)
    t.close(one, np.asarray(got)[:1], "CV+ interval of the first test point alone", atol=2e-5)


@case(st.sampled_from([1, 2, 5]).flatmap(lambda n: st.fixed_dictionaries(
    dict(v=grid(n, levels=5), a=grid(n, levels=5), b=grid(n, levels=5)))), quick=300)
def membership(s, t):
    v, iv = arr(s["v"]), np.sort(np.stack([arr(s["a"]), arr(s["b"])], 1), 1)
    got = np.asarray(JackknifePlusConformalRegressor().is_in(jnp.array(v), jnp.array(iv))).astype(bool)
    want = (iv[:, 0] <= v) & (v <= iv[:, 1])
    t.nontrivial(len(set(want.tolist())) == 2 or bool((v == iv[:, 0]).any() or (v == iv[:, 1]).any()))
    t.equal(got, want, "is_in")
