"""C04: EnbPI."""
from gens import *
from pbt import *

import jax.numpy as jnp
from fortuna.conformal import EnbPI

PROPERTY = "C04"
RULE = (
    "Bootstrap tables of 2-5 replicates over 3-8 points with every point left out of at least one replicate, mean / "
    "median / first-replicate aggregation, then up to 4 residual updates of generated sizes; non-trivial = replicates "
    "differ and (updates) an update replaces some but not all residuals."
)
ASSUMPTIONS = ["Points that every bootstrap sample contains (no leave-one-out predictor exists) are outside the domain."]
AGG = {
    "mean": (None, lambda x: np.mean(x, 0)),
    "median": (lambda x: jnp.median(x, 0), lambda x: np.median(x, 0)),
    "max": (lambda x: jnp.max(x, 0), lambda x: np.max(x, 0)),
}


@st.composite
def boot(draw):
    b, n, m = draw(st.sampled_from([2, 5])), draw(st.sampled_from([3, 8])), draw(st.sampled_from([1, 3]))
    idx = [draw(ints(n, n)) for _ in range(b)]
    # leave every point out of some replicate
    for p in range(n):
        if all(p in row for row in idx):
            row = idx[p % b]
            repl = next(q for q in range(n) if q != p and q in row or q == (p + 1) % n and q != p)
            idx[p % b] = [repl if v == p else v for v in row]
    return dict(b=b, n=n, m=m, idx=idx, train=draw(floats_mixed(b * n)), test=draw(floats_mixed(b * m)),
                y=draw(floats_mixed(n)), error=draw(dyadic_error()), agg=draw(st.sampled_from(sorted(AGG))),
                dims=draw(st.booleans()))


def make(agg):
    f = AGG[agg][0]
    return EnbPI() if f is None else EnbPI(aggregation_fun=f)


def ref(s):
    f = AGG[s["agg"]][1]
    b, n, m = s["b"], s["n"], s["m"]
    train, test, y = np.array(s["train"]).reshape(b, n), np.array(s["test"]).reshape(b, m), np.array(s["y"])
    res, cen = [], []
    for p in range(n):
        out = [i for i in range(b) if p not in s["idx"][i]]
        res.append(abs(y[p] - f(train[out, p])))
        cen.append(f(test[out]))
    q, c = np.quantile(res, 1 - s["error"]), np.quantile(cen, 1 - s["error"], axis=0)
    return np.stack([c - q, c + q], 1), np.array(res)


def usable(s):
    return all(any(p not in row for row in s["idx"]) for p in range(s["n"]))


@case(boot().filter(usable), quick=700, shards=3)
def leave_one_out(s, t):
    b, n, m = s["b"], s["n"], s["m"]
    idx = np.array(s["idx"])
    train, test, y = arr(s["train"], (b, n)), arr(s["test"], (b, m)), arr(s["y"])
    if s["dims"]:
        train, test, y = train[..., None], test[..., None], y[:, None]
    copies = [x.copy() for x in (idx, train, test, y)]
    got, res = make(s["agg"]).conformal_interval(
        jnp.array(idx), jnp.array(train), jnp.array(test), jnp.array(y), s["error"], return_residuals=True)
    want, wres = ref(s)
    t.nontrivial(len({tuple(sorted(set(r))) for r in s["idx"]}) > 1)
    t.label(s["agg"], f"out{min(sum(p not in r for r in s['idx']) for p in range(n))}")
    t.close(res, wres, "out-of-bag residuals", atol=2e-5)
    t.close(got, want, "interval", atol=3e-5)
    alone = make(s["agg"]).conformal_interval(jnp.array(idx), jnp.array(train), jnp.array(test), jnp.array(y), s["error"])
    t.close(alone, got, "interval without the residuals")
    for a, c in zip((idx, train, test, y), copies):
        t.equal(a, c, "an input was changed")


@st.composite
def history(draw):
    n, b = draw(st.sampled_from([3, 6])), draw(st.sampled_from([1, 3]))
    ups = []
    for _ in range(draw(st.integers(1, 4))):
        k, m = draw(st.sampled_from([1, 2, 3])), draw(st.sampled_from([1, 2]))
        ups.append(dict(k=k, m=m, train=draw(floats_mixed(b * k)), test=draw(floats_mixed(b * m)),
                        y=draw(floats_mixed(k)), error=draw(dyadic_error()), dims=draw(st.booleans())))
    return dict(n=n, b=b, res=draw(fine(n, 0.0, 4.0)), ups=ups, agg=draw(st.sampled_from(sorted(AGG))))


@case(history(), quick=700, shards=3)
def sliding(s, t):
    """Each update is compared with a list that drops the oldest residuals; arrays held by the caller never change."""
    f = AGG[s["agg"]][1]
    model = [float(v) for v in arr(s["res"])]
    cur, held = arr(s["res"]), []
    t.nontrivial(any(u["k"] < s["n"] for u in s["ups"]) and len(s["ups"]) > 1)
    for u in s["ups"]:
        train, test, y = arr(u["train"], (s["b"], u["k"])), arr(u["test"], (s["b"], u["m"])), arr(u["y"])
        new = np.abs(y - f(train))
        center = f(test)
        if u["dims"]:
            train, test, y = train[..., None], test[..., None], y[:, None]
        held.append((cur, np.array(cur).copy()))
        got, cur = make(s["agg"]).conformal_interval_from_residuals(
            cur, jnp.array(train), jnp.array(test), jnp.array(y), u["error"])
        model = (model + [float(v) for v in new])[u["k"]:]
        t.close(cur, model, "residuals after the update", atol=2e-5)
        q = np.quantile(model, 1 - u["error"])
        t.close(got, np.stack([center - q, center + q], 1), "interval after the update", atol=3e-5)
        for a, c in held:
            t.equal(np.asarray(a), c, "residuals held by the caller were changed")
