"""C18: moments of the Laplace, SWAG and variational approximations."""
from gens import *
from pbt import *

import jax
import jax.numpy as jnp
import optax
from fortuna.prob_model import ADVIPosteriorApproximator, LaplacePosteriorApproximator, SWAGPosteriorApproximator
from fortuna.training.callback import Callback
from models import *

PROPERTY = "C18"
RULE = (
    "Classifiers (2-3 classes) and heteroscedastic regressors (1-2 outputs), linear or with one tanh layer, with or without a "
    "(non-unit) temperature, 4-9 points in batches of 1-4 (ragged last), three prior scales, four freezing rules, started from "
    "given parameters; Laplace: Gauss-Newton diagonal by full Jacobians; SWAG: moments of the iterates seen by a callback, "
    "ranks 2-3; variational: a noiseless base makes training deterministic, standardised samples are compared with the "
    "normal law; non-trivial = more than one batch and some parameter free."
)
ASSUMPTIONS = [
    "The scale of the low-rank part of SWAG is only required to be between 1/(2 rank) and 1/(2 (rank - 1)).",
    "Distribution checks use fixed thresholds with an error probability below 1e-6.",
]


def ordered(p):
    return [(tuple(k.key for k in kp), np.asarray(v)) for kp, v in jax.tree_util.tree_flatten_with_path(p)[0]]


def free_paths(s, params):
    f = FREEZE[s["freeze"]]
    return [k for k, v in ordered(params) if f is None or f(k, v) == "trainable"]


def frozen_kept(s, t, p, p0, free):
    a, b = paths(p), paths(p0)
    t.equal(sorted(a), sorted(b), "entries of the sampled parameters")
    for k in a:
        t.equal(a[k].shape, b[k].shape, f"shape of {'/'.join(k)}")
        if k not in free:
            t.equal(a[k], b[k], f"frozen parameter {'/'.join(k)}")


def normal(t, z, msg):
    """z: values that should be independent standard normal."""
    z = np.concatenate([np.ravel(v) for v in z]).astype(np.float64)
    n = len(z)
    t.check(abs(z.mean()) < 5.2 / np.sqrt(n), f"{msg}: mean of the standardised samples", z.mean(), n)
    t.check(abs((z**2).mean() - 1) < 5.5 * np.sqrt(2 / n) + 20 / n, f"{msg}: variance of the standardised samples", (z**2).mean(), n)


@st.composite
def laplace_spec(draw):
    s = draw(model_spec())
    s.update(freeze=draw(st.sampled_from(list(FREEZE))), lv=draw(st.sampled_from([None, -1.0, 2.0])), key=draw(st.integers(0, 999)))
    return s


def gauss_newton(s, params, x, y, free):
    """Sum over points of the diagonal of J^T (-H) J, H the Hessian of the log-likelihood in the calibrated outputs."""
    tree = jax.tree_util.tree_structure(params)

    def out(p, xi):
        return calibrated(s, outputs(s, p, xi[None]), s["temp"])[0]

    @jax.jit
    def one(p, xi, yi):
        o = out(p, xi)
        h = -jax.hessian(lambda o: log_lik(s, o[None], yi[None])[0])(o)
        j = jax.jacfwd(lambda p: out(p, xi))(p)
        return jax.tree_util.tree_map(lambda a: jnp.einsum("i...,ij,j...->...", a, h, a), j)

    tot = None
    for xi, yi in zip(x, y):
        g = one(params, xi, yi)
        tot = g if tot is None else jax.tree_util.tree_map(lambda a, b: a + b, tot, g)
    return {k: v for k, v in ordered(tot) if k in free}


@case(laplace_spec(), quick=40, shards=8, cost=6)
def laplace(s, t):
    m = build(s, LaplacePosteriorApproximator(tune_prior_log_variance=False))
    opt = optax.sgd(0.1)
    p0 = start_from(s, m, opt)["params"]
    m.posterior.fit(loader(s), fit_config=config(opt, 1, FREEZE[s["freeze"]], start_from_current_state=True))
    free = free_paths(s, p0)
    x, y = data(s)
    h = gauss_newton(s, p0, x, y, free)
    t.label(s["kind"], s["arch"], f"frozen {s['freeze']}")
    t.nontrivial(s["n"] > s["bs"] and len(free) > 0)
    mean = paths(p0)
    z = []
    for i in range(8):
        key = jax.random.PRNGKey(s["key"] + i)
        a = m.posterior.sample(rng=key)
        b = m.posterior.sample(rng=key, prior_log_var=-3.0)
        frozen_kept(s, t, a.params, p0, free)
        pa, pb = paths(a.params), paths(b.params)
        lv = s["prior"]
        for k in free:
            zk = (pa[k] - mean[k]).astype(np.float64) * np.sqrt(np.exp(-lv) + h[k])
            z.append(zk)
            t.close(pb[k], mean[k] + zk / np.sqrt(np.exp(3.0) + h[k]), f"sample of {'/'.join(k)} under another prior variance", rtol=1e-3, atol=3e-4)
        if i == 0 and s["lv"] is not None:
            c = paths(m.posterior.sample(rng=key, prior_log_var=s["lv"]).params)
            for k, zk in zip(free, z):
                t.close(c[k], mean[k] + zk / np.sqrt(np.exp(-s["lv"]) + h[k]), f"sample of {'/'.join(k)} under another prior variance", rtol=1e-3, atol=3e-4)
    if z:
        normal(t, z, "Laplace")
        flat = np.concatenate([np.ravel(v) for v in z])
        t.check(len(np.unique(np.round(flat, 5))) > 0.9 * len(flat), "the noise repeats itself")


class Iterates(Callback):
    def __init__(self):
        self.p = []

    def training_step_end(self, state):
        self.p.append(jax.device_get(state.params))
        return state


@st.composite
def swag_spec(draw):
    s = draw(model_spec())
    s.update(freeze=draw(st.sampled_from(list(FREEZE))), rank=draw(st.integers(2, 3)), extra=draw(st.integers(1, 3)), nojit=draw(st.booleans()), key=draw(st.integers(0, 999)))
    return s


def draws(m, n, key):
    f = jax.jit(lambda k: m.posterior.sample(rng=k).params)
    return [f(k) for k in jax.random.split(jax.random.PRNGKey(key), n)]


@case(swag_spec(), quick=32, shards=8, cost=6)
def swag(s, t):
    m = build(s, SWAGPosteriorApproximator(rank=s["rank"]))
    opt = optax.sgd(0.3 / s["n"])
    p0 = start_from(s, m, opt)["params"]
    it = Iterates()
    m.posterior.fit(loader(s), fit_config=config(opt, s["rank"] + s["extra"], FREEZE[s["freeze"]], s["nojit"], start_from_current_state=True, callbacks=[it]))
    free = free_paths(s, p0)
    per = -(-s["n"] // s["bs"])
    t.equal(len(it.p), per * (s["rank"] + s["extra"]), "number of steps")
    t.label(s["kind"], s["arch"], f"frozen {s['freeze']}", "one step per epoch" if per == 1 else "several steps per epoch")
    t.nontrivial(per > 1 and len(free) > 0)
    v = np.array([np.concatenate([np.ravel(dict(ordered(p))[k]) for k in free]) for p in it.p]).astype(np.float64)
    mu = v.mean(0)
    var = v.var(0)
    dev = np.array([v[i] - v[: i + 1].mean(0) for i in range(len(v))])[-s["rank"] :]
    sd = m.posterior.state.get()
    t.close(sd.mean, mu, "mean of the iterates", rtol=1e-4, atol=1e-5)
    t.close(np.asarray(sd.std) ** 2, var, "variance of the iterates", rtol=1e-2, atol=3e-6)
    t.close(np.asarray(sd.dev).T, dev, "last deviations", rtol=1e-3, atol=2e-5)
    frozen_kept(s, t, sd.params, p0, free)
    n = 300
    ps = draws(m, n, s["key"])
    frozen_kept(s, t, ps[0], p0, free)
    w = np.array([np.concatenate([np.ravel(dict(ordered(p))[k]) for k in free]) for p in ps]).astype(np.float64) - mu
    low = (dev**2).sum(0)
    lo, hi = 0.5 * var + 0.5 / s["rank"] * low, 0.5 * var + 0.5 / (s["rank"] - 1) * low
    tot = (w**2).mean(0)
    t.check(np.all(tot < 1.7 * hi + 1e-9) and np.all(tot > 0.5 * lo - 1e-9), "variance of the samples", tot, lo, hi)
    # the samples leave the last deviations only by independent noise of the stated diagonal variance
    q = np.linalg.svd(dev / (np.sqrt(var) + 1e-12), full_matrices=True)
    null = q[2][np.sum(q[1] > 1e-3 * max(q[1].max(), 1e-12)) :]
    if len(null) and np.all(var > 1e-8):
        u = (w / np.sqrt(0.5 * var)) @ null.T
        normal(t, [u], "diagonal part of SWAG")


@st.composite
def advi_spec(draw):
    s = draw(model_spec())
    s.update(freeze=draw(st.sampled_from(list(FREEZE))), epochs=draw(st.integers(1, 3)), base=draw(st.sampled_from([-30.0, -30.0, -1.0, 0.0])), samples=draw(st.integers(1, 3)),
             nojit=draw(st.booleans()), start=draw(st.booleans()), key=draw(st.integers(0, 999)))
    return s


@case(advi_spec(), quick=32, shards=8, cost=6)
def variational(s, t):
    lr = (0.3 if s["base"] < -9 else 0.01) / s["n"]
    opt = optax.sgd(lr)
    m = build(s, ADVIPosteriorApproximator(std_init_params=0.2, log_std_base=s["base"], n_loss_samples=s["samples"]))
    p0 = start_from(s, m, opt)["params"]
    it = Iterates()
    status = m.posterior.fit(loader(s), fit_config=config(opt, s["epochs"], FREEZE[s["freeze"]], s["nojit"], start_from_current_state=True, callbacks=[it]))
    free = free_paths(s, p0)
    per = -(-s["n"] // s["bs"])
    t.label(s["kind"], s["arch"], f"frozen {s['freeze']}", "noiseless" if s["base"] < -9 else "noisy")
    t.nontrivial(per > 1 and len(free) > 0)
    one = m.posterior.sample(rng=jax.random.PRNGKey(s["key"]))
    frozen_kept(s, t, one.params, p0, free)
    t.equal(len(it.p), per * s["epochs"], "number of steps")
    size = sum(paths(p0)[k].size for k in free)
    t.equal(np.asarray(it.p[-1]["mean"]).shape, (size,), "number of variational means")

    def split(v):
        out, i = {}, 0
        for k in free:
            n = paths(p0)[k].size
            out[k] = np.asarray(v[i : i + n]).reshape(paths(p0)[k].shape)
            i += n
        return out

    if s["base"] < -9:
        # without noise the bound is minus the log-joint at the mean minus the sum of log-scales
        x, y = data(s)
        g = jax.jit(jax.value_and_grad(lambda p, x, y: neg_log_joint(s, p, x, y, s["n"], s["temp"])))
        p, hist = p0, []
        ls = np.asarray(it.p[0]["log_std"]).astype(np.float64) - lr
        for e in range(s["epochs"]):
            for j, i in enumerate(range(0, s["n"], s["bs"])):
                l, d = g(p, x[i : i + s["bs"]], y[i : i + s["bs"]])
                hist.append(float(l) - ls.sum())
                d = paths(d)
                p = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(p), [v - lr * d[k] if k in free else v for k, v in ordered(p)])
                ls = ls + lr
                st_ = it.p[e * per + j]
                t.close(st_["log_std"], ls, "log-scales", rtol=1e-3, atol=1e-4)
                for k, v in split(st_["mean"]).items():
                    t.close(v, paths(p)[k], f"variational mean of {'/'.join(k)}", rtol=1e-3, atol=2e-4)
        for k, v in paths(one.params).items():
            t.close(v, paths(p)[k], f"sample of {'/'.join(k)} without noise", rtol=1e-3, atol=2e-4)
        t.close(status["advi"]["loss"], np.mean(np.reshape(hist, (s["epochs"], per)), 1), "history of the loss", rtol=2e-3, atol=2e-3)
        return
    mean, ls = split(it.p[-1]["mean"]), split(it.p[-1]["log_std"])
    ps = draws(m, 60, s["key"])
    z = [(paths(p)[k] - mean[k]) / np.exp(ls[k] + s["base"]) for p in ps for k in free]
    if z:
        normal(t, z, "variational samples")
        flat = np.concatenate([np.ravel(v) for v in z])
        t.check(len(np.unique(np.round(flat, 4))) > 0.8 * len(flat), "the noise repeats itself")
