"""C11: probabilistic output layers and losses."""
from gens import *
from pbt import *

import jax
import jax.numpy as jnp
from fortuna.loss.classification.cross_entropy import cross_entropy_loss_fn
from fortuna.loss.classification.focal_loss import focal_loss_fn
from fortuna.loss.regression.scaled_mse import scaled_mse_fn
from fortuna.prob_output_layer.classification import ClassificationMaskedProbOutputLayer, ClassificationProbOutputLayer
from fortuna.prob_output_layer.regression import RegressionProbOutputLayer
from fortuna.utils.random import RandomNumberGenerator

PROPERTY = "C11"
RULE = (
    "1-6 outputs of 2-4 classes or 1-3 dimensions, logits in [-9, 9] with ties; non-trivial = more than one output and no "
    "constant row; sampling cases draw 3000-4000 targets and compare at more than 6 standard errors."
)
ASSUMPTIONS = ["The entropy of the regression layer is a Monte-Carlo estimate over the samples of the given key."]


@st.composite
def cls_spec(draw):
    n, c = draw(st.sampled_from([1, 2, 5])), draw(st.sampled_from([2, 3, 4]))
    hi = draw(st.sampled_from([2.0, 9.0]))
    return dict(n=n, c=c, o=draw(draw(st.sampled_from([grid, fine]))(n * c, -hi, hi)), y=draw(ints(n, c)),
                shift=draw(st.sampled_from([-40.0, -3.0, 0.5, 30.0])), seed=draw(seeds()), gamma=draw(st.sampled_from([0.0, 0.5, 1.0, 2.0, 3.0])))


@case(cls_spec(), quick=250, shards=4, cost=2)
def categorical(s, t):
    n, c = s["n"], s["c"]
    o, y = arr(s["o"], (n, c)), np.array(s["y"])
    L = ClassificationProbOutputLayer()
    x = np.float64(o)
    lp = x - np.log(np.exp(x).sum(1, keepdims=True))
    p = np.exp(lp)
    t.nontrivial(n > 1 and (np.ptp(x, axis=1) > 0).all())
    for k, jo in (("", jnp.array(o)), (" of shifted logits", jnp.array(o) + s["shift"])):
        tol = dict(rtol=1e-3, atol=2e-5) if k else {}
        t.close(L.log_prob(jo, jnp.array(y)), lp[np.arange(n), y], "log-probability" + k, **tol)
        t.close(L.mean(jo), p, "mean" + k, **tol)
        t.close(L.variance(jo), p * (1 - p), "variance" + k, **tol)
        t.close(L.std(jo), np.sqrt(p * (1 - p)), "std" + k, rtol=1e-3, atol=2e-3)
        t.close(L.std(jo, variances=jnp.array(arr(p))), np.sqrt(p), "std of given variances" + k)
        t.close(L.entropy(jo), -(p * lp).sum(1), "entropy" + k, **tol)
        t.check((np.asarray(L.entropy(jo)) >= -1e-5).all(), "negative entropy")
        for f in (L.mode, L.predict):
            m = np.asarray(f(jo))
            t.check((p[np.arange(n), m] >= p.max(1) - 1e-4).all(), "mode or prediction is not a most likely class" + k, m, p)
            if not k:
                t.equal(m, x.argmax(1), "mode / prediction")
    for j in range(n):  # row by row
        t.close(L.log_prob(jnp.array(o[j : j + 1]), jnp.array(y[j : j + 1])), lp[[j], [y[j]]], "log-probability of one row")
    M = ClassificationMaskedProbOutputLayer()
    t.close(M.log_prob(jnp.array(o), jnp.array(y)), np.where(y > 0, lp[np.arange(n), y], 0), "masked log-probability")
    t.close(M.mean(jnp.array(o)), p, "mean of the masked layer")
    # losses
    pt = p[np.arange(n), y]
    t.close(cross_entropy_loss_fn(jnp.array(o), jnp.array(y)), -np.log(pt).mean(), "cross-entropy")
    t.close(cross_entropy_loss_fn(jnp.array(o) + s["shift"], jnp.array(y)), -np.log(pt).mean(), "cross-entropy of shifted logits", rtol=1e-3, atol=2e-5)
    t.close(focal_loss_fn(jnp.array(o), jnp.array(y), gamma=s["gamma"]), -((1 - pt) ** s["gamma"] * np.log(pt)).mean(), "focal loss", rtol=1e-3)
    t.close(focal_loss_fn(jnp.array(o), jnp.array(y)), -((1 - pt) ** 2 * np.log(pt)).mean(), "focal loss at its default gamma", rtol=1e-3)


@case(cls_spec(), quick=40, shards=4, cost=2)
def categorical_sampling(s, t):
    n, c, N = s["n"], s["c"], 4000
    o = jnp.array(arr(s["o"], (n, c)))
    L = ClassificationProbOutputLayer()
    key = jax.random.PRNGKey(s["seed"])
    S = np.asarray(L.sample(N, o, rng=key))
    t.shape(S, (N, n), "samples")
    t.check(((S >= 0) & (S < c)).all(), "samples outside the classes")
    t.equal(np.asarray(L.sample(N, o, rng=key)), S, "samples from the same key")
    p = np.asarray(jax.nn.softmax(o, -1), dtype=np.float64)
    freq = np.stack([(S == k).mean(0) for k in range(c)], 1)
    tol = 6.5 * np.sqrt(p * (1 - p) / N) + 20 / N
    t.check((np.abs(freq - p) <= tol).all(), "sampled frequencies are not the probabilities", freq, p)
    h = N // 2  # first and second half alike, and independent draws
    t.check((np.abs((S[:h] == 0).mean(0) - p[:, 0]) <= 6.5 * np.sqrt(p[:, 0] * (1 - p[:, 0]) / h) + 20 / h).all(), "first half")
    given = np.full((n, c), 1 / c, dtype=np.float32)
    given[:, 0], given[:, 1:] = 0.5, 0.5 / (c - 1)
    G = np.asarray(L.sample(N, o, rng=key, probs=jnp.array(given)))
    fg = np.stack([(G == k).mean(0) for k in range(c)], 1)
    t.check((np.abs(fg - given) <= 6.5 * np.sqrt(given * (1 - given) / N) + 20 / N).all(), "samples with given probabilities", fg, given)
    if n > 1:
        for i in range(n):
            for j in range(i):
                both = ((G[:, i] == 0) & (G[:, j] == 0)).mean()
                t.check(abs(both - 0.25) < 6.5 * np.sqrt(0.1875 / N), "samples of different inputs are dependent", both)
    t.check(not np.array_equal(np.asarray(L.sample(N, o, rng=jax.random.PRNGKey(s["seed"] + 1), probs=jnp.array(given))), G), "another key, same samples")
    L.rng = RandomNumberGenerator(s["seed"])
    a, b = np.asarray(L.sample(N, o, probs=jnp.array(given))), np.asarray(L.sample(N, o, probs=jnp.array(given)))
    t.check(not np.array_equal(a, b), "two calls without a key return the same samples")
    t.nontrivial(n > 1)


@st.composite
def reg_spec(draw):
    n, d = draw(st.sampled_from([1, 2, 5])), draw(st.sampled_from([1, 2, 3]))
    return dict(n=n, d=d, m=draw(fine(n * d, -5, 5)), v=draw(fine(n * d, -4, 4)), y=draw(fine(n * d, -5, 5)), seed=draw(seeds()),
                error=draw(dyadic_error()), k=draw(st.sampled_from([2, 7, 30])))


@case(reg_spec(), quick=200, shards=4, cost=2)
def gaussian(s, t):
    n, d, N = s["n"], s["d"], s["k"]
    m, v, y = (arr(s[k], (n, d)) for k in "mvy")
    o, jy = jnp.array(np.concatenate([m, v], 1)), jnp.array(y)
    L = RegressionProbOutputLayer()
    var = np.exp(v.astype(np.float64))
    lp = -0.5 * ((y.astype(np.float64) - m) ** 2 / var + v + np.log(2 * np.pi)).sum(1)
    t.nontrivial(n > 1)
    t.label(f"d{d}")
    t.close(L.log_prob(o, jy), lp, "log-density")
    for f in (L.mean, L.mode, L.predict):
        t.close(f(o), m, "mean, mode, prediction")
    t.close(L.variance(o), var, "variance")
    t.close(L.std(o), np.sqrt(var), "std")
    t.close(L.std(o, variances=jnp.array(arr(y ** 2))), np.abs(y), "std of given variances")
    t.close(scaled_mse_fn(o, jy), (-2 * lp - d * np.log(2 * np.pi)).mean(), "scaled MSE")
    key = jax.random.PRNGKey(s["seed"])
    S = np.asarray(L.sample(N, o, rng=key))
    t.shape(S, (N, n, d), "samples")
    t.equal(np.asarray(L.sample(N, o, rng=key)), S, "samples from the same key")
    z = (S.astype(np.float64) - m) / np.sqrt(var)
    t.check(len(np.unique(np.round(z.ravel(), 6))) > 0.9 * z.size, "standardised samples repeat", z)
    ent = -np.stack([-0.5 * ((S[k] - m.astype(np.float64)) ** 2 / var + v + np.log(2 * np.pi)).sum(1) for k in range(N)]).mean(0)
    t.close(L.entropy(o, n_target_samples=N, rng=key), ent, "entropy from the samples of the key", rtol=1e-3, atol=1e-3)
    q = [s["error"] / 2, 1 - s["error"] / 2]
    t.close(L.quantile(q, o, n_target_samples=N, rng=key), np.quantile(S.astype(np.float64), q, axis=0), "quantiles of a list", rtol=1e-3, atol=1e-3)
    t.close(L.quantile(s["error"], o, n_target_samples=N, rng=key), np.quantile(S.astype(np.float64), s["error"], axis=0), "quantile", rtol=1e-3, atol=1e-3)
    if d == 1:
        for ty in ("two-tailed", "left-tailed", "right-tailed"):
            ci = L.credible_interval(o, n_target_samples=N, error=s["error"], interval_type=ty, rng=key)
            if ty == "two-tailed":
                t.close(ci, np.quantile(S[..., 0].astype(np.float64), q, axis=0).T, ty, rtol=1e-3, atol=1e-3)
            else:
                e = s["error"] if ty[0] == "l" else 1 - s["error"]
                t.close(ci, np.quantile(S.astype(np.float64), e, axis=0), ty, rtol=1e-3, atol=1e-3)
        t.raises(ValueError, lambda: L.credible_interval(o, interval_type="none", rng=key), "unknown interval type")
    else:
        t.raises(ValueError, lambda: L.credible_interval(o, rng=key), "credible interval of a vector")


@case(reg_spec(), quick=40, shards=4, cost=2)
def gaussian_sampling(s, t):
    n, d, N = s["n"], s["d"], 3000
    m, v = arr(s["m"], (n, d)), arr(s["v"], (n, d))
    o = jnp.array(np.concatenate([m, v], 1))
    L = RegressionProbOutputLayer()
    key = jax.random.PRNGKey(s["seed"])
    z = (np.float64(L.sample(N, o, rng=key)) - m) / np.exp(v.astype(np.float64) / 2)
    t.check((np.abs(z.mean(0)) < 6.5 / N ** 0.5).all(), "mean of the samples", z.mean(0))
    t.check((np.abs(z.var(0) - 1) < 6.5 * (2 / N) ** 0.5 + 0.01).all(), "variance of the samples", z.var(0))
    t.check((np.abs((z < 0.5).mean(0) - 0.69146) < 6.5 * (0.2134 / N) ** 0.5).all(), "distribution of the samples")
    f = z.reshape(N, -1)
    c = f.T @ f / N - np.eye(f.shape[1])
    np.fill_diagonal(c, 0)
    t.check((np.abs(c) < 6.5 / N ** 0.5).all(), "samples of different inputs or dimensions are dependent", c)
    t.check(abs((f[1:] * f[:-1]).mean()) < 6.5 / (f.size - f.shape[1]) ** 0.5, "consecutive samples are dependent")
    L.rng = RandomNumberGenerator(s["seed"])
    a, b = np.asarray(L.sample(5, o)), np.asarray(L.sample(5, o))
    t.check(not np.array_equal(a, b), "two calls without a key return the same samples")
    want = 0.5 * (np.log(2 * np.pi * np.e) + v).sum(1)
    got = np.asarray(L.entropy(o, n_target_samples=N, rng=key))
    t.check((np.abs(got - want) < 6.5 * (d / 2 / N) ** 0.5 + 0.01).all(), "entropy", got, want)
    t.nontrivial(n > 1)
