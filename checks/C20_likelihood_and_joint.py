"""C20: likelihoods over loaders, batched or distributed, and the batched joint."""
import os

os.environ["XLA_FLAGS"] = "--xla_force_host_platform_device_count=4 " + os.environ.get("XLA_FLAGS", "")

from gens import *
from pbt import *

import jax
import jax.numpy as jnp
from fortuna.data.loader import DataLoader, InputsLoader
from models import *

PROPERTY = "C20"
RULE = (
    "Classifiers (2-3 classes) and regressors (1-2 targets, a linear, constant or batch-normalised log-variance) on linear, two-layer and "
    "batch-normalised networks with given parameters, running statistics and temperatures, 4-12 points in batches of 1-12, on one or four "
    "(simulated) devices, against the formulas on the full arrays; joints on each batch, in training mode or not; non-trivial = several batches or devices."
)
ASSUMPTIONS = ["Distributed over four devices, the data loaders' batches (and the last one) are multiples of four."]


@st.composite
def lik_spec(draw):
    s = draw(model_spec(archs=("linear", "mlp", "norm")))
    if draw(st.booleans()):
        s["n"] = draw(st.sampled_from([4, 8, 12]))
        s["bs"], s["distribute"] = draw(st.sampled_from([4, 8, 12])), True
        s["x"] = draw(grid(s["n"] * D, -1, 1))
        s["y"] = draw(ints(s["n"], s["k"]) if s["kind"] == "clf" else grid(s["n"] * s["k"], -2, 2))
    else:
        s["bs"], s["distribute"] = draw(st.sampled_from([1, 2, 3, 5, 12])), False
    if s["kind"] == "reg" and s["arch"] != "norm" and draw(st.booleans()):
        s["varch"] = "norm"
    s.update(key=draw(seeds()), samples=draw(st.integers(1, 4)), stats=draw(st.booleans()), bmult=draw(st.integers(1, 3)), size=draw(st.integers(1, 30)))
    return s


def setup(s):
    m = build(s, MAPPosteriorApproximator())
    js = joint_state(s, m)
    mut = js["mutable"]
    if mut is not None and s["stats"]:  # running statistics away from 0 and 1
        i = iter(np.resize(arr(s["w"]), 64))
        mut = jax.tree_util.tree_map(lambda v: jnp.asarray([np.abs(next(i)) * 2 + 0.25 for _ in range(v.size)], v.dtype).reshape(v.shape), mut)
    return m, js, mut, dict(mutable=mut, calib_params=js["calib_params"], calib_mutable=js["calib_mutable"])


def moments(s, out):
    """Mean, mode, variance and (classification only) entropy from calibrated outputs."""
    if s["kind"] == "clf":
        p = np.exp(out - jax.scipy.special.logsumexp(out, -1, keepdims=True))
        return p, np.argmax(out, -1), p * (1 - p), -np.sum(p * np.log(np.maximum(p, 1e-30)), -1)
    k = s["k"]
    return out[:, :k], out[:, :k], np.exp(out[:, k:]), None


@case(lik_spec(), quick=40, thorough=600, shards=8, tshards=8, cost=4)
def likelihood_over_loaders(s, t):
    m, js, mut, kw = setup(s)
    p, lik, dist = js["params"], m.likelihood, dict(distribute=s["distribute"])
    x, y = data(s)
    raw = np.asarray(outputs(s, p, x, mut))
    out = np.asarray(calibrated(s, raw, s["temp"]))
    il = lambda: InputsLoader.from_array_inputs(x, batch_size=s["bs"])
    tol = dict(rtol=1e-4, atol=2e-5)
    t.close(lik.get_outputs(p, il(), mut, **dist), raw, "outputs", **tol)
    t.close(lik.get_calibrated_outputs(p, il(), **kw, **dist), out, "calibrated outputs", **tol)
    t.close(lik.log_prob(p, loader(s), **kw, **dist), np.asarray(log_lik(s, out, y)), "log-probabilities", **tol)
    mean, mode, var, ent = moments(s, out)
    t.close(lik.mean(p, il(), **kw, **dist), mean, "means", **tol)
    if s["kind"] == "reg" or np.all(np.diff(np.sort(out, -1), axis=-1)[:, -1] > 1e-4):
        t.close(lik.mode(p, il(), **kw, **dist), mode, "modes", **tol)
    t.close(lik.variance(p, il(), **kw, **dist), var, "variances", **tol)
    t.close(lik.std(p, il(), **kw, **dist), np.sqrt(var), "standard deviations", rtol=1e-3, atol=2e-4)
    key = jax.random.PRNGKey(s["key"])
    draw = lambda l: np.asarray(lik.sample(s["samples"], p, l, **kw, **dist, rng=key))
    z = draw(il())
    t.equal(z.shape, (s["samples"], s["n"]) + (() if s["kind"] == "clf" else (s["k"],)), "shape of the samples")
    t.equal(draw(il()), z, "samples for the same key")
    whole = InputsLoader.from_array_inputs(x, batch_size=s["n"])
    z1, aux = lik.sample(s["samples"], p, whole, **kw, **dist, rng=key, return_aux=["outputs"])
    t.close(aux["outputs"], out, "auxiliary outputs of the samples", **tol)
    if s["kind"] == "clf":
        t.check(np.mean(np.asarray(z1) != z) <= 0.05 + 1 / z.size, "samples over batches and over the whole data", (z1, z))
        t.check(np.all((z >= 0) & (z < s["k"])), "a sampled label out of range")
        t.close(lik.entropy(p, il(), **kw, **dist), ent, "entropies", rtol=1e-3, atol=1e-4)
    else:
        t.close(z1, z, "samples over batches and over the whole data", rtol=1e-3, atol=1e-3)
        e = lik.entropy(p, il(), **kw, **dist, n_target_samples=s["samples"], rng=key)
        t.close(e, -np.mean([np.asarray(log_lik(s, out, v)) for v in z], 0), "entropies", rtol=1e-3, atol=1e-3)
        q = lik.quantile(jnp.asarray([0.1, 0.5, 0.9]), p, il(), **kw, **dist, n_target_samples=s["samples"], rng=key)
        t.close(q, np.quantile(z, [0.1, 0.5, 0.9], axis=0), "quantiles", rtol=1e-3, atol=1e-3)
    bad = lambda **k: lik.sample(s["samples"], p, il(), **kw, **dist, rng=key, **k)
    try:
        bad(return_aux=["other"])
        t.fail("unknown auxiliary object accepted")
    except Exception as e:
        t.check("other" in str(e), "the error does not name the unknown auxiliary object", e)
    t.label(s["kind"], s["arch"], "distributed" if s["distribute"] else "not distributed", "calibrated" if s["temp"] is not None else "not calibrated")
    t.nontrivial(s["bs"] < s["n"] or s["distribute"])


def train_outputs(s, p, x, mut):
    """Outputs in training mode, and the running statistics after it."""
    parts, new = [], {}
    for part, arch in (("model", s["arch"]), ("lik_log_var", s.get("varch"))):
        if part == "lik_log_var" and s["kind"] == "clf":
            continue
        stats = None
        if arch == "norm":
            b = mut[part]["batch_stats"]["BatchNorm_0"]
            stats = dict(mean=x.mean(0), var=x.var(0))
            new[part] = {k: 0.5 * np.asarray(b[k]) + 0.5 * stats[k] for k in stats}
            stats = {"batch_stats": {"BatchNorm_0": stats}}
        parts.append(np.asarray(fwd(arch, p[part], x, stats)))
    return np.concatenate(parts, -1), new


@case(lik_spec(), quick=60, thorough=600, shards=6, tshards=8, cost=2)
def joint(s, t):
    m, js, mut, kw = setup(s)
    p = js["params"]
    x, y = data(s)
    pri = m.prior.log_joint_prob(p)
    t.close(pri, log_prior(p, s["prior"]), "log-prior", rtol=1e-4, atol=1e-4)
    f, g = m.joint._batched_log_joint_prob, m.joint._batched_negative_log_joint_prob
    out = np.asarray(calibrated(s, outputs(s, p, x, mut), s["temp"]))
    ll = np.asarray(log_lik(s, out, y))
    tol = dict(rtol=1e-4, atol=2e-3)
    full = f(p, (x, y), s["n"], **kw)
    t.close(full, ll.sum() + pri, "log-joint on all the data", **tol)
    t.close(g(p, (x, y), s["n"], **kw), -(ll.sum() + pri), "negative log-joint on all the data", **tol)
    b = next(b for b in (s["bs"], 4, 3, 2, 1) if b <= s["n"])
    size = s["size"]
    parts = [slice(i, i + b) for i in range(0, s["n"], b)]
    for q in parts:
        k = len(y[q])
        want = size / k * ll[q].sum() + pri
        t.close(f(p, (x[q], y[q]), size, **kw), want, "log-joint on a batch", **tol)
        v, aux = g(p, (x[q], y[q]), size, return_aux=["outputs"], **kw)
        t.close(v, -want, "negative log-joint on a batch", **tol)
        t.close(aux["outputs"], out[q], "auxiliary outputs", **tol)
        if s["temp"] is not None:
            raw = outputs(s, p, x[q], mut)
            t.close(f(p, (x[q], y[q]), size, outputs=raw, **kw), want, "log-joint from given outputs", **tol)
    if s["n"] % b == 0:
        t.close(np.mean([f(p, (x[q], y[q]), s["n"], **kw) for q in parts]), full, "average of the log-joint on batches", **tol)
    # in training
    aux = ["outputs"] + (["mutable"] if mut is not None else []) + (["calib_mutable"] if s["size"] % 2 else [])
    q = parts[0]
    v, a = g(p, (x[q], y[q]), size, return_aux=aux, train=True, rng=jax.random.PRNGKey(0), **kw)
    o, new = train_outputs(s, p, x[q], mut)
    o = np.asarray(calibrated(s, o, s["temp"]))
    norm = len(y[q]) == 1 and new  # normalised by a standard deviation of zero
    t.close(a["outputs"], o, "outputs in training", rtol=1e-3, atol=1e-3 if not norm else 2e-2)
    t.close(v, -(size / len(y[q]) * np.asarray(log_lik(s, o, y[q])).sum() + pri), "negative log-joint in training", rtol=1e-3, atol=5e-3 if not norm else 0.5)
    t.equal(sorted(a), sorted(aux), "auxiliary objects")
    for part, d in new.items():
        for k in d:
            t.close(a["mutable"][part]["batch_stats"]["BatchNorm_0"][k], d[k], f"running {k} of {part}", rtol=1e-4, atol=1e-5)
    t.raises(ValueError, lambda: f(p, (x, y), size, train=True, outputs=jnp.asarray(out), **kw), "outputs given in training")
    t.raises(AttributeError, lambda: f(p, (x, y), size, return_aux=["other"], **kw), "unknown auxiliary object")
    t.raises(ValueError, lambda: f(p, (x, y), size, return_aux=["mutable"], **kw), "mutable returned out of training")
    t.label(s["kind"], s["arch"], "calibrated" if s["temp"] is not None else "not calibrated", "mutable" if mut is not None else "no mutable")
    t.nontrivial(len(parts) > 1)
