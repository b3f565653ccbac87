"""Small probabilistic models with a reference forward pass and log-joint written down independently."""
import numpy as np
from pbt import *

import flax.linen as nn
import jax
import jax.numpy as jnp
import optax
from flax.core import FrozenDict
from fortuna.data.loader import DataLoader
from fortuna.model import MLP
from fortuna.model.constant import ConstantModel
from fortuna.model.linear import LinearModel
from fortuna.output_calibrator.classification import ClassificationTemperatureScaler
from fortuna.output_calibrator.regression import RegressionTemperatureScaler
from fortuna.prob_model import *
from fortuna.prob_model import ProbClassifier, ProbRegressor
from fortuna.prob_model.fit_config.hyperparameters import FitHyperparameters
from fortuna.prob_model.posterior.map.map_state import MAPState
from fortuna.prob_model.posterior.posterior_state_repository import PosteriorStateRepository
from fortuna.prob_model.prior import IsotropicGaussianPrior

D = 2


class Norm(nn.Module):
    """Batch normalisation (a mutable running mean and variance), then a dense layer."""

    output_dim: int

    @nn.compact
    def __call__(self, x, train: bool = False, **kwargs):
        x = nn.BatchNorm(use_running_average=not train, momentum=0.5)(x)
        return nn.Dense(self.output_dim, name="last")(x)


def make(arch, k):
    if arch == "linear":
        return LinearModel(output_dim=k)
    if arch == "mlp":
        return MLP(k, widths=(2,), activations=(jnp.tanh,))
    if arch == "norm":
        return Norm(output_dim=k)
    return ConstantModel(output_dim=k)


def dense(p, x):
    return x @ p["kernel"] + p["bias"]


def fwd(arch, params, x, mutable=None):
    p = params["params"]
    if arch == "linear":
        return dense(p["last"], x)
    if arch == "mlp":
        return dense(p["output_subnet"]["last"], jnp.tanh(dense(p["dfe_subnet"]["hidden1"], x)))
    if arch == "norm":
        b, q = mutable["batch_stats"]["BatchNorm_0"], p["BatchNorm_0"]
        return dense(p["last"], (x - b["mean"]) / jnp.sqrt(b["var"] + 1e-5) * q["scale"] + q["bias"])
    return jnp.broadcast_to(p["constant"], (x.shape[0],) + p["constant"].shape)


def outputs(s, params, x, mutable=None):
    m = None if mutable is None else mutable.get("model")
    o = fwd(s["arch"], params["model"], x, m)
    if s["kind"] == "reg":
        v = None if mutable is None else mutable.get("lik_log_var")
        o = jnp.concatenate([o, fwd(s["varch"], params["lik_log_var"], x, v)], -1)
    return o


def calibrated(s, out, temp):
    """`temp`: the log-temperature."""
    if temp is None:
        return out
    if s["kind"] == "clf":
        return out * np.exp(-temp)
    k = out.shape[-1] // 2
    return jnp.concatenate([out[..., :k], out[..., k:] + temp], -1)


def log_lik(s, out, y):
    """Per point, from calibrated outputs (leading axes of `out` allowed)."""
    if s["kind"] == "clf":
        lp = out - jax.scipy.special.logsumexp(out, -1, keepdims=True)
        return (lp * jnp.eye(out.shape[-1])[y]).sum(-1)
    k = out.shape[-1] // 2
    m, v = out[..., :k], out[..., k:]
    return (-0.5 * ((y - m) ** 2 * jnp.exp(-v) + v + jnp.log(2 * jnp.pi))).sum(-1)


def log_prior(params, log_var):
    return sum((-0.5 * (x**2 * np.exp(-log_var) + log_var + np.log(2 * np.pi))).sum() for x in jax.tree_util.tree_leaves(params))


def neg_log_joint(s, params, x, y, n, temp=None, mutable=None):
    ll = log_lik(s, calibrated(s, outputs(s, params, x, mutable), temp), y).sum()
    return -(n / x.shape[0] * ll + log_prior(params, s["prior"]))


@st.composite
def model_spec(draw, kinds=("clf", "reg"), archs=("linear", "mlp"), n=(4, 9), bs=(1, 2, 3, 4), calibrator=True):
    kind = draw(st.sampled_from(kinds))
    k = draw(st.integers(2, 3)) if kind == "clf" else draw(st.integers(1, 2))
    n = draw(st.integers(*n))
    s = dict(kind=kind, k=k, n=n, bs=draw(st.sampled_from(bs)), arch=draw(st.sampled_from(archs)), seed=draw(st.integers(0, 999)),
             prior=draw(st.sampled_from([0.0, -1.0, 1.5])), x=draw(grid(n * D, -1, 1)),
             w=draw(grid(32, -1, 1)), temp=draw(st.sampled_from([None, 0.0, 0.7, -0.5])) if calibrator else 0.0)
    if kind == "clf":
        s["y"] = draw(ints(n, k))
    else:
        s["varch"] = draw(st.sampled_from(("linear", "const")))
        s["y"] = draw(grid(n * k, -2, 2))
    return s


def data(s):
    x = arr(s["x"], (s["n"], D))
    y = arr(s["y"], (s["n"],), np.int32) if s["kind"] == "clf" else arr(s["y"], (s["n"], s["k"]))
    return x, y


def loader(s, bs=None):
    x, y = data(s)
    return DataLoader.from_array_data((x, y), batch_size=bs or s["bs"])


def build(s, approximator, seed=None, **kw):
    seed = s["seed"] if seed is None else seed
    prior = IsotropicGaussianPrior(log_var=s["prior"])
    if s["kind"] == "clf":
        return ProbClassifier(model=make(s["arch"], s["k"]), prior=prior, posterior_approximator=approximator, seed=seed,
                              output_calibrator=ClassificationTemperatureScaler() if s["temp"] is not None else None, **kw)
    return ProbRegressor(model=make(s["arch"], s["k"]), likelihood_log_variance_model=make(s["varch"], s["k"]), prior=prior,
                         posterior_approximator=approximator, seed=seed, output_calibrator=RegressionTemperatureScaler() if s["temp"] is not None else None, **kw)


def joint_state(s, m, w=None, scale=1.0):
    """Parameters from the values `w` of the spec, in the structure of the model."""
    js = m.joint.init(input_shape=(D,))
    w = arr(s["w"] if w is None else w) * np.float32(scale)
    i = 0
    leaves, tree = jax.tree_util.tree_flatten(js.params)
    out = []
    for l in leaves:
        j = np.arange(i, i + l.size) % len(w)
        out.append(jnp.asarray(w[j].reshape(l.shape)))
        i += l.size
    cp = js.calib_params
    if s["temp"] is not None and cp is not None:
        cp = jax.tree_util.tree_map(lambda x: jnp.full_like(x, s["temp"]), cp)
    return dict(params=jax.tree_util.tree_unflatten(tree, out), mutable=js.mutable, calib_params=cp, calib_mutable=js.calib_mutable)


def start_from(s, m, optimizer, w=None):
    """Make the given parameters the current (MAP) state of the posterior."""
    js = joint_state(s, m, w)
    m.posterior.state = PosteriorStateRepository()
    m.posterior.state.put(MAPState.init(params=js["params"], mutable=js["mutable"], optimizer=optimizer, calib_params=js["calib_params"], calib_mutable=js["calib_mutable"]))
    return js


def config(method=None, n_epochs=2, freeze_fun=None, disable_jit=False, clip=None, acc=None, **kw):
    mon = {k: kw.pop(k) for k in list(kw) if k in ("metrics", "early_stopping_patience", "early_stopping_monitor", "eval_every_n_epochs", "early_stopping_min_delta")}
    cbs = kw.pop("callbacks", None)
    return FitConfig(
        optimizer=FitOptimizer(method=method or optax.sgd(0.01), n_epochs=n_epochs, freeze_fun=freeze_fun), monitor=FitMonitor(verbose=False, **mon),
        processor=FitProcessor(disable_jit=disable_jit), hyperparameters=FitHyperparameters(max_grad_norm=clip, gradient_accumulation_steps=acc),
        checkpointer=FitCheckpointer(**kw), callbacks=cbs)


FREEZE = {
    "none": None,
    "last": lambda p, v: "trainable" if "last" in p or p[0] == "lik_log_var" else "frozen",
    "bias": lambda p, v: "frozen" if p[-1] == "bias" else "trainable",
    "model": lambda p, v: "frozen" if p[0] == "lik_log_var" else "trainable",
}


def paths(params):
    """{path: array} of a nested tree."""
    out = {}

    def go(d, k):
        if hasattr(d, "items"):
            for a, b in d.items():
                go(b, k + (a,))
        else:
            out[k] = np.asarray(d)

    go(params, ())
    return out


def same(t, a, b, msg):
    pa, pb = paths(a), paths(b)
    t.equal(sorted(pa), sorted(pb), f"{msg}: entries")
    for k in pa:
        t.equal(pa[k], pb[k], f"{msg}: {'/'.join(k)}")


def near(t, a, b, msg, **tol):
    pa, pb = paths(a), paths(b)
    t.equal(sorted(pa), sorted(pb), f"{msg}: entries")
    for k in pa:
        t.close(pa[k], pb[k], f"{msg}: {'/'.join(k)}", **tol)
