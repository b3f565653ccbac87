"""C21: predictive statistics as Monte-Carlo averages over the posterior samples."""
import os

os.environ["XLA_FLAGS"] = "--xla_force_host_platform_device_count=4 " + os.environ.get("XLA_FLAGS", "")

import itertools

from gens import *
from pbt import *

import jax
import jax.numpy as jnp
import optax
from fortuna.data.loader import DataLoader, InputsLoader
from fortuna.prob_model.posterior.posterior_multi_state_repository import PosteriorMultiStateRepository
from models import *

PROPERTY = "C21"
RULE = (
    "Deep ensembles of 1-3 given members (each with its own parameters, running statistics and temperature) of classifiers and regressors, and MAP "
    "models on one or four simulated devices; 1-5 posterior samples, 4-8 points in batches; every statistic has to be the one of some multiset of the "
    "members, computed from the formulas; non-trivial = several members and samples."
)
ASSUMPTIONS = [
    "A statistic of n posterior samples may use any n of the members, the same ones for all the points (of a batch).",
    "Entropies of regressors, which are Monte-Carlo estimates over target samples, are compared within about six standard errors.",
]


@st.composite
def pred_spec(draw, kinds=("clf", "reg")):
    s = draw(model_spec(kinds=kinds, archs=("linear", "mlp", "norm"), n=(4, 6), bs=(2, 3, 6)))
    s.update(m=draw(st.sampled_from([1, 2, 3, 3, 2])), samples=draw(st.integers(1, 5)), key=draw(seeds()), temps=[draw(st.sampled_from([0.0, 0.5, -0.7])) for _ in range(3)], dist=draw(st.booleans()))
    if s["m"] == 1:
        s["n"], s["bs"] = draw(st.sampled_from([(4, 4), (8, 4), (8, 8)]))
        s["x"] = draw(grid(s["n"] * D, -1, 1))
        s["y"] = draw(ints(s["n"], s["k"]) if s["kind"] == "clf" else grid(s["n"] * s["k"], -2, 2))
    return s


def setup(s):
    """The model, and the calibrated outputs of each of its members."""
    m = build(s, DeepEnsemblePosteriorApproximator(ensemble_size=s["m"]) if s["m"] > 1 else MAPPosteriorApproximator())
    x, y = data(s)
    opt, outs = optax.sgd(0.1), []
    if s["m"] == 1:
        js = start_from(s, m, opt)
        return m, x, y, [np.asarray(calibrated(s, outputs(s, js["params"], x, js["mutable"]), s["temp"]), np.float64)]
    m.posterior.state = PosteriorMultiStateRepository(size=s["m"])
    for i in range(s["m"]):
        si = dict(s, temp=None if s["temp"] is None else s["temps"][i])
        js = joint_state(si, m, w=np.roll(arr(s["w"]) * 1.5, 5 * i), scale=1.0 + i)
        mut = js["mutable"]
        if mut is not None:
            mut = jax.tree_util.tree_map(lambda v: v + 0.5 * i, mut)
        state = MAPState.init(params=js["params"], mutable=mut, optimizer=opt, calib_params=js["calib_params"], calib_mutable=js["calib_mutable"])
        m.posterior.state.put(jax.tree_util.tree_map(jnp.asarray, state), i=i)
        outs.append(np.asarray(calibrated(si, outputs(si, js["params"], x, mut), si["temp"]), np.float64))
    return m, x, y, outs


def some(t, got, candidates, msg, rtol=2e-4, atol=5e-5):
    """`got` is one of the candidates."""
    got = np.asarray(got, np.float64)
    for c in candidates:
        if got.shape != np.shape(c):
            t.fail(f"{msg}: shape {got.shape}, want {np.shape(c)}")
    t.check(any(np.allclose(got, c, rtol=rtol, atol=atol) for c in candidates), f"{msg}: not the one of any choice of the members", got, candidates[0])


def multisets(m, n):
    return list(itertools.combinations_with_replacement(range(m), n))


def batches(s):
    return [slice(i, i + s["bs"]) for i in range(0, s["n"], s["bs"])]


def stats(s, outs, y):
    """Per member: log-likelihood, mean, variance."""
    if s["kind"] == "clf":
        mean = [np.asarray(jax.nn.softmax(jnp.asarray(o), -1), np.float64) for o in outs]
        var = [p * (1 - p) for p in mean]
    else:
        mean, var = [o[:, : s["k"]] for o in outs], [np.exp(o[:, s["k"] :]) for o in outs]
    return [np.asarray(log_lik(s, jnp.asarray(o), y), np.float64) for o in outs], mean, var


@case(pred_spec(), quick=32, thorough=500, shards=8, tshards=8, cost=5)
def moments(s, t):
    m, x, y, outs = setup(s)
    ll, mean, var = stats(s, outs, y)
    dist = dict(distribute=s["dist"] and s["m"] == 1)
    n, rng = s["samples"], jax.random.PRNGKey(s["key"])
    il = lambda: InputsLoader.from_array_inputs(x, batch_size=s["bs"])
    kw = dict(n_posterior_samples=n, rng=rng, **dist)
    f = m.predictive
    sets = multisets(s["m"], n)
    avg = lambda a: [np.mean([a[i] for i in c], 0) for c in sets]
    e = np.asarray(f.ensemble_log_prob(loader(s), **kw))
    t.shape(e, (n, s["n"]), "ensemble log-probabilities")
    for r in e:
        some(t, r, ll, "log-probabilities of a posterior sample", rtol=1e-3, atol=1e-3)
    some(t, f.log_prob(loader(s), **kw), [np.log(np.mean([np.exp(ll[i]) for i in c], 0)) for c in sets], "log-probability", rtol=1e-3, atol=1e-3)
    o = np.asarray(f.sample_calibrated_outputs(il(), n_output_samples=24, rng=rng, **dist))
    t.shape(o, (24, s["n"], outs[0].shape[-1]), "calibrated outputs")
    for r in o:
        some(t, r, outs, "calibrated outputs of a posterior sample", rtol=1e-3, atol=1e-3)
    if s["m"] > 1 and all(not np.allclose(outs[0], q, atol=1e-2) for q in outs[1:]):
        hit = {int(np.argmin([np.abs(r - q).max() for q in outs])) for r in o}
        t.check(len(hit) > 1, "24 posterior samples are all of the same member")
    some(t, f.mean(il(), **kw), avg(mean), "mean")
    ale, epi = avg(var), [np.var([mean[i] for i in c], 0) for c in sets]
    va, ve = f.aleatoric_variance(il(), **kw), f.epistemic_variance(il(), **kw)
    some(t, va, ale, "aleatoric variance")
    some(t, ve, epi, "epistemic variance", rtol=1e-3, atol=2e-4 * (1 + max(np.abs(q).max() for q in mean) ** 2))
    some(t, f.variance(il(), **kw), [a + b for a in ale for b in epi], "variance", rtol=1e-3, atol=2e-4 * (1 + max(np.abs(q).max() for q in mean) ** 2))
    given = dict(aleatoric_variances=va, epistemic_variances=ve)
    t.close(f.variance(il(), **kw, **given), np.asarray(va) + np.asarray(ve), "variance from its parts")
    v = np.asarray(va) + np.asarray(ve) + 0.5
    t.close(f.std(il(), **kw, variances=jnp.asarray(v)), np.sqrt(v), "standard deviation from the variance")
    t.close(np.asarray(f.std(il(), **kw)) ** 2, f.variance(il(), **kw), "squared standard deviation", rtol=1e-3, atol=1e-5)
    mode = np.asarray(f.mode(il(), **kw))
    if s["kind"] == "reg":
        some(t, mode, avg(mean), "mode")
        t.equal(f.mode(il(), **kw, means=jnp.asarray(mean[0])), np.asarray(mean[0], np.float32), "mode from the means")
    else:
        ok = [a for a in avg(mean)]
        t.check(any(np.all(np.take_along_axis(a, mode[:, None], -1)[:, 0] >= a.max(-1) - 1e-4) for a in ok), "mode", mode, ok[0])
        t.equal(f.mode(il(), **kw, means=jnp.asarray(mean[0], jnp.float32)), np.argmax(mean[0], -1), "mode from the means")
    t.label(s["kind"], s["arch"], f"{s['m']} members", "distributed" if dist["distribute"] else "not distributed")
    t.nontrivial((s["m"] > 1 and n > 1) or dist["distribute"])


@case(pred_spec(("clf",)), quick=24, thorough=300, shards=6, tshards=8, cost=4)
def entropies_of_classifiers(s, t):
    m, x, y, outs = setup(s)
    p = stats(s, outs, y)[1]
    dist = dict(distribute=s["dist"] and s["m"] == 1)
    n, rng = s["samples"], jax.random.PRNGKey(s["key"])
    il = lambda: InputsLoader.from_array_inputs(x, batch_size=s["bs"])
    kw = dict(n_posterior_samples=n, rng=rng, **dist)
    h = lambda q: -np.sum(q * np.log(np.maximum(q, 1e-30)), -1)
    sets = multisets(s["m"], n)
    ale = [np.mean([h(p[i]) for i in c], 0) for c in sets]
    tot = [h(np.mean([p[i] for i in c], 0)) for c in sets]
    f = m.predictive
    some(t, f.aleatoric_entropy(il(), **kw), ale, "aleatoric entropy", atol=2e-4)
    some(t, f.epistemic_entropy(il(), **kw), [a - b for a, b in zip(tot, ale)], "epistemic entropy", atol=2e-4)
    some(t, f.entropy(il(), **kw), tot, "entropy", atol=2e-4)
    t.label(f"{s['m']} members", s["arch"])
    t.nontrivial(s["m"] > 1 and n > 1)


N = 4000


@case(pred_spec(("reg",)), quick=16, thorough=200, shards=8, tshards=8, cost=5)
def entropies_of_regressors(s, t):
    s = dict(s, k=1, y=s["y"][: s["n"]], samples=min(s["samples"], 3))
    m, x, y, outs = setup(s)
    ll, mean, var = stats(s, outs, y)
    n, rng = s["samples"], jax.random.PRNGKey(s["key"])
    il = lambda: InputsLoader.from_array_inputs(x, batch_size=s["bs"])
    kw = dict(n_posterior_samples=n, n_target_samples=N, rng=rng, distribute=s["dist"] and s["m"] == 1)
    sets = multisets(s["m"], n)
    h = [0.5 * np.log(2 * np.pi * np.e * v).sum(-1) for v in var]
    ale = [np.mean([h[i] for i in c], 0) for c in sets]
    tot = []
    for c in sets:  # by integration
        sd = [np.sqrt(v[:, 0]) for v in var]
        lo, hi = (np.min([mean[i][:, 0] - 8 * sd[i] for i in c], 0), np.max([mean[i][:, 0] + 8 * sd[i] for i in c], 0))
        g = lo + (hi - lo) * np.linspace(0, 1, 20001)[:, None]
        d = np.mean([np.exp(-0.5 * ((g - mean[i][:, 0]) / sd[i]) ** 2) / sd[i] / np.sqrt(2 * np.pi) for i in c], 0)
        tot.append(np.trapezoid(-d * np.log(d + 1e-300), g, axis=0) if hasattr(np, "trapezoid") else np.trapz(-d * np.log(d + 1e-300), g, axis=0))
    if min(v.min() for v in var) < 1e-3 * max(v.max() for v in var):  # the grid is too coarse
        return
    f = m.predictive
    se = 6 * 0.75 / np.sqrt(N)
    a, e, h_ = f.aleatoric_entropy(il(), **kw), f.epistemic_entropy(il(), **kw), f.entropy(il(), **kw)
    some(t, a, ale, "aleatoric entropy", rtol=0, atol=se)
    some(t, h_, tot, "entropy", rtol=0, atol=se * 2)
    some(t, e, [u - v for u, v in zip(tot, ale)], "epistemic entropy", rtol=0, atol=se * 2)
    t.label(f"{s['m']} members", s["arch"])
    t.nontrivial(s["m"] > 1 and n > 1)


@case(pred_spec(), quick=16, thorough=200, shards=8, tshards=8, cost=5)
def samples(s, t):
    m, x, y, outs = setup(s)
    ll, mean, var = stats(s, outs, y)
    dist = dict(distribute=s["dist"] and s["m"] == 1)
    rng = jax.random.PRNGKey(s["key"])
    il = lambda: InputsLoader.from_array_inputs(x, batch_size=s["bs"])
    f, q = m.predictive, 1500
    z, aux = f.sample(il(), n_target_samples=q, rng=rng, return_aux=["outputs"], **dist)
    z, o = np.asarray(z), np.asarray(aux["outputs"])
    t.equal(np.asarray(f.sample(il(), n_target_samples=q, rng=rng, **dist)), z, "samples for the same key")
    t.equal(z.shape, (q, s["n"]) + (() if s["kind"] == "clf" else (s["k"],)), "shape of the samples")
    t.equal(o.shape, (q, s["n"], outs[0].shape[-1]), "shape of the outputs")
    d = np.array([np.abs(o - u).max(-1) for u in outs])  # (member, sample, point)
    t.check(np.all(d.min(0) <= 1e-3 * (1 + np.abs(o).max())), "outputs of a sample which are of no member")
    w = np.full((len(outs), 1), 1 / len(outs))
    # each sample is a draw of the likelihood of its own outputs
    if s["kind"] == "clf":
        p = np.asarray(jax.nn.softmax(jnp.asarray(o), -1))
        for c in range(s["k"]):
            r = (z == c) - p[..., c]
            sd = np.sqrt((p[..., c] * (1 - p[..., c])).sum(0)) + 1
            t.check(np.all(np.abs(r.sum(0)) < 6 * sd + 1), f"frequency of label {c}", r.sum(0), sd)
    else:
        r = (z - o[..., : s["k"]]) / np.exp(0.5 * o[..., s["k"] :])
        t.check(np.all(np.abs(r.mean(0)) < 6 / np.sqrt(q)) and np.all(np.abs(r.std(0) - 1) < 6 / np.sqrt(2 * q)), "mean and deviation of the standardised samples", r.mean(0), r.std(0))
        u = np.array([np.corrcoef(r[:, i, 0], r[:, j, 0])[0, 1] for i in range(s["n"]) for j in range(i) if i // s["bs"] == j // s["bs"]])
        t.check(not dist["distribute"] and np.all(np.abs(u) < 6 / np.sqrt(q)) or dist["distribute"], "samples of different points are correlated", u)
    # the members come up equally often
    which = d.argmin(0)[:, 0]
    if len(outs) > 1 and all(np.abs(outs[i][0] - outs[j][0]).max() > 0.05 for i in range(len(outs)) for j in range(i)):
        fr = np.bincount(which, minlength=len(outs)) / q
        t.check(np.all(np.abs(fr - 1 / len(outs)) < 6 * 0.5 / np.sqrt(q)), "frequency of the members", fr)
    t.label(s["kind"], f"{s['m']} members")
    t.nontrivial(len(outs) > 1 or dist["distribute"])
