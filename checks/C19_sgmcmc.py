"""C19: step-size schedules, preconditioners, integrators, sampling callbacks, chains and diagnostics of SGMCMC."""
from gens import *
from pbt import *

import functools
import itertools

import jax
import jax.numpy as jnp
import optax
from fortuna.prob_model import CyclicalSGLDPosteriorApproximator, SGHMCPosteriorApproximator
from fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_callback import CyclicalSGLDSamplingCallback
from fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_integrator import cyclical_sgld_integrator
from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_callback import SGHMCSamplingCallback
from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_integrator import sghmc_integrator
from fortuna.prob_model.posterior.sgmcmc.sgmcmc_diagnostic import effective_sample_size, kernel_stein_discrepancy_imq
from fortuna.prob_model.posterior.sgmcmc.sgmcmc_preconditioner import identity_preconditioner, rmsprop_preconditioner
from fortuna.prob_model.posterior.sgmcmc.sgmcmc_step_schedule import (
    constant_schedule, constant_schedule_with_cosine_burnin, cosine_schedule, cyclical_cosine_schedule_with_const_burnin, polynomial_schedule)
from fortuna.training.callback import Callback
from models import *

PROPERTY = "C19"
RULE = (
    "Schedules at steps 0-400 with cycles and burn-ins from 1 (or no burn-in) on; 1-8 integrator steps over two-leaf trees of "
    "gradients with both preconditioners, friction, momentum resampling, exploration ratios, the noise being read off a "
    "noise-only run with the same key; sampling callbacks over whole training runs; chains of small classifiers and "
    "regressors, with frozen parameters, against a reference chain (noiseless) or the iterates seen by a user callback; "
    "diagnostics on 2-24 samples; non-trivial = several steps (samples), and at least one sample stored."
)
ASSUMPTIONS = [
    "The cyclical schedule counts its first two steps as the start of the first cycle, as in the implementation it is adapted from.",
    "The first sample of a cycle is stored when the number of steps made, modulo the cycle length, reaches the exploration ratio.",
]


@st.composite
def sched(draw):
    return dict(kind=draw(st.sampled_from(["const", "cos", "poly", "burn", "cyc"])), a=draw(st.sampled_from([0.0, 1e-5, 0.1, 0.5, 2.0])), b=draw(st.sampled_from([0.0, 0.01, 1.0])),
                n=draw(st.integers(1, 60)), m=draw(st.integers(0, 40)), gamma=draw(st.sampled_from([0.51, 0.55, 0.75, 1.0])), off=draw(st.sampled_from([0.5, 1.0, 10.0])),
                steps=draw(st.lists(st.integers(0, 400), min_size=1, max_size=6)))


@case(sched(), quick=250, shards=2)
def schedules(s, t):
    a, b, n, m = s["a"], s["b"], s["n"], s["m"]
    cos = lambda x: 0.5 * (1 + np.cos(np.pi * x))
    f, ref = dict(
        const=(lambda: constant_schedule(a), lambda k: a),
        cos=(lambda: cosine_schedule(a, n), lambda k: a * cos(k / n)),
        poly=(lambda: polynomial_schedule(a, s["off"], s["gamma"]), lambda k: a * (s["off"] + k) ** -s["gamma"]),
        burn=(lambda: constant_schedule_with_cosine_burnin(a, b, m), lambda k: b + (a - b) * (cos(min(k / m, 1)) if m else 0)),
        cyc=(lambda: cyclical_cosine_schedule_with_const_burnin(a, m, n), lambda k: a * cos((max(k - m - 1, 0) % n) / n)),
    )[s["kind"]]
    fn = f()
    for k in s["steps"] + [0, n - 1, n, n + 1, m, m + 1, m + n, m + n + 1]:
        t.close(fn(k), ref(k), f"{s['kind']} schedule at step {k}", rtol=2e-4, atol=1e-6)
        t.close(fn(jnp.asarray(k, jnp.int32)), ref(k), f"{s['kind']} schedule at array step {k}", rtol=2e-4, atol=1e-6)
    t.label(s["kind"])
    t.nontrivial(a > 0)
    bad = [lambda: constant_schedule(-1.0), lambda: cosine_schedule(-0.1, 3), lambda: cosine_schedule(0.1, 0), lambda: polynomial_schedule(gamma=0.5), lambda: polynomial_schedule(gamma=1.01)]
    t.raises(ValueError, bad[len(s["steps"]) % len(bad)], "invalid schedule accepted")


SHAPES = {"a": (3,), "b": {"c": (2, 2)}}


def tree(v):
    v = arr(v)
    return {"a": jnp.asarray(v[:3]), "b": {"c": jnp.asarray(v[3:7].reshape(2, 2))}}


def vec(x):
    return np.concatenate([np.ravel(v) for v in jax.tree_util.tree_leaves(x)]).astype(np.float64)


@st.composite
def integ(draw):
    k = draw(st.integers(1, 8))
    return dict(g=[draw(fine(7, -2, 2)) for _ in range(k)], key=draw(seeds()), pre=draw(st.sampled_from(["id", "rms"])), avg=draw(st.sampled_from([0.5, 0.9, 0.99])),
                eps=draw(st.sampled_from([1e-7, 1e-2])), decay=draw(st.sampled_from([0.0, 0.01, 0.3, 0.9, 1.0])), resample=draw(st.sampled_from([None, 1, 2, 3])),
                step=draw(st.sampled_from([0.01, 0.25, 1.0])), cyc=draw(st.integers(1, 5)), ratio=draw(st.sampled_from([0.0, 0.25, 0.5, 0.75, 1.0])), poly=draw(st.booleans()))


def pre(s):
    return identity_preconditioner() if s["pre"] == "id" else rmsprop_preconditioner(s["avg"], s["eps"])


def noises(s, k, used):
    """The k standard normal draws of the key, read off a pure-noise chain (`used`: which steps draw)."""
    tx = sghmc_integrator(0.0, None, jax.random.PRNGKey(s["key"]), constant_schedule(1.0), identity_preconditioner())
    z = tree([0.0] * 7)
    state, out = tx.init(z), []
    for i in range(k):
        if used[i]:
            u, state = tx.update(z, state)
            out.append(vec(u) / np.sqrt(2))
        else:
            out.append(np.zeros(7))
    return out


def step_fn(s):
    return (lambda k: s["step"] * (1.0 + k) ** -0.75) if s["poly"] else (lambda k: s["step"])


@case(integ(), quick=80, shards=4, cost=2)
def hamiltonian_steps(s, t):
    sched_ = polynomial_schedule(s["step"], 1.0, 0.75) if s["poly"] else constant_schedule(s["step"])
    tx = sghmc_integrator(s["decay"], s["resample"], jax.random.PRNGKey(s["key"]), sched_, pre(s))
    state = tx.init(tree([0.0] * 7))
    k = len(s["g"])
    z = noises(s, k, [True] * k)
    m, e, h = np.zeros(7), np.zeros(7), step_fn(s)
    for i in range(k):
        g = arr(s["g"][i]).astype(np.float64)
        u, state = tx.update(tree(s["g"][i]), state)
        e = s["avg"] * e + (1 - s["avg"]) * g**2
        mass = s["eps"] + np.sqrt(e) if s["pre"] == "rms" else 1.0
        if s["resample"] and i % s["resample"] == 0:
            m = np.zeros(7)
        m = s["decay"] * m + g * np.sqrt(h(i)) + z[i] * np.sqrt(mass) * np.sqrt(2 * (1 - s["decay"]))
        t.close(vec(u), np.sqrt(h(i)) * m / mass, f"update at step {i}", rtol=2e-3, atol=1e-4)
    allz = np.concatenate(z)
    t.check(len(np.unique(np.round(allz, 6))) >= len(allz) - 1, "the noise repeats itself")
    t.check(np.abs(allz).max() < 6 and (len(allz) < 40 or 0.25 < np.mean(allz**2) < 2.3), "the noise is not standard normal", allz)
    t.label(s["pre"], "friction" if s["decay"] < 1 else "no noise")
    t.nontrivial(k > 1)


CYCLES = list(itertools.product([1, 2, 3, 4, 5], [0.0, 0.25, 0.5, 0.75, 1.0]))


@functools.lru_cache(maxsize=None)
def compiled(key, step, cyc, ratio, *p):
    return jax.jit(cyclical_sgld_integrator(jax.random.PRNGKey(key), step, cyc, ratio, identity_preconditioner() if p[0] == "id" else rmsprop_preconditioner(*p[1:])).update)


@st.composite
def cyclic(draw):
    """Like `integ`, with few different integrators (each of them has to be compiled)."""
    s = draw(integ())
    c = draw(st.integers(0, 11))
    s["cyc"], s["ratio"] = CYCLES[(c * 7 + 3) % 25]
    s.update(step=[0.01, 0.25, 1.0][c % 3], pre=["id", "rms"][c % 2], avg=[0.5, 0.9, 0.99][c // 4], eps=[1e-7, 1e-2][c // 2 % 2])
    return s


@case(cyclic(), quick=100, shards=4, cost=2)
def cyclical_langevin_steps(s, t):
    tx = cyclical_sgld_integrator(jax.random.PRNGKey(s["key"]), s["step"], s["cyc"], s["ratio"], pre(s))
    update = compiled(0, s["step"], s["cyc"], s["ratio"], s["pre"], s["avg"], s["eps"])
    state = tx.init(tree([0.0] * 7))
    k = len(s["g"])
    langevin = [(i % s["cyc"]) / s["cyc"] >= s["ratio"] for i in range(k)]
    z, e = noises(s, k, langevin), np.zeros(7)
    for i in range(k):
        g = arr(s["g"][i]).astype(np.float64)
        u, state = update(tree(s["g"][i]), state)
        e = s["avg"] * e + (1 - s["avg"]) * g**2
        mass = s["eps"] + np.sqrt(e) if s["pre"] == "rms" else 1.0
        h = s["step"] * 0.5 * (1 + np.cos(np.pi * (max(i - 1, 0) % s["cyc"]) / s["cyc"]))
        want = h * g / mass + (np.sqrt(2 * h / mass) * z[i] if langevin[i] else 0)
        t.close(vec(u), want, f"{'sampling' if langevin[i] else 'exploration'} update at step {i}", rtol=2e-3, atol=1e-4)
    t.label(s["pre"])
    t.nontrivial(k > 1 and len(set(langevin)) == 2)


class FakeTrainer:
    def _sync_state(self, state):
        return ("synced", state)


class FakeRepository:
    def __init__(self):
        self.log = []

    def put(self, state, i=None, keep=1, **kwargs):
        self.log.append((state, i, keep))


@st.composite
def callback_spec(draw):
    return dict(kind=draw(st.sampled_from(["hmc", "sgld"])), epochs=draw(st.integers(1, 5)), per=draw(st.integers(1, 6)), n=draw(st.integers(1, 6)), thin=draw(st.integers(1, 4)),
                burn=draw(st.integers(0, 12)), cyc=draw(st.integers(1, 8)), ratio=draw(st.sampled_from([0.0, 0.25, 0.5, 0.75])), keep=draw(st.integers(1, 3)))


@case(callback_spec(), quick=400, shards=2)
def sampling_callbacks(s, t):
    tot = s["epochs"] * s["per"]
    if s["kind"] == "hmc":
        due = [k for k in range(1, tot + 1) if k > s["burn"] and (k - s["burn"]) % s["thin"] == 0]
    else:
        due = [k for k in range(1, tot + 1) if (k % s["cyc"]) >= s["ratio"] * s["cyc"] and (k % s["cyc"]) % s["thin"] == 0]
    rep = FakeRepository()
    kw = dict(n_epochs=s["epochs"], n_training_steps=s["per"], n_samples=s["n"], n_thinning=s["thin"], trainer=FakeTrainer(), state_repository=rep, keep_top_n_checkpoints=s["keep"])
    make = (lambda: SGHMCSamplingCallback(burnin_length=s["burn"], **kw)) if s["kind"] == "hmc" else (lambda: CyclicalSGLDSamplingCallback(cycle_length=s["cyc"], exploration_ratio=s["ratio"], **kw))
    t.label(s["kind"], "enough" if len(due) >= s["n"] else "not enough samples")
    if len(due) < s["n"]:
        return t.raises(ValueError, make, "too few samples accepted")
    cb = make()
    for k in range(1, tot + 1):
        r = cb.training_step_end(k)
        t.equal(r, k, "state returned by the callback")
    t.equal(rep.log, [(("synced", k), i, s["keep"]) for i, k in enumerate(due[: s["n"]])], "stored samples (state, slot, checkpoints kept)")
    t.nontrivial(len(due) > 1)


class Iterates(Callback):
    def __init__(self):
        self.p = []

    def training_step_end(self, state):
        self.p.append(jax.device_get(state.params))
        return state


@st.composite
def chain_spec(draw, kind):
    s = draw(model_spec())
    s.update(freeze=draw(st.sampled_from(list(FREEZE))), thin=draw(st.integers(1, 3)), burn=draw(st.integers(0, 4)), samples=draw(st.integers(1, 4)), nojit=draw(st.booleans()),
             cyc=draw(st.integers(2, 5)), ratio=draw(st.sampled_from([0.25, 0.5])), decay=draw(st.sampled_from([1.0, 1.0, 0.2])), extra=draw(st.integers(0, 1)))
    return s


def chain(s, t, kind):
    step = 0.05 / s["n"]
    per = -(-s["n"] // s["bs"])
    rule = FREEZE[s["freeze"]]
    if kind == "hmc":
        due = lambda tot: [k for k in range(1, tot + 1) if k > s["burn"] and (k - s["burn"]) % s["thin"] == 0]
        app = SGHMCPosteriorApproximator(n_samples=s["samples"], n_thinning=s["thin"], burnin_length=s["burn"], momentum_decay=s["decay"], step_schedule=step)
    else:
        due = lambda tot: [k for k in range(1, tot + 1) if k % s["cyc"] >= s["ratio"] * s["cyc"] and k % s["cyc"] % s["thin"] == 0]
        app = CyclicalSGLDPosteriorApproximator(n_samples=s["samples"], n_thinning=s["thin"], cycle_length=s["cyc"], init_step_size=step, exploration_ratio=s["ratio"])
        if not due(12):
            return
    epochs = 1
    while len(due(epochs * per)) < s["samples"]:
        epochs += 1
    epochs += s["extra"]
    m = build(s, app)
    js = joint_state(s, m)
    from fortuna.prob_model.posterior.posterior_multi_state_repository import PosteriorMultiStateRepository

    m.posterior.state = PosteriorMultiStateRepository(size=1)
    opt = optax.sgd(0.1)
    m.posterior.state.put(MAPState.init(params=js["params"], mutable=None, optimizer=opt, calib_params=js["calib_params"], calib_mutable=js["calib_mutable"]), i=0)
    p0 = js["params"]
    it = Iterates()
    m.posterior.fit(loader(s), fit_config=config(opt, epochs, rule, s["nojit"], start_from_current_state=True, callbacks=[it]))
    t.equal(len(it.p), per * epochs, "number of steps")
    free = [k for k, v in paths(p0).items() if rule is None or rule(k, v) == "trainable"]
    t.label(kind, s["kind"], s["arch"], f"frozen {s['freeze']}", *(["noiseless"] if kind == "hmc" and s["decay"] == 1 else []))
    t.nontrivial(per > 1 and len(free) > 0 and s["samples"] > 1)
    steps = due(per * epochs)[: s["samples"]]
    start = paths(p0)
    for i, k in enumerate(steps):
        got, seen = paths(m.posterior.state.get(i).params), paths(it.p[k - 1])
        t.equal(sorted(got), sorted(start), "entries of a sample")
        for q in got:
            t.equal(got[q], np.asarray(seen[q] if q in free else start[q]), f"{'/'.join(q)} of sample {i} (step {k})")
    allp = m.posterior.state.get()
    t.equal(len(allp), s["samples"], "number of samples")
    # the chain itself, in steps without noise
    x, y = data(s)
    g = jax.jit(jax.grad(lambda p, x, y: -neg_log_joint(s, p, x, y, s["n"], s["temp"])))
    tree_ = jax.tree_util.tree_structure(p0)
    order = [tuple(k.key for k in kp) for kp, _ in jax.tree_util.tree_flatten_with_path(p0)[0]]
    cur, mom = start, {q: 0.0 for q in free}
    for k in range(per * epochs):
        i = (k % per) * s["bs"]
        d = paths(g(jax.tree_util.tree_unflatten(tree_, [cur[q] for q in order]), x[i : i + s["bs"]], y[i : i + s["bs"]]))
        seen = paths(it.p[k])
        if kind == "hmc" and s["decay"] < 1:
            break
        if kind == "hmc":
            mom = {q: mom[q] + d[q] * np.sqrt(step) for q in free}
            want = {q: cur[q] + np.sqrt(step) * mom[q] for q in free}
        else:
            h = step * 0.5 * (1 + np.cos(np.pi * (max(k - 1, 0) % s["cyc"]) / s["cyc"]))
            want = {q: cur[q] + h * d[q] for q in free}
            if (k % s["cyc"]) / s["cyc"] >= s["ratio"]:
                for q in free:  # Langevin noise of standard deviation sqrt(2 h)
                    t.check(np.all(np.abs(seen[q] - want[q]) < 6.5 * np.sqrt(2 * h) + 1e-5), f"noise of {'/'.join(q)} at step {k + 1}")
                want = {q: seen[q] for q in free}
        for q in free:
            t.close(seen[q], want[q], f"{'/'.join(q)} after step {k + 1}", rtol=1e-3, atol=3e-4)
        cur = {q: np.asarray(seen[q]) if q in free else start[q] for q in start}
    if len(steps) > 1 and free and (kind == "sgld" or s["decay"] < 1):
        a, b = paths(m.posterior.state.get(0).params), paths(m.posterior.state.get(1).params)
        t.check(any(not np.array_equal(a[q], b[q]) for q in free), "consecutive samples are the same")


@case(chain_spec("hmc"), quick=28, shards=7, cost=5)
def hamiltonian_chain(s, t):
    chain(s, t, "hmc")


@case(chain_spec("sgld"), quick=20, shards=5, cost=5)
def cyclical_chain(s, t):
    chain(s, t, "sgld")


@st.composite
def diag_spec(draw):
    n = draw(st.sampled_from([2, 3, 5, 8, 12]))
    return dict(n=n, x=draw(fine(3 * n, -2, 2)), g=draw(fine(3 * n, -2, 2)), thr=draw(st.sampled_from([None, 0.0, 0.0, 0.1, 0.5])), c=draw(st.sampled_from([0.5, 1.0, 2.0])),
                beta=draw(st.sampled_from([-0.25, -0.5, -0.9])), perm=draw(permutation(n)), walk=draw(st.booleans()))


@case(diag_spec(), quick=48, shards=4, cost=2)
def diagnostics(s, t):
    n = s["n"]
    x, g = arr(s["x"], (n, 3)).astype(np.float64), arr(s["g"], (n, 3)).astype(np.float64)
    if s["walk"]:
        x = np.cumsum(x, 0)
    tr = lambda m: [{"w": jnp.asarray(r[:1], jnp.float32), "v": jnp.asarray(r[1:].reshape(1, 2), jnp.float32)} for r in m]
    # effective sample size
    d = x - x.mean(0)
    cov = np.array([(d[: n - k] * d[k:]).sum(0) / (n - k) for k in range(n)])
    ok = cov[0] > 1e-3
    if ok.all():
        r = cov / cov[0]
        close_call = s["thr"] is not None and np.any(np.abs(r[1:] - s["thr"]) < 1e-4)
        w = (n - np.arange(n))[:, None] / n * r
        if s["thr"] is not None:
            w = w * (np.cumsum(r < s["thr"], 0) == 0)
        den = 2 * w.sum(0) - 1
        if not close_call and np.all(np.abs(den) > 0.02):
            e = effective_sample_size(tr(x), filter_threshold=s["thr"])
            t.close(np.concatenate([np.ravel(e["w"]), np.ravel(e["v"])]), n / den, "effective sample size", rtol=2e-2, atol=1e-3)
            t.nontrivial(n > 3)
    # kernel Stein discrepancy
    k = lambda a, b: (s["c"] ** 2 + np.sum((a - b) ** 2)) ** s["beta"]
    tot = 0.0
    for i in range(n):
        for j in range(n):
            dd, b, c2 = x[i] - x[j], s["beta"], s["c"] ** 2 + np.sum((x[i] - x[j]) ** 2)
            gx = 2 * b * c2 ** (b - 1) * dd
            tot += g[i] @ g[j] * c2**b - g[i] @ gx + g[j] @ gx - 2 * b * 3 * c2 ** (b - 1) - 4 * b * (b - 1) * c2 ** (b - 2) * (dd @ dd)
    want = np.sqrt(max(tot, 0)) / n
    got = _ksd(tr(x), tr(g), s["c"], s["beta"])
    t.close(got, want, "kernel Stein discrepancy", rtol=2e-3, atol=1e-3)
    p = s["perm"]
    t.close(_ksd(tr(x[p]), tr(g[p]), s["c"], s["beta"]), got, "kernel Stein discrepancy of the samples in another order", rtol=2e-3, atol=1e-3)


def _ksd(x, g, c, beta):
    if (c, beta) == (1.0, -0.5):
        return kernel_stein_discrepancy_imq(x, g)
    with jax.disable_jit():
        return kernel_stein_discrepancy_imq(x, g, c, beta)
