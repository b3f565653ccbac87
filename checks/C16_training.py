"""C16: trainers against a hand-written training loop; posterior fitting: frozen parameters, run options, seeds."""
import os

os.environ["XLA_FLAGS"] = "--xla_force_host_platform_device_count=4 " + os.environ.get("XLA_FLAGS", "")
import tempfile

from gens import *
from pbt import *

import jax
import jax.numpy as jnp
import optax
from flax.core import FrozenDict
from flax.training import checkpoints
from fortuna.data.loader import DataLoader
from fortuna.prob_model.posterior.map.map_state import MAPState
from fortuna.prob_model.posterior.map.map_trainer import JittedMAPTrainer, MAPTrainer, MultiDeviceMAPTrainer
from fortuna.training.callback import Callback
from fortuna.utils.freeze import get_trainable_paths
from fortuna.utils.nested_dicts import nested_get, nested_set
from fortuna.utils.training import clip_grandients_by_norm, clip_grandients_by_value

PROPERTY = "C16"
RULE = (
    "A least-squares model with four named parameters and a running mutable, 1-12 points, batches of 1-4 (ragged last), 1-6 "
    "epochs, SGD / momentum / Adam, clipping, accumulation over 1-5 batches, four freezing rules, validation every 0-3 "
    "epochs with early stopping on loss or metric in either mode, callbacks and checkpoints, in the plain, jitted and "
    "multi-device (four simulated devices) trainers; non-trivial = at least two updates and two of the options in use."
)
ASSUMPTIONS = [
    "Early stopping follows flax: training stops at the first evaluation that brings no improvement after `patience` consecutive ones that brought none.",
    "With gradient accumulation the logged loss is only required to be there, not which of the batches it covers.",
    "Runs in which a validation score comes closer than 1e-3 to the early stopping threshold are not judged on the stopping epoch.",
]
D = 2
RULES = {
    "none": None,
    "w": lambda p, v: "frozen" if p[-1] == "w" else "trainable",
    "sub": lambda p, v: "frozen" if "sub" in p else "trainable",
    "second": lambda p, v: "frozen" if p[0] == "lik_log_var" else "trainable",
    "most": lambda p, v: "trainable" if p[-1] == "b" else "frozen",
}


@st.composite
def spec(draw, trainer):
    n = draw(st.integers(1, 12))
    bs = draw(st.integers(1, 4))
    if trainer == "multi":
        bs = draw(st.sampled_from([4, 8]))
        n = bs * draw(st.integers(1, 3))
    nv = draw(st.sampled_from([0, 0, 2, 3, 5]))
    if trainer == "multi":
        nv = draw(st.sampled_from([0, 4, 8]))
    return dict(
        trainer=trainer, n=n, bs=bs, nv=nv, x=draw(grid(n * D, -1, 1)), y=draw(grid(n, -2, 2)), xv=draw(grid(nv * D, -1, 1)), yv=draw(grid(nv, -2, 2)),
        init=draw(grid(6, -1, 1)), epochs=draw(st.integers(1, 6)), opt=draw(st.sampled_from(["sgd", "sgd", "momentum", "adam"])), lr=draw(st.sampled_from([0.02, 0.1, 0.3])),
        clip=draw(st.sampled_from([None, None, 0.25, 1.0, 50.0])), acc=draw(st.sampled_from([None, None, None, 1, 2, 3, 5])), freeze=draw(st.sampled_from(list(RULES))),
        every=draw(st.sampled_from([1, 1, 2, 3, 0, None])), patience=draw(st.sampled_from([0, 1, 2, 3, None])), delta=draw(st.sampled_from([0.0, 0.05, 0.5])),
        mode=draw(st.sampled_from(["min", "min", "max"])), monitor=draw(st.sampled_from(["val_loss", "val_mae"])), metrics=draw(st.booleans()),
        quiet=draw(st.booleans()), callback=draw(st.booleans()), save=draw(st.sampled_from([None, None, 0, 1, 2, 3])), mutable=draw(st.booleans()))


def params_of(s):
    i = arr(s["init"])
    return {"model": {"params": {"w": i[:2], "sub": {"v": i[2:4]}, "b": i[4:5]}}, "lik_log_var": {"params": {"l": i[5:6]}}}


PATHS = dict(w=("model", "params", "w"), v=("model", "params", "sub", "v"), b=("model", "params", "b"), l=("lik_log_var", "params", "l"))


def flat(p):
    def at(d, k):
        for i in k:
            d = d[i]
        return np.asarray(d).astype(np.float64)

    return {k: at(p, q) for k, q in PATHS.items()}


def loss_fun(params, batch, n_data, mutable, return_aux, train=False, rng=None, calib_params=None, calib_mutable=None):
    x, y = batch
    m = params["model"]["params"]
    out = x @ (m["w"] + 2 * m["sub"]["v"]) + m["b"]
    run = mutable["model"]["run"] if mutable is not None else jnp.zeros(())
    loss = n_data * jnp.mean((out - y) ** 2) / 2 + jnp.sum((params["lik_log_var"]["params"]["l"] - 1) ** 2) / 2
    if not train:
        loss = loss + run
    aux = dict(outputs=out)
    if "mutable" in return_aux:
        aux["mutable"] = FrozenDict({"model": {"run": 0.5 * run + jnp.mean(out)}})
    return loss, aux


def ref_out(p, x):
    return x @ (p["w"] + 2 * p["v"]) + p["b"]


def ref_loss(p, x, y, n):
    return n * np.mean((ref_out(p, x) - y) ** 2) / 2 + np.sum((p["l"] - 1) ** 2) / 2


def ref_grad(p, x, y, n):
    r = (ref_out(p, x) - y) * n / len(x)
    return dict(w=x.T @ r, v=2 * x.T @ r, b=np.array([r.sum()]), l=p["l"] - 1)


def mae(preds, targets):
    return jnp.mean(jnp.abs(preds - targets))


class Log(Callback):
    def __init__(self):
        self.calls = []

    def training_epoch_start(self, state):
        self.calls.append("start")
        return state

    def training_epoch_end(self, state):
        self.calls.append("end")
        return state

    def training_step_end(self, state):
        self.calls.append(int(np.max(np.asarray(state.step))))
        return state


class Opt:
    def __init__(self, kind, lr):
        self.kind, self.lr, self.k, self.m, self.v = kind, lr, 0, {}, {}

    def step(self, p, g):
        self.k += 1
        out = dict(p)
        for n, gn in g.items():
            if self.kind == "sgd":
                u = gn
            elif self.kind == "momentum":
                u = self.m[n] = gn + 0.5 * self.m.get(n, 0)
            else:
                self.m[n] = 0.9 * self.m.get(n, 0) + 0.1 * gn
                self.v[n] = 0.9 * self.v.get(n, 0) + 0.1 * gn**2
                u = (self.m[n] / (1 - 0.9**self.k)) / (np.sqrt(self.v[n] / (1 - 0.9**self.k)) + 1e-3)
            out[n] = p[n] - self.lr * u
        return out


def clip(g, c):
    if not c:
        return g
    nrm = np.sqrt(sum(np.sum(v**2) for v in g.values()))
    return {k: v * min(1, c / nrm) if nrm > 0 else v for k, v in g.items()}


def reference(s):
    """The states after every step, the status, the log of callbacks, and whether the stopping epoch is a close call."""
    x, y = arr(s["x"], (s["n"], D)).astype(np.float64), arr(s["y"]).astype(np.float64)
    xv, yv = arr(s["xv"], (s["nv"], D)).astype(np.float64), arr(s["yv"]).astype(np.float64)
    p = flat(params_of(s))
    rule = RULES[s["freeze"]]
    free = [k for k in p if rule is None or rule(PATHS[k], None) == "trainable"]
    lr = s["lr"] / s["n"] if s["opt"] != "adam" else s["lr"]
    opt = Opt(s["opt"], lr)
    acc = s["acc"] or 1
    step, buf, run = 0, {k: 0 for k in free}, 0.0
    hist, states, log = dict(loss=[], mae=[], val_loss=[], val_mae=[]), {0: (p, run)}, []
    best, count, close, patient = np.inf, 0, False, bool(s["patience"]) and s["mode"] in ("min", "max")
    bs = s["bs"]
    for e in range(s["epochs"]):
        log.append("start")
        ll, mm = [], []
        for j, i in enumerate(range(0, s["n"], bs)):
            bx, by = x[i : i + bs], y[i : i + bs]
            ll.append(ref_loss(p, bx, by, s["n"]))
            mm.append(np.mean(np.abs(3 * ref_out(p, bx) - by)))
            g = ref_grad(p, bx, by, s["n"])
            run = 0.5 * run + np.mean(ref_out(p, bx))
            step += 1
            buf = {k: buf[k] + g[k] for k in free}
            if step % acc == 0:
                p = opt.step(p, clip({k: v / acc for k, v in buf.items()}, s["clip"]))
                buf = {k: 0 for k in free}
            states[step] = (p, run)
            if (j + 1) % acc == 0:
                log.append(step)
        log.append("end")
        hist["loss"].append(np.mean(ll))
        hist["mae"].append(np.mean(mm))
        if s["nv"] and s["every"] and e % s["every"] == 0:
            vl, vm = [], []
            for i in range(0, s["nv"], bs):
                bx, by = xv[i : i + bs], yv[i : i + bs]
                vl.append(ref_loss(p, bx, by, s["nv"]) + (run if s["mutable"] else 0))
                vm.append(np.mean(np.abs(3 * ref_out(p, bx) - by)))
            hist["val_loss"].append(np.mean(vl))
            hist["val_mae"].append(np.mean(vm))
            if patient:
                v = hist["val_loss" if not s["metrics"] else s["monitor"]][-1] * (1 if s["mode"] == "min" else -1)
                if not np.isinf(best):
                    close |= abs(best - v - s["delta"]) < 1e-3 * (1 + abs(v))
                if np.isinf(best) or best - v > s["delta"]:
                    best, count = v, 0
                else:
                    count += 1
                    if count > s["patience"]:
                        break
    return dict(p=p, run=run, step=step, hist=hist, states=states, log=log, close=close, free=free, lr=lr, epochs=e + 1, stopped=patient and e + 1 < s["epochs"])


def tx_of(s, lr):
    return dict(sgd=lambda: optax.sgd(lr), momentum=lambda: optax.sgd(lr, momentum=0.5), adam=lambda: optax.adam(lr, b2=0.9, eps=1e-3))[s["opt"]]()


def run(s, r, tmp=None):
    cls = dict(plain=MAPTrainer, jit=JittedMAPTrainer, multi=MultiDeviceMAPTrainer)[s["trainer"]]
    tx = tx_of(s, r["lr"])
    p = FrozenDict(jax.tree_util.tree_map(jnp.asarray, params_of(s)))
    state = MAPState.init(p, optimizer=tx, mutable=FrozenDict({"model": {"run": jnp.zeros(())}}) if s["mutable"] else None)
    rule = RULES[s["freeze"]]
    if rule is not None:
        paths = get_trainable_paths(p, rule)
        sub = nested_set({}, paths, tuple(nested_get(p.unfreeze(), q) for q in paths), allow_nonexistent=True)
        state = state.replace(opt_state=tx.init(FrozenDict(sub)))
    tr = cls(predict_fn=lambda o, **kw: 3 * o, freeze_fun=rule, save_checkpoint_dir=tmp, save_every_n_steps=s["save"], keep_top_n_checkpoints=100,
             disable_training_metrics_computation=s["quiet"], eval_every_n_epochs=s["every"], early_stopping_monitor=s["monitor"] if s["metrics"] else "val_loss",
             early_stopping_patience=s["patience"], early_stopping_min_delta=s["delta"], early_stopping_mode=s["mode"], early_stopping_verbose=False)
    x, y = arr(s["x"], (s["n"], D)), arr(s["y"])
    dl = DataLoader.from_array_data((x, y), batch_size=s["bs"])
    vl = DataLoader.from_array_data((arr(s["xv"], (s["nv"], D)), arr(s["yv"])), batch_size=s["bs"]) if s["nv"] else None
    cb = Log()
    state, status = tr.train(
        rng=jax.random.PRNGKey(0), state=state, loss_fun=loss_fun, training_dataloader=dl, training_dataset_size=s["n"], n_epochs=s["epochs"],
        metrics=(mae,) if s["metrics"] else None, validation_dataloader=vl, validation_dataset_size=s["nv"] or None, verbose=False,
        callbacks=[cb] if s["callback"] else None, max_grad_norm=s["clip"], gradient_accumulation_steps=s["acc"])
    return tr, state, status, cb, p


def body(s, t):
    r = reference(s)
    many = max(np.abs(v[0][k]).max() for v in r["states"].values() for k in r["free"]) if r["free"] else 0
    if not np.isfinite(many) or many > 50:
        t.label("diverges")
        return
    with tempfile.TemporaryDirectory() as tmp:
        ck = tmp + "/ck" if s["save"] is not None else None
        tr, state, status, cb, p0 = run(s, r, ck)
        if not r["close"]:
            judge(s, t, r, state, status, cb, p0)
            if ck:
                checkpointed(s, t, r, tr, ck)
        else:
            t.label("close call")
    used = sum([s["opt"] != "sgd", s["clip"] in (0.25, 1.0), (s["acc"] or 1) > 1, s["freeze"] != "none", s["nv"] > 0, bool(s["save"]), s["callback"], s["mutable"]])
    t.nontrivial(r["step"] // (s["acc"] or 1) >= 2 and used >= 2 and not r["close"])
    t.label(s["trainer"], s["opt"], f"frozen {s['freeze']}", f"accumulation {s['acc'] or 1}", *(["early stop"] if r["stopped"] else []))


def tol(s):
    return dict(rtol=2e-3, atol=5e-4) if s["opt"] == "adam" else dict(rtol=5e-4, atol=2e-4)


def judge(s, t, r, state, status, cb, p0):
    t.equal(int(state.step), r["step"], "number of steps")
    got = flat(state.params)
    t.check(jax.tree_util.tree_structure(state.params) == jax.tree_util.tree_structure(p0), "the tree of parameters changed", state.params)
    start = flat(p0)
    for k in got:
        if k in r["free"]:
            t.close(got[k], r["p"][k], f"parameter {k}", **tol(s))
        else:
            t.equal(got[k], start[k], f"frozen parameter {k}")
    if s["mutable"]:
        t.close(float(state.mutable["model"]["run"]), r["run"], "mutable", **tol(s))
    else:
        t.check(state.mutable is None, "mutable")
    want = {"loss"}
    if s["metrics"] and not s["quiet"]:
        want.add("mae")
    if s["nv"] and s["every"]:
        want |= {"val_loss"} | ({"val_mae"} if s["metrics"] else set())
    per = -(-s["n"] // s["bs"])
    if (s["acc"] or 1) > 1:
        want -= {"loss", "mae"}
        status = {k: v for k, v in status.items() if k not in ("loss", "mae")} if per < s["acc"] else dict(status)
        for k in ("loss", "mae"):
            status.pop(k, None)
    t.equal(sorted(status), sorted(want), "keys of the status")
    for k in want:
        t.close(status[k], r["hist"][k], f"history of {k}", rtol=2e-3, atol=2e-3)
    if s["callback"]:
        t.equal(cb.calls, r["log"], "calls of the callback")


def checkpointed(s, t, r, tr, ck):
    """Every checkpoint holds the state at its step; the last one is the final state."""
    import glob

    steps = sorted(int(f.rsplit("_", 1)[1]) for f in glob.glob(ck + "/checkpoint_*"))
    t.check(r["step"] in steps, "no checkpoint of the final state", steps)
    if s["save"] and (s["acc"] or 1) == 1:
        want = {k for k in range(1, r["step"] + 1) if k % s["save"] == 0}
        if not (s["nv"] and s["patience"] and s["every"]):
            t.equal(steps, sorted(want | {r["step"]}), "steps of the checkpoints")
    for k in steps:
        st_ = tr.restore_checkpoint(ck + f"/checkpoint_{k}")
        t.equal(int(st_.step), k, "step of a checkpoint")
        p, _ = r["states"][k]
        got = flat(st_.params)
        for q in got:
            t.close(got[q], p[q], f"parameter {q} of the checkpoint at step {k}", **tol(s))
    t.equal(int(tr.restore_checkpoint(ck).step), r["step"], "step of the latest checkpoint")


@case(spec("plain"), quick=100, shards=8, cost=8)
def plain_trainer(s, t):
    body(s, t)


@case(spec("jit"), quick=48, shards=6, cost=6)
def jitted_trainer(s, t):
    body(s, t)


@case(spec("multi"), quick=30, shards=6, cost=6)
def multi_device_trainer(s, t):
    body(s, t)


@st.composite
def clip_spec(draw):
    n = draw(st.integers(1, 4))
    return dict(g=[draw(floats_mixed(draw(st.integers(1, 3)))) for _ in range(n)], c=draw(st.sampled_from([0.1, 0.5, 1.0, 3.0, 100.0])))


@case(clip_spec(), quick=300, shards=2)
def clipping(s, t):
    tree = {f"k{i}": {"a": arr(g)} for i, g in enumerate(s["g"])}
    nrm = np.sqrt(sum(np.sum(arr(g).astype(np.float64) ** 2) for g in s["g"]))
    for a, b in zip(jax.tree_util.tree_leaves(clip_grandients_by_norm(tree, s["c"])), s["g"]):
        t.close(a, arr(b) * (min(1, s["c"] / nrm) if nrm else 1), "gradients clipped by norm")
    for a, b in zip(jax.tree_util.tree_leaves(clip_grandients_by_value(tree, s["c"])), s["g"]):
        t.close(a, np.clip(arr(b), -s["c"], s["c"]), "gradients clipped by value")
    t.nontrivial(nrm > s["c"] and len(s["g"]) > 1)


from models import FREEZE, build, config, data, loader, log_lik, model_spec, near, neg_log_joint, paths, same, start_from  # noqa: E402
from fortuna.prob_model import MAPPosteriorApproximator  # noqa: E402


@st.composite
def map_spec(draw):
    s = draw(model_spec())
    s.update(epochs=draw(st.integers(1, 3)), lr=draw(st.sampled_from([0.02, 0.1])), clip=draw(st.sampled_from([None, 0.5])), freeze=draw(st.sampled_from(list(FREEZE))),
             opt=draw(st.sampled_from(["sgd", "momentum"])), val=draw(st.booleans()), start=draw(st.booleans()), nojit=draw(st.booleans()))
    return s


@case(map_spec(), quick=40, shards=8, cost=8)
def map_posterior(s, t):
    """MAP minimises minus the log-joint by the optimiser given; frozen parameters stay; run options change nothing."""
    lr = s["lr"] / s["n"]
    opt = optax.sgd(lr) if s["opt"] == "sgd" else optax.sgd(lr, momentum=0.5)
    freeze = FREEZE[s["freeze"]]

    def fit(nojit):
        m = build(s, MAPPosteriorApproximator())
        p0 = start_from(s, m, opt)["params"] if s["start"] else None
        cfg = config(opt, s["epochs"], freeze, nojit, s["clip"], start_from_current_state=s["start"])
        status = m.posterior.fit(loader(s), val_data_loader=loader(s, s["n"]) if s["val"] else None, fit_config=cfg)
        return m, p0, status

    m, p0, status = fit(False)
    st_ = m.posterior.state.get()
    free = {k for k, v in paths(st_.params).items() if freeze is None or freeze(k, v) == "trainable"}
    t.label(s["kind"], s["arch"], f"frozen {s['freeze']}", "started" if s["start"] else "random start", "unjitted" if s["nojit"] else "rerun")
    t.nontrivial(s["n"] > s["bs"] and 0 < len(free))
    m2, _, status2 = fit(s["nojit"])
    if s["nojit"]:
        near(t, m2.posterior.state.get().params, st_.params, "parameters without just-in-time compilation", rtol=1e-3, atol=1e-4)
    else:
        same(t, m2.posterior.state.get().params, st_.params, "parameters of a second run with the same seed")
    t.equal(sorted(status2), sorted(status), "keys of the status")
    for k in status:
        t.close(status2[k], status[k], f"{k} of the second run", rtol=1e-3, atol=1e-3)
    if not s["start"]:
        return
    x, y = data(s)
    g = jax.jit(jax.value_and_grad(lambda p, x, y: neg_log_joint(s, p, x, y, s["n"], s["temp"])))
    p, mom, hist = jax.tree_util.tree_map(lambda v: v, p0), None, []
    for _ in range(s["epochs"]):
        for i in range(0, s["n"], s["bs"]):
            l, d = g(p, x[i : i + s["bs"]], y[i : i + s["bs"]])
            hist.append(float(l))
            if s["clip"]:
                nrm = float(np.sqrt(sum(np.sum(v**2) for k, v in paths(d).items() if k in free)))
                d = jax.tree_util.tree_map(lambda v: v * min(1.0, s["clip"] / nrm if nrm else 1.0), d)
            mom = d if mom is None or s["opt"] == "sgd" else jax.tree_util.tree_map(lambda a, b: a + 0.5 * b, d, mom)
            step = paths(mom)
            p = jax.tree_util.tree_unflatten(
                jax.tree_util.tree_structure(p), [v - lr * u if k in free else v for (k, v), u in zip(ordered(p), [step[k] for k, _ in ordered(p)])])
    got, want, start = paths(st_.params), paths(p), paths(p0)
    for k in got:
        if k in free:
            t.close(got[k], want[k], f"parameter {'/'.join(k)}", rtol=1e-3, atol=2e-4)
        else:
            t.equal(got[k], start[k], f"frozen parameter {'/'.join(k)}")
    per = -(-s["n"] // s["bs"])
    for e in range(s["epochs"]):
        t.close(status["loss"][e], np.mean(hist[e * per : (e + 1) * per]), "history of the loss", rtol=2e-3, atol=2e-3)
    if s["val"]:
        t.close(status["val_loss"][-1], float(neg_log_joint(s, p, x, y, s["n"], s["temp"])), "final validation loss", rtol=2e-3, atol=2e-3)


def ordered(p):
    """(path, leaf) in flattening order."""
    return [(tuple(k.key for k in kp), v) for kp, v in jax.tree_util.tree_flatten_with_path(p)[0]]
