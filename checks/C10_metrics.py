"""C10: metrics."""
from gens import *
from pbt import *

import jax.numpy as jnp
from fortuna.data.loader import DataLoader
from fortuna.metric import classification as mc, regression as mr

PROPERTY = "C10"
RULE = (
    "1-20 points, 2-5 classes, dyadic probabilities (with ties, zeros, ones) and arbitrary predictions; 1-3 outputs for "
    "regression; non-trivial = the metric is neither at its minimum nor undefined."
)
ASSUMPTIONS = [
    "Confidence bins are bounded by ten equally spaced points from 1/n to 1, upper bound included, as the code has it; "
    "inputs with a confidence within 1e-6 of an inner bound are only checked for totals.",
]


@st.composite
def cls_spec(draw):
    n, c = draw(st.sampled_from([1, 2, 3, 8, 20])), draw(st.sampled_from([2, 3, 5]))
    gen = draw(st.sampled_from([distinct_probs, tied_probs]))
    return dict(n=n, c=c, probs=draw(gen(n, c)), y=draw(ints(n, c)), preds=draw(ints(n, c)), own=draw(st.booleans()),
                one_dim=draw(st.booleans()), np_=draw(st.booleans()), perm=draw(permutation(n)))


@case(cls_spec(), quick=300, shards=4, cost=2)
def classification(s, t):
    A = np.array if s["np_"] else jnp.array
    n, P, y = s["n"], arr(s["probs"]), np.array(s["y"])
    preds = P.argmax(1) if s["own"] else np.array(s["preds"])
    conf = P.max(1)
    hit = preds == y
    perm = np.array(s["perm"])
    probs = conf if s["one_dim"] else P
    t.close(mc.accuracy(A(preds), A(y)), hit.mean(), "accuracy", atol=1e-6)
    counts, confs, accs = (np.asarray(x) for x in mc.compute_counts_confs_accs(A(preds), A(probs), A(y)))
    t.equal(counts.sum(), n, "points in the bins")
    t.close((counts * confs).sum(), conf.sum(), "total confidence of the bins")
    t.close((counts * accs).sum(), hit.sum(), "total hits of the bins")
    bounds = np.linspace(1 / n, 1, 10)
    ece, mce = float(mc.expected_calibration_error(A(preds), A(probs), A(y))), float(mc.maximum_calibration_error(A(preds), A(probs), A(y)))
    t.close(ece, (counts * np.abs(accs - confs)).sum() / n, "ECE from the bins")
    t.close(mce, np.abs(accs - confs)[counts > 0].max(), "MCE from the bins")
    t.check(-1e-6 <= ece <= mce + 1e-6 and mce <= 1 + 1e-6, "0 <= ECE <= MCE <= 1", ece, mce)
    if n == 1 or not (np.abs(conf[:, None] - bounds[:-1]) < 1e-6).any():
        b = np.searchsorted(bounds, conf, side="left") if n > 1 else np.zeros(1, int)
        b = np.where(conf >= 1, 0 if n == 1 else 9, b)
        want = np.array([[(b == k).sum(), conf[b == k].mean() if (b == k).any() else 0,
                          hit[b == k].mean() if (b == k).any() else 0] for k in range(10)])
        t.close(counts, want[:, 0], "bin counts")
        t.close(confs, want[:, 1], "bin confidences")
        t.close(accs, want[:, 2], "bin accuracies")
        t.nontrivial((want[:, 0] > 0).sum() >= 2 and 0 < hit.mean() < 1)
    t.close(mc.ece(A(preds)[perm], A(probs)[perm], A(y)[perm]), ece, "ECE of permuted data")
    t.close(mc.mce(A(preds)[perm], A(probs)[perm], A(y)[perm]), mce, "MCE of permuted data")
    # Brier score
    want = ((P - np.eye(s["c"])[y]) ** 2).sum(1).mean()
    t.close(mc.brier_score(A(P), A(y)), want, "Brier score")
    t.close(mc.brier_score(A(P)[perm], A(y)[perm]), want, "Brier score of permuted data")
    loader = DataLoader.from_array_data((np.zeros((n, 1)), y), batch_size=3).to_targets_loader()
    t.close(mc.brier_score(A(P), loader), want, "Brier score with a targets loader")
    t.close(mc.brier_score(A(np.eye(s["c"], dtype=np.float32)[y]), A(y)), 0, "Brier score of perfect predictions")
    z = (y == 1).astype(np.int32)
    t.close(mc.brier_score(A(P[:, 1]), A(z)), ((P[:, 1] - z) ** 2).mean(), "Brier score of binary probabilities")


@case(st.fixed_dictionaries(dict(levels=st.lists(st.integers(4, 8), min_size=1, max_size=3), rot=st.integers(0, 7), seed=seeds())), quick=60)
def calibrated(s, t):
    """Data as accurate as they are confident, level by level, have no calibration error."""
    conf, hit = [], []
    for i, k in enumerate(s["levels"]):
        conf += [k / 8] * 8
        hit += [int((j + s["rot"] + i) % 8 < k) for j in range(8)]
    p = np.random.default_rng(s["seed"]).permutation(len(conf))
    conf, hit = arr(conf)[p], np.array(hit)[p]
    probs = np.stack([conf, 1 - conf], 1)
    y = np.where(hit, 0, 1)
    t.nontrivial(len(set(s["levels"])) > 1)
    a = (jnp.zeros(len(y), dtype=jnp.int32), jnp.array(probs), jnp.array(y))
    t.close(mc.expected_calibration_error(*a), 0, "ECE of calibrated data")
    t.close(mc.maximum_calibration_error(*a), 0, "MCE of calibrated data")


@st.composite
def reg_spec(draw):
    n, d = draw(st.sampled_from([1, 2, 7])), draw(st.sampled_from([1, 2, 3]))
    g = draw(st.sampled_from([grid, fine]))
    return dict(n=n, d=d, p=draw(g(n * d)), y=draw(g(n * d)), perm=draw(permutation(n)), lo=draw(grid(n, levels=9)),
                w=draw(grid(n, 0, 4, levels=5)), ty=draw(grid(n, levels=9)), dims=draw(st.tuples(*[st.booleans()] * 3)))


@case(reg_spec(), quick=400, shards=4, cost=2)
def regression(s, t):
    n, d = s["n"], s["d"]
    p, y = arr(s["p"], (n, d)), arr(s["y"], (n, d))
    perm = np.array(s["perm"])
    mse, mae = ((np.float64(p) - y) ** 2).sum(1).mean(), np.abs(np.float64(p) - y).sum(1).mean()
    jp, jy = jnp.array(p), jnp.array(y)
    for f, g, w in (("mean_squared_error", "mse", mse), ("root_mean_squared_error", "rmse", mse ** 0.5),
                    ("mean_absolute_error", "mae", mae), ("root_mean_absolute_error", "rmae", mae ** 0.5)):
        t.close(getattr(mr, f)(jp, jy), w, f)
        t.close(getattr(mr, g)(jp[perm], jy[perm]), w, f"{g} of permuted data")
        t.close(getattr(mr, f)(jy, jy), 0, f"{f} of perfect predictions")
    lo, ty = arr(s["lo"]), arr(s["ty"])
    up = lo + arr(s["w"])
    want = np.mean([(l <= v <= u) for l, v, u in zip(lo, ty, up)])
    sh = [jnp.array(x if b else x[:, None]) for x, b in zip((lo, up, ty), s["dims"])]
    t.close(mr.prediction_interval_coverage_probability(*sh), want, "PICP")
    t.close(mr.picp(*[x[perm] for x in sh]), want, "PICP of permuted data")
    t.nontrivial(mse > 0 and (n == 1 or 0 < want < 1))
    t.label(f"picp edge {bool(((lo == ty) | (up == ty)).any())}")
