"""C08: maximal coverage at fixed precision."""
from gens import *
from pbt import *

import jax.numpy as jnp
from fortuna.conformal import MaxCoverageFixedPrecisionBinaryClassificationCalibrator as Cal

PROPERTY = "C08"
RULE = (
    "8-32 points (a power of two, so that means are exact), dyadic probabilities and thresholds, grids of 2-100 scales; "
    "non-trivial = on at least one side the best coverage is reached by a proper rescaling."
)
ASSUMPTIONS = ["Grid scales that put a point within 1e-5 of a decision threshold are left out of the comparison."]


@st.composite
def spec(draw):
    n = draw(st.sampled_from([8, 32]))
    p = [v / 128 for v in draw(ints(n, 129))]
    y = draw(ints(n, 2))
    if draw(st.booleans()):  # informative scores
        flip = draw(ints(n, 6))
        y = [int(a > 0.5) ^ (f == 0) for a, f in zip(p, flip)]
    return dict(n=n, p=p, y=[int(v) for v in y], tp=draw(st.sampled_from([9, 10, 12, 14, 15])) / 16,
                tn=draw(st.sampled_from([9, 10, 12, 14, 15])) / 16, n_taus=draw(st.sampled_from([2, 10, 100])),
                margin=draw(st.sampled_from([0.0, 0.0, 0.0625])), test=[v / 128 for v in draw(ints(5, 129))])


def sides(q, thr, positive, eps=0.0):
    return q >= thr + eps if positive else q <= 1 - thr - eps


@case(spec(), quick=600, shards=4)
def rule(s, t):
    p, y = np.array(s["p"]), np.array(s["y"])
    cal = Cal()
    jp, jy, jt = jnp.array(arr(p)), jnp.array(y), jnp.array(arr(s["test"]))
    got_t = np.asarray(cal.calibrate(jy, jp, s["tp"], s["tn"], test_probs=jt, n_taus=s["n_taus"], margin=s["margin"]))
    got = np.asarray(cal.apply_patches(jp))
    t.equal(np.array(jp), arr(p), "probabilities after calibration")
    t.equal(np.array(jt), arr(s["test"]), "test probabilities after calibration")
    t.close(cal.apply_patches(jt), got_t, "patches applied again", atol=0)
    t.check((got >= 0).all() and (got <= 1).all() and (got_t >= 0).all() and (got_t <= 1).all(), "outside [0, 1]")
    moved = False
    for positive, thr, key in ((True, s["tp"], "tau_pos"), (False, s["tn"], "tau_neg")):
        side = p > 0.5 if positive else p < 0.5
        grid_ = np.linspace(1, 2 * thr, s["n_taus"]) if positive else np.linspace(2 * (1 - thr), 1, s["n_taus"])
        yy = y if positive else 1 - y

        def calib(x, tau):
            side_ = x > 0.5 if positive else x < 0.5
            return np.where(side_, np.minimum(tau * x, 1), x)

        best, close_any = 0.0, False
        for tau in grid_:
            q = calib(p, tau)
            if (np.abs(q - thr if positive else q - 1 + thr) < 1e-5).any() and tau != 1:
                close_any = True
                continue
            b = sides(q, thr, positive)
            if b.any() and yy[b].mean() >= thr + s["margin"]:
                best = max(best, b.mean())
        # the scale in use, from what the calibrator does to the points of its side
        have = got[side]
        tau = float(cal.patches[key])
        t.check(grid_.min() - 1e-6 <= tau <= grid_.max() + 1e-6, f"{key} outside its range", tau)
        t.check(np.abs(grid_ - tau).min() < 1e-5, f"{key} is not on the grid", tau)
        t.close(have, calib(p, tau)[side], "rescaled probabilities", atol=1e-6)
        x = np.array(s["test"])
        ts = x > 0.5 if positive else x < 0.5
        t.close(got_t[ts], calib(x, tau)[ts], "rescaled test probabilities", atol=1e-6)
        b = sides(got, thr, positive)
        close = (np.abs(got - thr if positive else got - 1 + thr) < 1e-5).any() and tau != 1
        if close:
            continue
        prec = yy[b].mean() if b.any() else 0.0
        t.label(("pos " if positive else "neg ") + ("satisfied" if best else "unsatisfiable"))
        if best:
            t.check(b.any() and prec >= thr + s["margin"], "the required precision is not met on the calibration data", prec)
            t.check(b.mean() >= best - 1e-9, f"coverage {b.mean()} at {key}={tau}, a scale of the grid reaches {best}")
            moved |= tau != 1
        elif not close_any:
            t.close(tau, 1.0, f"{key} when the precision cannot be met", atol=1e-6)
        f = (Cal.true_positive_precision, Cal.true_positive_coverage) if positive else (
            Cal.true_negative_precision, Cal.true_negative_coverage)
        t.close(f[1](jnp.array(got), thr), b.mean(), "reported coverage")
        if b.any():
            t.close(f[0](jnp.array(got), jy, thr), prec, "reported precision")
    t.close(got[p == 0.5], p[p == 0.5], "probabilities of one half")
    t.nontrivial(moved)
