"""C09: BatchMVP conformal thresholds."""
from gens import *
from multivalid import *
from pbt import *

import jax.numpy as jnp
from fortuna.conformal import BatchMVPConformalClassifier, BatchMVPConformalRegressor

PROPERTY = "C09"
RULE = (
    "8 or 16 points, up to 3 groups (overlapping, empty, full or not given), 3-9 levels, all bucket types, dyadic "
    "coverages, given or default thresholds; non-trivial = at least two rounds move the thresholds."
)
ASSUMPTIONS = [
    "The trajectory is read off by calibrating with 1, 2, ... rounds (calibration is deterministic); ties between sets "
    "(1e-6) or between shifts of equal coverage error may be resolved either way.",
]


@st.composite
def spec(draw):
    n, nb, G = draw(st.sampled_from([8, 16])), draw(st.sampled_from([3, 5, 9])), draw(st.sampled_from([0, 1, 3]))
    s = dict(kind=draw(st.sampled_from(["class", "reg"])), n=n, nb=nb, G=G, seed=draw(st.integers(0, 3)))
    s["groups"] = draw(ints(n * G, 2)) if G else None
    if draw(st.booleans()) and G:
        s["groups"] = [1 if i % G == 0 else v for i, v in enumerate(s["groups"])]
    s["scores"] = [(2 * v + 1) / 128 for v in draw(ints(n, 64))]
    s["th"] = [v / 50 for v in draw(ints(n, 51))] if draw(st.booleans()) else None
    s["coverage"] = draw(st.sampled_from([0.5, 0.75, 0.875, 0.9375]))
    s["types"] = list(draw(st.sampled_from([(">=", "<="), ("=",), (">=",), ("<=",), ("=", ">=", "<=")])))
    s["eta"] = draw(st.sampled_from([0.1, 0.37, 1.0]))
    s["minp"] = draw(st.sampled_from(["auto", "auto", 0.0, 0.125, 0.5]))
    s["split"] = draw(st.sampled_from([1.0, 1.0, 0.75]))
    return s


def build(s):
    cal = (BatchMVPConformalClassifier if s["kind"] == "class" else BatchMVPConformalRegressor)(seed=s["seed"])
    groups = None if s["groups"] is None else jnp.array(s["groups"]).reshape(s["n"], s["G"]).astype(bool)
    th = None if s["th"] is None else jnp.array(arr(s["th"]))
    return cal, jnp.array(arr(s["scores"])), groups, th


def calibrate(s, cal, scores, groups, th, rounds, **kw):
    return cal.calibrate(scores=scores, groups=groups, thresholds=th, n_buckets=s["nb"], n_rounds=rounds, eta=s["eta"],
                         split=s["split"], bucket_types=tuple(s["types"]), min_prob_b=s["minp"],
                         coverage=s["coverage"], **kw)


def pinball(v, sc, cov):
    d = sc - v
    return float(np.mean(np.where(d > 0, cov * d, -(1 - cov) * d)))


@case(spec(), quick=150, shards=8, cost=5)
def loop(s, t):
    n, R = s["n"], 3
    cal, scores, groups, th = build(s)
    g = np.ones((n, 1), dtype=bool) if groups is None else np.array(groups)
    start = np.zeros(n, dtype=np.float32) if th is None else np.array(th)
    traj, stats = [start], []
    for k in range(1, R + 1):
        cal, scores, groups, th = build(s)
        status = calibrate(s, cal, scores, groups, th, k)
        t.equal(np.array(scores), arr(s["scores"]), "scores after calibration")
        out = np.asarray(cal.apply_patches(jnp.array(g), th))
        if th is not None:
            t.equal(np.array(th), arr(s["th"]), "thresholds after calibration")
        t.shape(out, (n,), "patched thresholds")
        t.finite(out, "patched thresholds")
        t.check((out >= 0).all() and (out <= 1).all(), "thresholds leave [0, 1]", out)
        t.check(status["n_rounds"] <= k, "more rounds than allowed")
        traj.append(out)
        stats.append(status)
        # single points and other orders
        one = cal.apply_patches(jnp.array(g)[:1], None if th is None else th[:1])
        t.close(one, out[:1], "a point alone", atol=1e-6)
    t.nontrivial(sum(not np.array_equal(a, b) for a, b in zip(traj, traj[1:])) >= 2)
    t.label(s["kind"], f"rounds{stats[-1]['n_rounds']}", f"G{s['G']}", f"split{s['split']}")
    sc, cov, nb = np.float64(arr(s["scores"])), s["coverage"], s["nb"]
    minp = 1 / nb if s["minp"] == "auto" else s["minp"]
    lv = np.linspace(0, 1, nb)
    deltas = np.concatenate([-lv[::-1][:-1], lv])
    if s["split"] != 1.0:  # which points are held out is not known: each round shifts one set by one grid step
        for k in range(stats[-1]["n_rounds"]):
            cur, nxt = np.float64(traj[k]), np.float64(traj[k + 1])
            sets, close = memberships(cur, g, nb, s["types"])
            if close:
                return
            ok = any(
                np.abs(np.where(m, np.clip(cur + s["eta"] * d, 0, 1), cur) - nxt).max() < 2e-5
                for m in sets.values() for d in deltas
            )
            t.check(ok, f"round {k + 1} is not a grid shift of one set", traj[k], traj[k + 1])
        return
    for k in range(R):
        cur = np.float64(traj[k])
        cand, close = worst_sets(cur, sc, g, nb, s["types"], minp, mvp_error(cov))
        if close or (np.abs(cur - sc) < 2e-6).any():
            t.label("too close to call")
            return
        nxt = []
        if cand is not None:
            sets, _ = memberships(cur, g, nb, s["types"])
            for key in cand:
                m = sets[key]
                if not m.any():
                    nxt.append(cur)
                    continue
                hit = sc[None] <= cur[None] + deltas[:, None]
                if (np.abs(cur[None] + deltas[:, None] - sc[None]) < 2e-6)[:, m].any():
                    t.label("too close to call")
                    return
                err = (cov - hit[:, m].mean(1)) ** 2
                for d in deltas[err <= err.min() + 1e-6]:
                    nxt.append(np.where(m, np.clip(cur + s["eta"] * d, 0, 1), cur))
        now = pinball(cur, sc, cov)
        if stats[k]["n_rounds"] < k + 1:
            t.close(traj[k + 1], traj[k], "thresholds after an early stop")
            t.check(cand is None or any(pinball(v, sc, cov) >= now - 1e-6 for v in nxt),
                    f"stopped after {k} rounds though every worst set lowers the loss")
            return
        t.check(cand is not None, "a set of too low probability was patched")
        t.check(any(np.abs(v - traj[k + 1]).max() < 2e-5 for v in nxt),
                f"round {k + 1} does not move a worst set to its best grid level", dict(before=cur, after=traj[k + 1]))
        t.check(pinball(np.float64(traj[k + 1]), sc, cov) <= now + 1e-6, "a kept round raised the loss")


@case(spec(), quick=60, shards=8, cost=3)
def test_points(s, t):
    cal, scores, groups, th = build(s)
    n = s["n"]
    perm = np.array([(3 * i + 1) % n for i in range(n)])
    if groups is None:
        groups = jnp.ones((n, 1), dtype=bool)
    kw = dict(test_groups=groups[perm])
    if th is not None:
        kw["test_thresholds"] = th[perm]
    got, status = calibrate(s, cal, scores, groups, th, 4, **kw)
    t.nontrivial(status["n_rounds"] > 0)
    own = np.asarray(cal.apply_patches(groups, th))
    t.close(got, own[perm], "test thresholds of points equal to calibration points", atol=1e-6)
    cal2, scores, _, th = build(s)
    got2, _ = calibrate(s, cal2, scores, groups, th, 4, **kw)
    t.equal(np.asarray(got2), np.asarray(got), "calibrating twice with one seed")
    err = np.asarray(cal.calibration_error(scores=scores, groups=groups, thresholds=th, n_buckets=s["nb"]))
    g = np.asarray(groups)
    v = np.zeros(n) if th is None else np.float64(np.asarray(th))
    sc = np.float64(arr(s["scores"]))
    sets, close = memberships(v, g, s["nb"], ["="])
    if close or (np.abs(v - sc) < 2e-6).any() or not g.any(0).all():
        return
    want = np.zeros(g.shape[1])
    for (ty, gi, vi, c), m in sets.items():
        want[gi] += mvp_error(s["coverage"])(v, sc, m, c) / g[:, gi].mean()
    t.close(err, want, "calibration error", atol=2e-5)


@st.composite
def set_spec(draw):
    n, c = draw(st.sampled_from([1, 3, 5])), draw(st.sampled_from([2, 4]))
    return dict(n=n, c=c, s=[v / 8 for v in draw(ints(n * c, 9))], th=[v / 8 for v in draw(ints(n, 9))])


@case(set_spec(), quick=200)
def sets(s, t):
    sc = arr(s["s"], (s["n"], s["c"]))
    got = BatchMVPConformalClassifier().conformal_set(jnp.array(sc), jnp.array(arr(s["th"])))
    want = [[j for j in range(s["c"]) if sc[i, j] <= s["th"][i]] for i in range(s["n"])]
    t.nontrivial(any(0 < len(w) < s["c"] for w in want))
    t.label(*[f"size{len(w)}" for w in want])
    t.check(len(got) == s["n"], "number of sets")
    t.equal([[int(v) for v in g] for g in got], want, "conformal sets by thresholds")
