"""C06: iterative multicalibration (scores, binary and top-label classification)."""
from gens import *
from multivalid import *
from pbt import *

import jax.numpy as jnp
from fortuna.conformal import BinaryClassificationMulticalibrator, Multicalibrator, TopLabelMulticalibrator

PROPERTY = "C06"
RULE = (
    "8 or 16 points, up to 3 groups (overlapping, empty, full or not given), 2-10 levels, all bucket types, both patch "
    "types, given or default initial values; non-trivial = at least two rounds move the values, differently."
)
ASSUMPTIONS = [
    "The trajectory is read off by calibrating with 1, 2, ... rounds (calibration is deterministic), so no internal "
    "state is inspected; rounds whose worst set is tied within 1e-6 may pick any of the tied sets.",
    "Multiplicative patches start from positive values.",
]


@st.composite
def spec(draw, split=None):
    kind = draw(st.sampled_from(["scores", "binary", "top"]))
    n, nb = draw(st.sampled_from([8, 16])), draw(st.sampled_from([2, 5, 10]))
    G = draw(st.sampled_from([0, 1, 3]))
    s = dict(kind=kind, n=n, nb=nb, G=G, seed=draw(st.integers(0, 3)))
    s["groups"] = draw(ints(n * G, 2)) if G else None
    if draw(st.booleans()) and G:
        s["groups"] = [1 if i % G == 0 else v for i, v in enumerate(s["groups"])]
    s["y"] = draw(grid(n, 0.0, 1.0, levels=9)) if kind == "scores" else draw(ints(n, 2 if kind == "binary" else 3))
    if kind == "top":
        s["values"] = draw(distinct_probs(n, 3))
    else:
        s["values"] = [v / 64 for v in draw(ints(n, 65))]
    s["default"] = draw(st.integers(0, 4)) == 0
    s["types"] = list(draw(st.sampled_from([("<=", ">="), ("=",), (">=",), ("<=",), ("=", ">=", "<=")])))
    s["ptype"] = draw(st.sampled_from(["additive", "additive", "multiplicative"]))
    if s["ptype"] == "multiplicative":
        s["default"] = False
    s["eta"] = draw(st.sampled_from([0.125, 0.5, 1.0]))
    s["minp"] = draw(st.sampled_from(["auto", "auto", 0.0, 0.125, 0.5]))
    s["rounds"] = 3
    s["split"] = split or 1.0
    return s


def build(s):
    if s["kind"] == "top":
        cal = TopLabelMulticalibrator(n_classes=3, seed=s["seed"])
    else:
        cal = (Multicalibrator if s["kind"] == "scores" else BinaryClassificationMulticalibrator)(seed=s["seed"])
    y = jnp.array(s["y"], dtype=jnp.float32 if s["kind"] == "scores" else jnp.int32)
    groups = None if s["groups"] is None else jnp.array(s["groups"]).reshape(s["n"], s["G"]).astype(bool)
    values = None if s["default"] else jnp.array(arr(s["values"]))
    if values is not None and s["ptype"] == "multiplicative":
        values = values * 0.75 + 0.125 if s["kind"] != "top" else values
    return cal, y, groups, values


def names(s):
    return ("scores", "values", "test_values") if s["kind"] == "scores" else ("targets", "probs", "test_probs")


def calibrate(s, cal, y, groups, values, rounds, **kw):
    a, b, _ = names(s)
    return cal.calibrate(**{a: y, b: values}, groups=groups, n_buckets=s["nb"], n_rounds=rounds, eta=s["eta"],
                         split=s["split"], bucket_types=tuple(s["types"]), patch_type=s["ptype"], min_prob_b=s["minp"],
                         **kw)


def apply(s, cal, groups, values):
    return cal.apply_patches(groups, values)


def one_hot(s):
    y = np.array(s["y"])
    return np.eye(3)[y] if s["kind"] == "top" else y.astype(np.float64)


def loss(values, scores):
    return float(np.mean((np.float64(values) - scores) ** 2))


def trajectory(s, t):
    """Values of the calibration points after 0, 1, ..., rounds rounds, and the statuses."""
    cal, y, groups, values = build(s)
    g = jnp.ones((s["n"], 1), dtype=bool) if groups is None else groups
    start = np.asarray(values if values is not None else apply(s, cal, g, None))
    traj, stats = [start], []
    for k in range(1, s["rounds"] + 1):
        cal, y, groups, values = build(s)
        y0, v0 = np.array(y), None if values is None else np.array(values)
        st_ = calibrate(s, cal, y, groups, values, k)
        t.check(isinstance(st_, dict), "calibration without test data returns a status", type(st_))
        out = np.asarray(apply(s, cal, g, values))
        t.shape(out, start.shape, "patched values")
        t.finite(out, "patched values")
        t.check((out >= 0).all() and (out <= 1).all(), "patched values leave [0, 1]", out)
        t.equal(np.array(y), y0, "targets after calibration")
        if values is not None:
            t.equal(np.array(values), v0, "initial values after calibration")
        traj.append(out)
        stats.append(st_)
        t.check(st_["n_rounds"] == len(cal.patches) and st_["n_rounds"] <= k, "number of rounds in the status", st_["n_rounds"], k)
    return traj, stats, np.asarray(g)


def min_prob(s):
    return 1 / (s["nb"] * (3 if s["kind"] == "top" else 1)) if s["minp"] == "auto" else s["minp"]


def successors(s, values, scores, groups, train):
    """Possible next values (for all points) of a round fitted on the points `train`; None if no set is probable enough."""
    cand, close = worst_sets(values[train], scores[train], groups[train], s["nb"], s["types"], min_prob(s), mse_error)
    all_sets, close2 = memberships(values, groups, s["nb"], s["types"])
    if cand is None:
        return None, close or close2
    out = []
    for k in cand:
        m, c = all_sets[k], k[3]
        mt = m[train]
        col = values if values.ndim == 1 else values[:, c]
        sc = scores if values.ndim == 1 else scores[:, c]
        nxt = np.array(values, dtype=np.float64)
        if mt.any():
            ey, ev = sc[train][mt].mean(), col[train][mt].mean()
            if s["ptype"] == "additive":
                new = np.clip(col + s["eta"] * (ey - ev), 0, 1)
            else:
                new = np.clip(col * (1 - s["eta"] * (1 - (ey / ev if ev > 0 else 1.0))), 0, 1)
            if values.ndim == 1:
                nxt[m] = new[m]
            else:
                nxt[m, c] = new[m]
        out.append(nxt)
    return out, close or close2


@case(spec(), quick=120, shards=8, cost=5)
def loop(s, t):
    """Every round patches the (a) worst set by its mean residual; rounds stop only when the loss would grow."""
    traj, stats, groups = trajectory(s, t)
    scores = one_hot(s)
    train = np.arange(s["n"])
    moved = [not np.array_equal(a, b) for a, b in zip(traj, traj[1:])]
    t.nontrivial(sum(moved) >= 2)
    t.label(s["kind"], s["ptype"], f"rounds{stats[-1]['n_rounds']}", f"G{s['G']}", *s["types"])
    for k in range(s["rounds"]):
        cur = np.float64(traj[k])
        nxt, close = successors(s, cur, scores, groups, train)
        if close:
            t.label("too close to call")
            return
        done = stats[k]["n_rounds"]
        if done < k + 1:  # stopped in this round
            t.check(stats[k]["n_rounds"] == (stats[k - 1]["n_rounds"] if k else 0), "rounds shrink with more rounds allowed")
            t.close(traj[k + 1], traj[k], "values after an early stop")
            t.check(nxt is None or any(loss(v, scores) >= loss(cur, scores) - 1e-6 for v in nxt),
                    f"stopped after {done} rounds though the next patch lowers the loss", loss(cur, scores))
            return
        t.check(nxt is not None, "a set of too low probability was patched")
        ok = [v for v in nxt if np.abs(v - traj[k + 1]).max() < 2e-5]
        t.check(ok, f"round {k + 1} is not the patch of a worst set", dict(before=traj[k], after=traj[k + 1], want=nxt[0]))
        t.check(loss(traj[k + 1], scores) <= loss(cur, scores) + 1e-6, "a kept round raised the loss")


@case(spec(split=0.875).filter(lambda s: s["n"] == 8), quick=60, shards=8, cost=5)
def validation(s, t):
    """One held-out point: the reported losses are its losses, rounds are fitted on the other points only."""
    traj, stats, groups = trajectory(s, t)
    scores = one_hot(s)
    t.nontrivial(stats[-1]["n_rounds"] >= 1)
    t.label("converged" if stats[-1]["converged"] else "not converged", s["kind"])
    whys = []
    for i in range(s["n"]):
        why = explain(s, t, traj, stats, groups, scores, i)
        if why is None:
            return
        whys.append(why)
    t.fail(f"no held-out point explains the run: {whys}")


def explain(s, t, traj, stats, groups, scores, i):
    train = np.array([j for j in range(s["n"]) if j != i])
    last = stats[-1]
    L = [float(x) for x in last["losses"]]
    R = last["n_rounds"]
    if last["converged"] and len(L) != R + 1:
        return f"{len(L)} losses for {R} rounds"
    for k in range(R + 1):
        if abs(L[k] - loss(traj[k][i], scores[i])) > 2e-5:
            return f"{i}: loss {k}"
    for k in range(R):
        nxt, close = successors(s, np.float64(traj[k]), scores, groups, train)
        if close:
            return None
        if nxt is None or not any(np.abs(v - traj[k + 1]).max() < 2e-5 for v in nxt):
            return f"{i}: round {k + 1}"
    for k in range(R):
        if L[k + 1] > L[k] + 1e-6 and L[k + 1] > 1e-4 + 1e-6:
            return f"{i}: kept round {k + 1} though the held-out loss grew"
    if last["converged"]:
        if not (L[-1] <= 1e-4 + 1e-6 or (L[-2] - L[-1]) <= 1e-5 * L[-2] + 1e-7):
            return f"{i}: converged without reason"
    elif R < s["rounds"]:  # stopped for a reason
        nxt, close = successors(s, np.float64(traj[R]), scores, groups, train)
        if close or nxt is None:
            return None
        tl = loss(traj[R][train], scores[train])
        vl = loss(traj[R][i], scores[i])
        if not any(loss(v[train], scores[train]) >= tl - 1e-6 or loss(v[i], scores[i]) >= vl - 1e-6 for v in nxt):
            return f"{i}: stopped after {R} rounds without reason"
    elif L[-1] <= 1e-4 - 1e-6 and R:
        return f"{i}: not marked converged"
    return None


@case(spec(split=0.75), quick=80, shards=8, cost=3)
def test_points(s, t):
    """Test values returned by calibration are the patches applied to them: row by row, in any order, repeatably."""
    cal, y, groups, values = build(s)
    s = dict(s, rounds=4)
    _, _, tv = names(s)
    n = s["n"]
    perm = np.array([(3 * i + 1) % n for i in range(n)])  # test points: the calibration points, shuffled
    if values is None and groups is None:
        values = jnp.array(arr(s["values"]))
    kw = {}
    if groups is not None:
        kw["test_groups"] = groups[perm]
    if values is not None:
        kw[tv] = values[perm]
    got, status = calibrate(s, cal, y, groups, values, s["rounds"], **kw)
    got = np.asarray(got)
    t.nontrivial(status["n_rounds"] > 0)
    t.label(s["kind"], "values" if values is not None else "default", f"rounds{status['n_rounds']}")
    t.finite(got, "test values")
    t.check((got >= 0).all() and (got <= 1).all(), "test values leave [0, 1]", got)
    tg = None if groups is None else groups[perm]
    again = np.asarray(apply(s, cal, tg, None if values is None else values[perm]))
    t.close(again, got, "patches applied again to the test points", atol=1e-6)
    if values is not None:
        own = np.asarray(apply(s, cal, groups, values))
        t.close(got, own[perm], "a test point equal to a calibration point", atol=1e-6)
        for i in (0, n - 1):
            one = apply(s, cal, None if tg is None else tg[i:i + 1], values[perm][i:i + 1])
            t.close(one, got[i:i + 1], "a test point alone", atol=1e-6)
    cal2, *_ = build(s)
    got2, _ = calibrate(s, cal2, y, groups, values, s["rounds"], **kw)
    t.equal(np.asarray(got2), got, "calibrating twice with one seed")
    a, b, _ = names(s)
    calibrate(s, cal, y, groups, values, s["rounds"])  # calibrating again starts afresh
    if values is not None:
        t.close(apply(s, cal, groups, values), own, "values after calibrating the same object again", atol=1e-6)


@case(spec(), quick=80, shards=4, cost=2)
def error_report(s, t):
    """The calibration error of a group is the bucket-weighted squared gap between mean score and mean value."""
    cal, y, groups, values = build(s)
    if values is None:
        values = jnp.array(arr(s["values"]))
    g = np.ones((s["n"], 1), dtype=bool) if groups is None else np.array(groups)
    if not g.any(0).all():
        g[0] = True
        groups = jnp.array(g)
    a, b, _ = names(s)
    got = np.asarray(cal.calibration_error(**{a: y, b: values}, groups=groups, n_buckets=s["nb"]))
    v, sc = np.float64(np.asarray(values)), one_hot(s)
    sets, close = memberships(v, g, s["nb"], ["="])
    if close:
        return
    C = 1 if v.ndim == 1 else v.shape[1]
    want = np.zeros((g.shape[1], C))
    for (ty, gi, vi, c), m in sets.items():
        want[gi, c] += mse_error(v, sc, m, c) / g[:, gi].mean()
    t.nontrivial(want.max() > 0)
    t.close(got, want[:, 0] if C == 1 else want, "calibration error", atol=2e-5)
    m = float(cal.mean_squared_error(values, y))
    t.close(m, loss(v, sc), "mean squared error", atol=2e-5)
