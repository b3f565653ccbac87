"""C07: one-shot multicalibration."""
from gens import *
from pbt import *

import jax.numpy as jnp
from fortuna.conformal import (
    OneShotBinaryClassificationMulticalibrator,
    OneShotMulticalibrator,
    OneShotTopLabelMulticalibrator,
)

PROPERTY = "C07"
RULE = (
    "4-16 calibration and 3-6 test points, 2-10 levels, all three variants; test values lie near, on and between the "
    "calibrated levels; non-trivial = some test value is replaced by a mean of targets, others by different ones."
)
ASSUMPTIONS = [
    "A value belongs to its nearest level; calibration uses the values closer to a level than half the reciprocal of "
    "the number of levels. Values within 2e-6 of a border are not generated on purpose and are skipped.",
]


@st.composite
def spec(draw):
    kind = draw(st.sampled_from(["scores", "binary", "top"]))
    n, m, nb = draw(st.sampled_from([4, 16])), draw(st.sampled_from([3, 6])), draw(st.sampled_from([2, 4, 10]))
    s = dict(kind=kind, n=n, m=m, nb=nb, minp=draw(st.sampled_from(["auto", 0.0, 0.0, 0.0625])))
    if kind == "top":
        s["v"], s["tv"] = draw(distinct_probs(n, 3)), draw(distinct_probs(m, 3))
        s["y"] = draw(ints(n, 3))
    else:
        near = draw(st.booleans())
        gen = lambda k: draw(st.binary(min_size=2 * k, max_size=2 * k)).__iter__()

        def vals(k):
            it = list(gen(k))
            if not near:
                return [it[2 * i] % 65 / 64 for i in range(k)]
            lev = [it[2 * i] % nb / (nb - 1) for i in range(k)]
            return [min(1.0, max(0.0, round((lv + (it[2 * i + 1] % 9 - 4) / 4.3 * 0.5 / nb) * 512) / 512)) for i, lv in enumerate(lev)]

        s["v"], s["tv"] = vals(n), vals(m)
        s["y"] = draw(grid(n, 0.0, 1.0, levels=9)) if kind == "scores" else draw(ints(n, 2))
    s["perm"] = draw(permutation(n))
    return s


def make(s):
    return {"scores": lambda: OneShotMulticalibrator(), "binary": lambda: OneShotBinaryClassificationMulticalibrator(),
            "top": lambda: OneShotTopLabelMulticalibrator(n_classes=3)}[s["kind"]]()


def run(s, cal, y, v, tv):
    a, b, c = ("scores", "values", "test_values") if s["kind"] == "scores" else ("targets", "probs", "test_probs")
    y = jnp.array(y, dtype=jnp.float32 if s["kind"] == "scores" else jnp.int32)
    kw = {} if tv is None else {c: tv}
    return cal.calibrate(**{a: y, b: v}, n_buckets=s["nb"], min_prob_b=s["minp"], **kw)


def reference(s):
    """(expected test values, too close to call, number of replacements by a mean)"""
    v, tv, nb, n = np.array(s["v"]), np.array(s["tv"]), s["nb"], s["n"]
    top = s["kind"] == "top"
    scores = np.eye(3)[s["y"]] if top else np.array(s["y"], dtype=float)
    lv = np.linspace(0, 1, nb)
    minp = 1 / (nb * (3 if top else 1)) if s["minp"] == "auto" else s["minp"]
    out, close, used = np.array(tv, dtype=float), False, set()
    for c in range(3 if top else 1):
        col, tcol, sc = (v[:, c], tv[:, c], scores[:, c]) if top else (v, tv, scores)
        d = 0.5 / nb - np.abs(col[:, None] - lv[None])
        close |= bool((np.abs(d) < 2e-6).any())
        for i, x in enumerate(tcol):
            if top and tv[i].argmax() != c:
                continue
            dist = np.abs(lv - x)
            o = np.sort(dist)
            close |= o[1] - o[0] < 2e-6
            k = dist.argmin()
            mask = d[:, k] > 0
            if top:
                mask = mask & (v.argmax(1) == c)
            p = mask.mean()
            close |= abs(p - minp) < 1e-6 and p * n != round(p * n)
            new = sc[mask].mean() if p > minp else lv[k]
            if p > minp:
                used.add((c, int(k)))
            if top:
                out[i, c] = new
            else:
                out[i] = new
    return out, close, used


@case(spec(), quick=500, shards=4)
def rule(s, t):
    cal = make(s)
    v, tv = jnp.array(arr(s["v"])), jnp.array(arr(s["tv"]))
    got = np.asarray(run(s, cal, s["y"], v, tv))
    t.equal(np.array(v), arr(s["v"]), "values after calibration")
    t.equal(np.array(tv), arr(s["tv"]), "test values after calibration")
    t.check((got >= 0).all() and (got <= 1).all(), "patched values leave [0, 1]", got)
    want, close, used = reference(s)
    if close:
        t.label("too close to call")
    else:
        t.close(got, want, "patched test values", atol=1e-5)
    t.nontrivial(len(used) > 1)
    t.label(s["kind"], f"cells{min(len(used), 4)}")
    # the same patches, applied again, alone, or learnt from the data in another order
    t.close(cal.apply_patches(tv), got, "patches applied again", atol=1e-6)
    for i in (0, s["m"] - 1):
        t.close(cal.apply_patches(tv[i:i + 1]), got[i:i + 1], "a test point alone", atol=1e-6)
    p = np.array(s["perm"])
    cal2 = make(s)
    none = run(s, cal2, np.array(s["y"])[p], v[p], None)
    t.check(none is None, "calibration without test values returns nothing", none)
    t.close(cal2.apply_patches(tv), got, "patches learnt from permuted data", atol=1e-5)
