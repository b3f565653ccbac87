"""C01: conformal prediction sets for classification."""
from fractions import Fraction

from gens import *
from pbt import *

import jax.numpy as jnp
from fortuna.conformal import (
    AdaptivePredictionConformalClassifier,
    CVPlusAdaptivePredictionConformalClassifier,
    CVPlusSimplePredictionConformalClassifier,
    SimplePredictionConformalClassifier,
)

PROPERTY = "C01"
RULE = (
    "Calibration sets of 1-19 points, 1-3 test points, 2-4 classes, dyadic probabilities (exact in float32) and error "
    "levels; non-trivial = at least one set is neither empty nor full, or (coverage) some pool point is left out."
)
ASSUMPTIONS = [
    "CV+ classification pools the scores of all splits, as the repository's own tests fix it.",
    "A label enters the set iff fewer than (1 - error)(n + 1) calibration scores lie strictly below its score.",
]
NS, MS, CS = [1, 3, 4, 9, 19], [1, 3], [2, 4]
SPLIT = {"simple": SimplePredictionConformalClassifier, "adaptive": AdaptivePredictionConformalClassifier}
CV = {"simple": CVPlusSimplePredictionConformalClassifier, "adaptive": CVPlusAdaptivePredictionConformalClassifier}


def ref_score(kind, row, y):
    row = [Fraction(x) for x in row]
    return 1 - row[y] if kind == "simple" else sum(p for p in row if p >= row[y])


def ref_sets(kind, vp, vt, tp, error):
    vs = [ref_score(kind, r, y) for r, y in zip(vp, vt)]
    lim = (1 - Fraction(error)) * (len(vs) + 1)
    return [
        [y for y in range(len(r)) if sum(v < ref_score(kind, r, y) for v in vs) < lim] for r in tp
    ]


def plain(sets, t, m, c):
    t.check(len(sets) == m, f"{len(sets)} sets for {m} test points", sets)
    out = []
    for s in sets:
        s = [int(v) for v in s]
        t.check(len(set(s)) == len(s) and all(0 <= v < c for v in s), "a set holds repeated or unknown labels", s)
        out.append(sorted(s))
    return out


@st.composite
def split_spec(draw, distinct=True):
    kind = draw(st.sampled_from(["simple", "adaptive"]))
    n, m, c = draw(st.sampled_from(NS)), draw(st.sampled_from(MS)), draw(st.sampled_from(CS))
    gen = distinct_probs if distinct else tied_probs
    return dict(
        kind=kind, vp=draw(gen(n, c)), vt=draw(ints(n, c)), tp=draw(gen(m, c)), error=draw(dyadic_error()), c=c,
        e2=draw(dyadic_error()), perm=draw(permutation(n)),
    )


def run_split(s, vp=None, vt=None, tp=None, error=None):
    conf = SPLIT[s["kind"]]()
    vp, vt, tp = [v if v is not None else s[k] for v, k in ((vp, "vp"), (vt, "vt"), (tp, "tp"))]
    return conf.conformal_set(
        val_probs=jnp.array(vp), val_targets=jnp.array(vt), test_probs=jnp.array(tp),
        error=s["error"] if error is None else error,
    )


@case(split_spec(), quick=1200, shards=2)
def split_rule(s, t):
    """The sets are exactly the ones of the split conformal rule."""
    got = plain(run_split(s), t, len(s["tp"]), s["c"])
    want = ref_sets(s["kind"], s["vp"], s["vt"], s["tp"], s["error"])
    t.label(s["kind"], *[f"size{len(w)}" for w in want])
    t.nontrivial(any(0 < len(w) < s["c"] for w in want))
    t.equal(got, want, "conformal sets")


@case(split_spec(distinct=False), quick=500, shards=2)
def split_relations(s, t):
    """Sets shrink as the error grows, do not depend on the order of the calibration data, nor on the other test points."""
    m, c = len(s["tp"]), s["c"]
    base = plain(run_split(s), t, m, c)
    lo, hi = sorted([s["error"], s["e2"]])
    a, b = plain(run_split(s, error=lo), t, m, c), plain(run_split(s, error=hi), t, m, c)
    t.check(all(set(y) <= set(x) for x, y in zip(a, b)), f"sets at error {hi} are not inside those at {lo}", a, b)
    p = s["perm"]
    perm = plain(run_split(s, vp=[s["vp"][i] for i in p], vt=[s["vt"][i] for i in p]), t, m, c)
    t.equal(perm, base, "sets after permuting the calibration data")
    alone = [plain(run_split(s, tp=[r]), t, 1, c)[0] for r in s["tp"]]
    t.equal(alone, base, "sets of the test points taken one by one")
    t.nontrivial(a != b or any(0 < len(x) < c for x in base))


@st.composite
def pool_spec(draw):
    kind = draw(st.sampled_from(["simple", "adaptive"]))
    n, c = draw(st.sampled_from([1, 3, 4, 9])), draw(st.sampled_from(CS))
    gen = draw(st.sampled_from([distinct_probs, tied_probs]))
    return dict(kind=kind, p=draw(gen(n + 1, c)), y=draw(ints(n + 1, c)), error=draw(dyadic_error()))


@case(pool_spec(), quick=300, shards=2)
def coverage(s, t):
    """Each of n+1 points tested against the other n: at least (1-error)(n+1) sets hold the true label."""
    P, y = s["p"], s["y"]
    N = len(P)
    conf = SPLIT[s["kind"]]()
    cov = 0
    for j in range(N):
        rest = [i for i in range(N) if i != j]
        sets = conf.conformal_set(
            jnp.array([P[i] for i in rest]), jnp.array([y[i] for i in rest]), jnp.array([P[j]]), s["error"]
        )
        inside = conf.is_in(jnp.array([y[j]]), sets)
        t.equal(bool(inside[0]), y[j] in [int(v) for v in sets[0]], "is_in against membership")
        cov += bool(inside[0])
    t.nontrivial(cov < N)
    t.label(f"{s['kind']} cov{round(cov / N, 1)}")
    t.check(cov >= (1 - Fraction(s["error"])) * N, f"{cov} of {N} covered at error {s['error']}")


@st.composite
def cv_spec(draw):
    kind = draw(st.sampled_from(["simple", "adaptive"]))
    k, m, c = draw(st.sampled_from([2, 3])), draw(st.sampled_from(MS)), draw(st.sampled_from(CS))
    sizes = [draw(st.sampled_from([1, 3, 4])) for _ in range(k)]
    return dict(
        kind=kind, vp=[draw(distinct_probs(n, c)) for n in sizes], vt=[draw(ints(n, c)) for n in sizes],
        tp=[draw(distinct_probs(m, c)) for _ in sizes], error=draw(dyadic_error()), c=c,
    )


@case(cv_spec(), quick=400, shards=2)
def cvplus_rule(s, t):
    """CV+ ranks every fold's test scores against the pooled calibration scores of all folds."""
    got = CV[s["kind"]]().conformal_set(
        cross_val_probs=[jnp.array(v) for v in s["vp"]], cross_val_targets=[jnp.array(v) for v in s["vt"]],
        cross_test_probs=[jnp.array(v) for v in s["tp"]], error=s["error"],
    )
    tp = sum(s["tp"], [])
    got = plain(got, t, len(tp), s["c"])
    want = ref_sets(s["kind"], sum(s["vp"], []), sum(s["vt"], []), tp, s["error"])
    t.nontrivial(any(0 < len(w) < s["c"] for w in want))
    t.equal(got, want, "CV+ conformal sets")


@st.composite
def is_in_spec(draw):
    n = draw(st.sampled_from([1, 3, 5]))
    sets = [sorted(draw(st.sets(st.integers(0, 4), max_size=4))) for _ in range(n)]
    return dict(sets=sets, v=draw(ints(n, 5)))


@case(is_in_spec(), quick=100)
def is_in(s, t):
    got = SimplePredictionConformalClassifier().is_in(jnp.array(s["v"]), s["sets"])
    want = [v in x for v, x in zip(s["v"], s["sets"])]
    t.nontrivial(len(set(want)) == 2)
    t.equal([bool(g) for g in np.asarray(got)], want, "is_in")
