"""C14: nested dictionaries and freezing."""
import copy

from gens import *
from pbt import *

import jax
import jax.numpy as jnp
import optax
from flax.core import FrozenDict, freeze
from flax.traverse_util import flatten_dict
from fortuna.utils import nested_dicts as nd
from fortuna.utils.freeze import freeze_optimizer, get_frozen_paths, get_paths_with_label, get_trainable_paths

PROPERTY = "C14"
RULE = (
    "Trees of depth 1-4 with 1-3 keys per level drawn from five names (the same name at several places), array leaves; "
    "1-4 addressed paths; non-trivial = some entries are addressed and some are not, at different depths."
)
ASSUMPTIONS = ["Optimisers are frozen on FrozenDict parameters, the type the library gives them."]
NAMES = ["a", "b", "kernel", "bias", "params"]


@st.composite
def tree(draw, depth=4):
    """A nested dictionary with integer leaves 0, 1, 2, ... (their number)."""
    keys = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    return {k: draw(tree(depth - 1)) if depth > 1 and draw(st.booleans()) else draw(st.integers(0, 9)) for k in keys}


def leaves(d, pre=()):
    out = []
    for k, v in d.items():
        out += leaves(v, pre + (k,)) if isinstance(v, dict) else [pre + (k,)]
    return out


def nodes(d, pre=()):
    out = []
    for k, v in d.items():
        out.append(pre + (k,))
        if isinstance(v, dict):
            out += nodes(v, pre + (k,))
    return out


def at(d, p):
    for k in p:
        d = d[k]
    return d


def plain(d):
    return {k: plain(v) for k, v in d.items()} if hasattr(d, "items") else d


@st.composite
def spec(draw):
    d = draw(tree())
    pick = draw(st.lists(st.integers(0, 99), max_size=4))
    return dict(d=d, pick=pick, new=draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4)), other=draw(tree(3)), third=draw(tree(2)),
                key=draw(st.sampled_from(NAMES)), frozen=draw(st.booleans()), obj=draw(st.sampled_from([7, {"x": 1}])), same=draw(st.sampled_from([0, 0, 1, 2])))


@case(spec(), quick=2500, shards=4)
def nested(s, t):
    d = s["d"]
    keep = copy.deepcopy(d)
    src = freeze(d) if s["frozen"] else d
    paths, L = nodes(d), leaves(d)
    for p in paths:
        t.equal(plain(nd.nested_get(src, list(p))), at(d, p), f"get {p}")
    t.raises(ValueError, lambda: nd.nested_get(d, []), "get without keys")
    # set
    some = []
    for i in s["pick"]:
        if L[i % len(L)] not in some:
            some.append(L[i % len(L)])
    # new values, sometimes the very objects that are there
    objs = tuple(at(d, p) if s["same"] == 2 or (s["same"] == 1 and i % 2) else [s["obj"], i] for i, p in enumerate(some))
    got = nd.nested_set(d, tuple(list(p) for p in some), objs)
    t.equal(d, keep, "the tree given to set")
    flat, gflat = flatten_dict(d), flatten_dict(got)
    t.equal(list(gflat), list(flat), "paths after set")
    for p in flat:
        t.equal(gflat[p], objs[some.index(p)] if p in some else flat[p], f"entry {p} after set")
    back = nd.nested_set(got, tuple(list(p) for p in some), tuple(at(d, p) for p in some))
    t.equal(back, d, "writing back what was there")
    new = s["new"]
    exists = tuple(new) in paths
    clash = any(tuple(new[:i]) in L for i in range(1, len(new)))
    if not exists and not clash:
        t.raises(KeyError, lambda: nd.nested_set(d, (list(new),), (1,)), "setting a path that does not exist")
        t.equal(d, keep, "the tree given to a failed set")
        got = nd.nested_set(d, (list(new),), (-1,), allow_nonexistent=True)
        want = dict(flat)
        want[tuple(new)] = -1
        t.equal(flatten_dict(got), want, "entries after adding a path")
        t.equal(d, keep, "the tree given to set")
    # pair and unpair
    labels = ("one", "two")
    pairs = nd.nested_pair(d, tuple(list(p) for p in some), objs, labels)
    t.equal(d, keep, "the tree given to pair")
    for p in L:
        t.equal(at(pairs, p), {"one": at(d, p), "two": objs[some.index(p)]} if p in some else at(d, p), f"entry {p} after pair")
    keep2 = copy.deepcopy(pairs)
    a, b = nd.nested_unpair(pairs, tuple(list(p) for p in some), labels)
    t.equal(pairs, keep2, "the tree given to unpair")
    t.equal(a, d, "first part of the unpaired tree")
    t.equal(flatten_dict(b) if b else {}, {p: o for p, o in zip(some, objs)}, "second part of the unpaired tree")
    if not exists and not clash:
        t.raises(KeyError, lambda: nd.nested_pair(d, (list(new),), (1,), labels), "pairing a path that does not exist")
        t.raises(KeyError, lambda: nd.nested_unpair(d, (list(new),), labels), "unpairing a path that does not exist")
    # update
    others = [s["other"], s["third"]]
    keep3 = copy.deepcopy(others)
    got = nd.nested_update(d, *others)

    def upd(x, y):
        x = dict(x)
        for k, v in y.items():
            x[k] = upd(x[k], v) if k in x and isinstance(x[k], dict) and isinstance(v, dict) else v
        return x

    t.equal(got, upd(upd(d, others[0]), others[1]), "update")
    t.equal((d, others), (keep, keep3), "the trees given to update")
    # find
    p = nd.find_one_path_to_key(src, s["key"])
    has = [q for q in paths if q[-1] == s["key"]]
    if has:
        t.check(tuple(p) in has, "the found path does not lead to the key", p)
    else:
        t.check(s["key"] not in p, "a path to a key that is not there", p)
    t.nontrivial(0 < len(some) < len(L) and len({len(q) for q in L}) > 1)
    t.label(f"leaves {min(len(L), 6)}", "clash" if clash else "exists" if exists else "new path")


@st.composite
def freeze_spec(draw):
    return dict(d=draw(tree()), key=draw(st.sampled_from(NAMES)), rule=draw(st.sampled_from(["key", "parent", "value", "none", "all", "bad"])), lr=draw(st.sampled_from([0.5, 0.125])),
                momentum=draw(st.sampled_from([None, 0.5])), frozen=draw(st.booleans()))


def rule(s):
    def fun(path, v):
        hit = dict(key=path[-1] == s["key"], parent=s["key"] in path, value=np.asarray(v).ravel()[0] % 2 == 0, all=True, bad=True).get(s["rule"])
        return "unknown" if s["rule"] == "bad" and path[-1] == s["key"] else "frozen" if hit else "trainable"

    return None if s["rule"] == "none" else fun


@case(freeze_spec(), quick=300, shards=4, cost=4)
def freezing(s, t):
    params = jax.tree_util.tree_map(lambda v: jnp.array([v, v + 1.0]), s["d"])
    if s["frozen"]:
        params = freeze(params)
    L, fun = leaves(s["d"]), rule(s)
    opt = optax.sgd(s["lr"], momentum=s["momentum"])
    t.nontrivial(len({rule(s)(p, at(s["d"], p)) for p in L}) == 2 if fun else False)
    t.label(s["rule"])
    if s["rule"] == "bad" and any(p[-1] == s["key"] for p in L):
        t.raises(ValueError, lambda: get_trainable_paths(params, fun), "unknown label (trainable paths)")
        t.raises(ValueError, lambda: get_frozen_paths(params, fun), "unknown label (frozen paths)")
        t.raises(ValueError, lambda: freeze_optimizer(params, opt, fun), "unknown label (optimiser)")
        return
    lab = {p: "trainable" if fun is None else fun(p, at(s["d"], p)) for p in L}
    for f, l in ((get_trainable_paths, "trainable"), (get_frozen_paths, "frozen")):
        got = f(params, fun)
        t.check(isinstance(got, tuple) and all(isinstance(p, list) for p in got), "paths are not a tuple of lists", got)
        t.check(len(set(map(tuple, got))) == len(got), "a path is repeated", got)
        t.equal(sorted(map(tuple, got)), sorted(p for p in L if lab[p] == l), f"{l} paths")
    if fun is not None:
        which = get_paths_with_label(params, lambda p, v: fun(p, v) == "frozen", True, [True, False])
        t.equal(sorted(map(tuple, which)), sorted(p for p in L if lab[p] == "frozen"), "paths of a label")
    if not s["frozen"]:
        return
    o = freeze_optimizer(params, opt, fun)
    state, cur = o.init(params), params
    grads = jax.tree_util.tree_map(lambda v: v + 1, params)
    m = 0.0
    ref = {p: np.asarray(at(params, p), dtype=np.float64) for p in L}
    acc = {p: 0.0 for p in L}
    for _ in range(2):
        up, state = o.update(grads, state, cur)
        cur = optax.apply_updates(cur, up)
        for p in L:
            if lab[p] == "trainable":
                acc[p] = np.asarray(at(grads, p), dtype=np.float64) + (s["momentum"] or 0) * acc[p]
                ref[p] = ref[p] - s["lr"] * acc[p]
    for p in L:
        if lab[p] == "frozen":
            t.equal(np.asarray(at(cur, p)), np.asarray(at(params, p)), f"frozen entry {p}")
        else:
            t.close(at(cur, p), ref[p], f"trained entry {p}")
