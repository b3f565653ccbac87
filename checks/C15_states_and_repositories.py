"""C15: states and state repositories, in memory and on disk, against a model of what was stored."""
import copy
import pathlib
import tempfile

from gens import *
from pbt import *

import jax
import jax.numpy as jnp
import optax
from flax import serialization
from flax.core import FrozenDict
from flax.traverse_util import flatten_dict
from fortuna.calib_model.calib_state_repository import CalibStateRepository
from fortuna.calib_model.state import CalibState
from fortuna.model.model_manager.state import ModelManagerState
from fortuna.output_calib_model.output_calib_state_repository import OutputCalibStateRepository
from fortuna.output_calib_model.state import OutputCalibState
from fortuna.output_calibrator.output_calib_manager.state import OutputCalibManagerState
from fortuna.prob_model.joint.state import JointState
from fortuna.prob_model.posterior.laplace.laplace_state import LaplaceState
from fortuna.prob_model.posterior.map.map_state import MAPState
from fortuna.prob_model.posterior.normalizing_flow.advi.advi_state import ADVIState
from fortuna.prob_model.posterior.posterior_multi_state_repository import PosteriorMultiStateRepository
from fortuna.prob_model.posterior.posterior_state_repository import PosteriorStateRepository
from fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_state import CyclicalSGLDState
from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_state import SGHMCState
from fortuna.prob_model.posterior.sgmcmc.sgmcmc_posterior_state_repository import SGMCMCPosteriorStateRepository
from fortuna.prob_model.posterior.state import PosteriorState
from fortuna.prob_model.posterior.swag.swag_state import SWAGState
from fortuna.utils.strings import (
    convert_string_to_np_array, convert_string_to_tuple, decode_encoded_tuple_of_lists_of_strings_to_array,
    encode_tuple_of_lists_of_strings_to_numpy,
)

PROPERTY = "C15"
RULE = (
    "2-8 operations (put, get, update, extract, pull, with and without an explicit directory, index and optimiser) on "
    "repositories of 1-3 slots, states of ten types with nested parameters, optional mutable and calibration trees, "
    "steps that go up and down, up to 14 encoded key paths; non-trivial = at least two writes and a read in between, or "
    "more than ten key paths."
)
ASSUMPTIONS = [
    "A pull from memory may leave the state in place; a pull from disk removes the latest checkpoint.",
    "The optimiser and its state are compared only when an optimiser is passed to get (then they are freshly initialised).",
]
KINDS = dict(posterior=PosteriorState, map=MAPState, advi=ADVIState, laplace=LaplaceState, swag=SWAGState, sghmc=SGHMCState,
             sgld=CyclicalSGLDState, calib=CalibState, ocalib=OutputCalibState)
POSTERIOR = [k for k in KINDS if "calib" not in k]
NAMES = ["kernel", "bias", "dense1", "a"]


@st.composite
def tree(draw, depth=3):
    keys = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=2, unique=True))
    return {k: draw(tree(depth - 1)) if depth > 1 and draw(st.booleans()) else draw(st.integers(-9, 9)) for k in keys}


@st.composite
def state_spec(draw, kinds=tuple(KINDS)):
    kind = draw(st.sampled_from(kinds))
    return dict(
        kind=kind, params={"model": draw(tree()), "lik_log_var": draw(st.integers(-5, 5))}, step=draw(st.integers(0, 12)),
        mutable=draw(st.none() | tree(2)), calib_params=draw(st.none() | tree(2)), calib_mutable=draw(st.none() | tree(2)),
        n_paths=draw(st.sampled_from([None, 1, 2, 11, 14])), extra=draw(st.integers(0, 5)), half=draw(st.booleans()))


def leaf(v, half=False):
    return jnp.array([v, v + 0.5]) if not half else jnp.full((2, 1), v, dtype=jnp.float16 if v % 2 else jnp.int32)


def to_tree(d, half=False):
    return None if d is None else FrozenDict(jax.tree_util.tree_map(lambda v: leaf(v, half), d))


def fields(s):
    """What the state is asked to hold."""
    f = dict(params=to_tree(s["params"], s["half"]), mutable=to_tree(s["mutable"]), step=s["step"])
    if s["kind"] != "ocalib":
        f.update(calib_params=to_tree(s["calib_params"]), calib_mutable=to_tree(s["calib_mutable"]))
    if s["kind"] in ("advi", "laplace", "swag", "sghmc", "sgld"):
        f["paths"] = None if s["n_paths"] is None else tuple(["model", "params", f"layer{i}"][: 1 + (i + s["extra"]) % 3] + ["k%d" % (99 - i)] for i in range(s["n_paths"]))
    if s["kind"] == "swag":
        f.update(mean=jnp.arange(3.0) + s["extra"], std=jnp.ones(3) * s["extra"], dev=jnp.arange(6.0).reshape(3, 2))
    if s["kind"] == "laplace":
        f["prior_log_var"] = 0.25 * s["extra"]
    return f


def make(s, opt):
    f = fields(s)
    if "paths" in f:
        f["_encoded_which_params"] = encode_tuple_of_lists_of_strings_to_numpy(f.pop("paths"))
    return KINDS[s["kind"]].init(optimizer=opt, **f)


def same_tree(t, got, want, what):
    if want is None:
        t.check(got is None, f"{what} is not None", got)
        return
    t.check(isinstance(got, FrozenDict), f"{what} is not a FrozenDict", type(got))
    g, w = flatten_dict(got.unfreeze()), flatten_dict(want.unfreeze() if hasattr(want, "unfreeze") else want)
    t.equal(sorted(g), sorted(w), f"paths of {what}")
    for p in w:
        t.check(np.asarray(g[p]).dtype == np.asarray(w[p]).dtype, f"{what}: type of {p}")
        t.equal(np.asarray(g[p]), np.asarray(w[p]), f"{what}: {p}")


def same_state(t, got, s, f, what):
    t.check(type(got) is KINDS[s["kind"]], f"{what}: state of type {type(got)}, want {KINDS[s['kind']]}")
    for k, v in f.items():
        if k == "paths":
            p = decode_encoded_tuple_of_lists_of_strings_to_array(got._encoded_which_params)
            t.equal(p, v, f"{what}: decoded paths")
        elif isinstance(v, FrozenDict) or v is None:
            same_tree(t, getattr(got, k), v, f"{what}: {k}")
        else:
            t.equal(np.asarray(getattr(got, k)), np.asarray(v), f"{what}: {k}")


OPS = st.one_of(
    st.tuples(st.just("put"), st.integers(0, 3), st.booleans(), st.integers(1, 3)),
    st.tuples(st.just("get"), st.booleans(), st.booleans()),
    st.tuples(st.just("update"), st.integers(0, 3), st.booleans(), st.sampled_from(["params", "mutable", "calib_params", "step"])),
    st.tuples(st.just("extract"), st.lists(st.sampled_from(["params", "mutable", "step"]), min_size=1, max_size=2, unique=True), st.booleans()),
    st.tuples(st.just("calib"), st.booleans()),
    st.tuples(st.just("pull"), st.booleans()),
)


@st.composite
def single_spec(draw):
    fam = draw(st.sampled_from(["posterior", "posterior", "posterior", "calib", "ocalib"]))
    kinds = POSTERIOR if fam == "posterior" else [fam]
    return dict(fam=fam, states=[draw(state_spec(kinds)) for _ in range(draw(st.integers(1, 4)))], disk=draw(st.booleans()),
                adam=draw(st.booleans()), ops=[["put", 0, False, 1]] * draw(st.integers(0, 1)) + [list(o) for o in draw(st.lists(OPS, min_size=2, max_size=8))],
                prefix=draw(st.sampled_from([None, "other_"])))


class Slot:
    """What a directory (or the memory) holds: states by step, the newest last."""

    def __init__(self, disk):
        self.disk, self.items = disk, []

    def put(self, s, f, keep):
        if self.disk:
            self.items = ([i for i in self.items if i[1]["step"] < f["step"]] + [(s, f)])[-keep:]
        else:
            self.items = [(s, f)]

    def top(self):
        return self.items[-1] if self.items else None


def optimiser(s):
    return optax.adam(0.5) if s["adam"] else optax.sgd(0.25)


@case(single_spec(), quick=1400, shards=6, cost=4)
def single(s, t):
    with tempfile.TemporaryDirectory() as tmp:
        opt = optimiser(s)
        cls = dict(posterior=PosteriorStateRepository, calib=CalibStateRepository, ocalib=OutputCalibStateRepository)[s["fam"]]
        repo = cls(tmp + "/own" if s["disk"] else None)
        slots = {False: Slot(s["disk"]), True: Slot(True)}
        pre = {} if s["prefix"] is None else dict(prefix=s["prefix"])
        writes, read_after, lost = 0, False, False
        for op in s["ops"]:
            name, ex = op[0], {"put": 2, "get": 1, "update": 2, "extract": 2, "calib": 1, "pull": 1}[op[0]]
            slot = slots[op[ex]]
            path = dict(checkpoint_path=tmp + "/explicit") if op[ex] else {}
            top = slot.top()
            what = f"{op} ({'disk' if slot.disk else 'memory'})"
            if name == "put":
                sp = s["states"][op[1] % len(s["states"])]
                f = fields(sp)
                repo.put(make(sp, opt), keep=op[3], **path, **pre)
                slot.put(sp, f, op[3])
                writes += 1
            elif top is None:
                call = dict(get=lambda: repo.get(**path, **pre), update=lambda: repo.update({"step": 1}, **path, **pre),
                            extract=lambda: repo.extract(["params"], **path, **pre), calib=lambda: repo.extract(["step"], **path, **pre),
                            pull=lambda: repo.pull(**path, **pre))[name]
                if not lost or slot.disk:
                    t.raises(ValueError, call, f"{what}: nothing is stored")
            elif name == "get":
                sp, f = top
                o = dict(optimizer=optax.sgd(0.125, momentum=0.5)) if op[2] else {}
                got = repo.get(**path, **pre, **o)
                same_state(t, got, sp, f, what)
                if o:
                    t.check(got.tx == o["optimizer"], f"{what}: optimiser")
                    ref = o["optimizer"].init(f["params"])
                    t.equal(jax.tree_util.tree_structure(got.opt_state), jax.tree_util.tree_structure(ref), f"{what}: optimiser state")
                read_after |= writes >= 2
            elif name == "update":
                sp, f = top
                other = fields(s["states"][op[1] % len(s["states"])])
                k = op[3] if op[3] in other and op[3] in f else "params"
                if slot.disk:
                    slot.items.pop()
                f = dict(f, **{k: other[k]})
                repo.update({k: other[k]}, **path, **pre)
                slot.put(sp, f, 1)
                writes += 1
                same_state(t, repo.get(**path, **pre), sp, f, what)
            elif name == "extract":
                got = repo.extract(op[1], **path, **pre)
                t.equal(sorted(got), sorted(op[1]), f"{what}: extracted keys")
                same_state(t, KINDS[top[0]["kind"]].init(optimizer=opt, **{**top[1], **got}) if "paths" not in top[1] else make_from(top, got, opt), top[0], top[1], what)
                read_after |= writes >= 2
            elif name == "calib":
                if s["fam"] == "posterior":
                    got = repo.extract_calib_keys(**path, **pre)
                    t.equal(sorted(got), ["calib_mutable", "calib_params"], f"{what}: keys")
                    for k in got:
                        same_tree(t, got[k], top[1][k], f"{what}: {k}")
            else:
                same_state(t, repo.pull(**path, **pre), *top, what)
                if slot.disk:
                    slot.items.pop()
                else:
                    slot.items, lost = [], True
        for ex, slot in slots.items():
            if slot.top():
                got = repo.get(**(dict(checkpoint_path=pathlib.Path(tmp) / "explicit") if ex else {}), **pre)
                same_state(t, got, *slot.top(), "in the end")
                again = repo.get(**(dict(checkpoint_path=tmp + "/explicit") if ex else {}), **pre)
                same_state(t, again, *slot.top(), "read twice")
        t.nontrivial(writes >= 2 and (read_after or any(sl.top() for sl in slots.values())))
        t.label("disk" if s["disk"] else "memory", *[sp["kind"] for sp in s["states"][:1]], *[o[0] for o in s["ops"]])


def make_from(top, got, opt):
    f = {k: v for k, v in top[1].items() if k != "paths"}
    return KINDS[top[0]["kind"]].init(optimizer=opt, _encoded_which_params=encode_tuple_of_lists_of_strings_to_numpy(top[1]["paths"]), **{**f, **got})


MOPS = st.one_of(
    st.tuples(st.just("put"), st.integers(0, 3), st.none() | st.integers(0, 2)),
    st.tuples(st.just("put"), st.integers(0, 3), st.integers(0, 2)),
    st.tuples(st.just("get"), st.booleans(), st.none() | st.integers(0, 2)),
    st.tuples(st.just("update"), st.sampled_from(["mutable", "calib_params", "step"]), st.none() | st.integers(0, 2)),
    st.tuples(st.just("extract"), st.lists(st.sampled_from(["params", "mutable", "step"]), min_size=1, max_size=2, unique=True), st.none() | st.integers(0, 2)),
    st.tuples(st.just("calib"), st.just(0), st.just(0)),
    st.tuples(st.just("pull"), st.just(0), st.integers(0, 2)),
)


def leaf_paths(d, pre=()):
    return [q for k, v in d.items() for q in (leaf_paths(v, pre + (k,)) if isinstance(v, dict) else [pre + (k,)])]


@st.composite
def multi_spec(draw):
    params = {"model": draw(tree()), "lik_log_var": draw(st.integers(-5, 5))}
    n = draw(st.integers(1, 3))
    kind = draw(st.sampled_from(["map", "sghmc", "sgld"]))
    states = []
    for _ in range(draw(st.integers(2, 4))):
        sp = draw(state_spec([kind]))
        off = draw(st.integers(0, 50))
        states.append(dict(sp, params=jax.tree_util.tree_map(lambda v: v + off, params), half=False))
    pick = draw(st.none() | st.lists(st.integers(0, 20), min_size=1, max_size=3))
    return dict(size=n, base=params, states=states, pick=pick, disk=draw(st.booleans()), adam=draw(st.booleans()), fill=draw(st.booleans()),
                ops=[list(o) for o in draw(st.lists(MOPS, min_size=2, max_size=8))])


@case(multi_spec(), quick=900, shards=6, cost=4)
def multi(s, t):
    n = s["size"]
    with tempfile.TemporaryDirectory() as tmp:
        opt = optimiser(s)
        dirs = tmp + "/own" if s["disk"] else None
        which, base = None, None
        if s["pick"] is None:
            repo = PosteriorMultiStateRepository(n, dirs)
        else:
            L = leaf_paths(s["base"])
            which = []
            for i in s["pick"]:
                if list(L[i % len(L)]) not in which:
                    which.append(list(L[i % len(L)]))
            base = to_tree(s["base"])
            repo = SGMCMCPosteriorStateRepository(n, dirs, all_params=base, which_params=tuple(which))

        def shown(f):
            """Entries that are not selected come from the common parameters."""
            if which is None:
                return f
            flat = flatten_dict(base.unfreeze())
            new = flatten_dict(f["params"].unfreeze())
            flat.update({tuple(p): new[tuple(p)] for p in which})
            d = {}
            for p, v in flat.items():
                c = d
                for k in p[:-1]:
                    c = c.setdefault(k, {})
                c[p[-1]] = v
            return dict(f, params=FrozenDict(d))

        model = [None] * n
        lost = [False] * n
        writes = 0
        ops = s["ops"]
        if s["fill"]:
            ops = [["put", i, i] for i in range(n)] + ops
        for name, a, i in ops:
            i = None if i is None else i % n
            idx = list(range(n)) if i is None else [i]
            what = f"{[name, a, i]}"
            kw = {} if i is None else dict(i=i)
            if name == "put":
                sp = s["states"][a % len(s["states"])]
                repo.put(make(sp, opt), **kw)
                for j in idx:
                    model[j] = (sp, fields(sp))
                writes += 1
            elif any(model[j] is None for j in idx):
                if not any(lost[j] for j in idx) or s["disk"]:
                    call = dict(get=lambda: repo.get(**kw), update=lambda: repo.update({"step": 1}, **kw), extract=lambda: repo.extract(["step"], **kw),
                                calib=lambda: repo.extract_calib_keys(), pull=lambda: repo.pull(**kw))[name]
                    if name == "update" and i is None:  # may have updated some of the slots
                        continue
                    t.raises(ValueError, call, f"{what}: nothing is stored")
            elif name == "get":
                got = repo.get(**kw, **(dict(optimizer=opt) if a else {}))
                got = got if i is None else [got]
                t.check(isinstance(got, list) and len(got) == len(idx), f"{what}: number of states")
                for j, g in zip(idx, got):
                    same_state(t, g, model[j][0], shown(model[j][1]), f"{what}, slot {j}")
            elif name == "update":
                f = fields(s["states"][0])
                repo.update({a: f[a]}, **kw)
                for j in idx:
                    model[j] = (model[j][0], dict(model[j][1], **{a: f[a]}))
                writes += 1
            elif name == "extract":
                got = repo.extract(a, **kw)
                got = got if i is None else [got]
                t.check(isinstance(got, list) and len(got) == len(idx), f"{what}: number of dictionaries")
                for j, g in zip(idx, got):
                    t.equal(sorted(g), sorted(a), f"{what}: keys")
                    for k, v in g.items():
                        w = shown(model[j][1])[k]
                        same_tree(t, v, w, f"{what}: {k}") if k != "step" else t.equal(int(v), w, f"{what}: step")
            elif name == "calib":
                got = repo.extract_calib_keys()
                for k in ("calib_params", "calib_mutable"):
                    same_tree(t, got[k], model[0][1][k], f"{what}: {k}")
            else:
                g = repo.pull(**kw)
                same_state(t, g, model[i][0], shown(model[i][1]), what)
                model[i], lost[i] = None, True
        for j in range(n):
            if model[j] is not None:
                same_state(t, repo.get(j), model[j][0], shown(model[j][1]), f"in the end, slot {j}")
        t.nontrivial(writes >= 2 and n > 1)
        t.label("disk" if s["disk"] else "memory", "selected" if which else "plain", f"size {n}")


@st.composite
def code_spec(draw):
    word = st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=0x4FF), max_size=6)
    n = draw(st.sampled_from([0, 1, 2, 5, 11, 12, 25]))
    m = draw(st.sampled_from([1, 2, 3, 12]))
    return dict(paths=[[draw(word) for _ in range(draw(st.integers(1, m)))] for _ in range(n)], name=draw(word), none=draw(st.integers(0, 9)) == 0)


@case(code_spec(), quick=400, shards=2)
def encoding(s, t):
    paths = None if s["none"] else tuple(s["paths"])
    enc = encode_tuple_of_lists_of_strings_to_numpy(paths)
    t.equal(decode_encoded_tuple_of_lists_of_strings_to_array(enc), paths, "decoded paths")
    if paths is not None:
        d = serialization.msgpack_restore(serialization.msgpack_serialize(serialization.to_state_dict(enc)))
        if paths:
            t.equal(decode_encoded_tuple_of_lists_of_strings_to_array(d), paths, "paths decoded after serialisation")
        # dictionaries that lost their order
        shuffled = {k: {q: d[k][q] for q in sorted(d[k])} for k in sorted(d)}
        if paths:
            t.equal(decode_encoded_tuple_of_lists_of_strings_to_array(shuffled), paths, "paths decoded from sorted dictionaries")
    for f in (convert_string_to_tuple, convert_string_to_np_array):
        t.equal("".join(chr(int(c)) for c in f(s["name"])), s["name"], "decoded name")
    t.nontrivial(len(s["paths"]) > 10)


@st.composite
def conv_spec(draw):
    return dict(state=draw(state_spec(["map"])), pick=draw(st.none() | st.lists(st.integers(0, 9), min_size=1, max_size=3)), var=draw(st.none() | st.integers(-3, 3)),
                models=draw(st.lists(st.sampled_from(["model", "lik_log_var", "third"]), min_size=1, max_size=3, unique=True)),
                extra=[draw(st.none() | tree(2)) for _ in range(3)], cal=draw(st.lists(st.booleans(), min_size=2, max_size=2)))


@case(conv_spec(), quick=400, shards=2)
def conversions(s, t):
    sp = s["state"]
    f = fields(sp)
    opt = optax.sgd(0.5)
    m = make(sp, opt)
    common = {k: f[k] for k in ("params", "mutable", "calib_params", "calib_mutable")}
    L = [list(p) for p in leaf_paths(sp["params"])]
    which = None
    if s["pick"] is not None:
        which = []
        for i in s["pick"]:
            if L[i % len(L)] not in which:
                which.append(L[i % len(L)])
        which = tuple(which)
    same_state(t, SWAGState.convert_from_map_state(m, opt), dict(kind="swag"), common, "converted to SWAG")
    for kind, c in (("sghmc", SGHMCState), ("sgld", CyclicalSGLDState)):
        same_state(t, c.convert_from_map_state(m, opt, which), dict(kind=kind), dict(common, paths=which), f"converted to {kind}")
    if which is not None:
        hess = tuple(leaf(100 + i) for i in range(len(which)))
        la = LaplaceState.convert_from_map_state(m, hess, s["var"], which)
        t.equal(float(la.prior_log_var), float(s["var"] or 0), "prior log-variance")
        flat = flatten_dict(f["params"].unfreeze())
        want = {}
        for p, v in flat.items():
            if list(p) in which:
                want[p + ("mean",)], want[p + ("hess_lik_diag",)] = v, hess[which.index(list(p))]
            else:
                want[p] = v
        got = flatten_dict(la.params.unfreeze())
        t.equal(sorted(got), sorted(want), "entries of the Laplace state")
        for p in want:
            t.equal(np.asarray(got[p]), np.asarray(want[p]), f"entry {p} of the Laplace state")
        same_state(t, la, dict(kind="laplace"), dict(mutable=f["mutable"], calib_params=f["calib_params"], paths=which, step=f["step"]), "converted to Laplace")
    # states of the managers
    d = {}
    for k, e in zip(s["models"], s["extra"]):
        d[k] = FrozenDict({"params": {"w": leaf(len(d))}, **({"batch_stats": to_tree(e)} if e is not None else {})})
    mm = ModelManagerState.init_from_dict(FrozenDict(d))
    for k in d:
        same_tree(t, FrozenDict(mm.params[k]), FrozenDict({"params": d[k]["params"]}), "model manager parameters")
    has = [k for k, e in zip(s["models"], s["extra"]) if e is not None]
    if not has:
        t.check(mm.mutable is None, "mutable of models that have none")
    for k, e in zip(s["models"], s["extra"]):
        if e is not None:
            same_tree(t, FrozenDict(mm.mutable[k]), FrozenDict({"batch_stats": to_tree(e)}), "model manager mutable")
        elif mm.mutable is not None:
            t.equal(len(mm.mutable.get(k, {}) or {}), 0, "mutable of a model that has none")
    o = {"output_calibrator": {"params": {"t": leaf(3)}, **({"stats": {"n": leaf(1)}} if s["cal"][1] else {})} if s["cal"][0] else None}
    oc = OutputCalibManagerState.init_from_dict(FrozenDict(o))
    if s["cal"][0]:
        same_tree(t, FrozenDict(oc.params["output_calibrator"]), FrozenDict({"params": {"t": leaf(3)}}), "calibration parameters")
        mu = oc.mutable["output_calibrator"]
        if s["cal"][1]:
            same_tree(t, FrozenDict(mu), FrozenDict({"stats": {"n": leaf(1)}}), "calibration mutable")
        else:
            t.check(not mu, "mutable of a calibrator that has none")
    else:
        t.check(oc.params["output_calibrator"]["params"] is None, "parameters without a calibrator")
    j = JointState.init_from_states(mm, oc)
    t.check(j.params is mm.params and j.mutable is mm.mutable and j.calib_params is oc.params and j.calib_mutable is oc.mutable, "joint state")
    j = JointState.init_from_states(mm, None)
    t.check(j.calib_params is None and j.calib_mutable is None and j.params is mm.params, "joint state without calibration")
    t.nontrivial(bool(which) and len(which) < len(L))
