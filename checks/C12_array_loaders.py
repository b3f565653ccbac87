"""C12: array data, inputs and targets loaders, against lists of batches."""
from gens import *
from pbt import *

import torch
from fortuna.data.loader import BaseInputsLoader, BaseTargetsLoader, DataLoader, InputsLoader, TargetsLoader
from fortuna.utils.data import check_data_loader_is_not_random

PROPERTY = "C12"
RULE = (
    "0-23 points with distinct inputs, batch sizes 1-8 (or none, or larger than the data), every way of building a loader, "
    "0-3 chained operations (chop, split, sample, transform, from inputs loaders); non-trivial = at least two batches and "
    "two operations, or a boundary inside a batch."
)
ASSUMPTIONS = [
    "A shuffled loader shows the same permutation at every pass (derived inputs and targets loaders stay aligned).",
    "Loaders of array data are checked with at least one point; empty results of operations are lists without batches.",
]
KINDS = ["array", "array", "array", "shuffled", "prefetched", "iterable", "callable", "torch", "tf"]


@st.composite
def spec(draw, n_ops=(0, 3)):
    n = draw(st.integers(1, 23))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("chop"), st.integers(1, 6)),
        st.tuples(st.just("split"), st.integers(0, 25), st.integers(0, 1)),
        st.tuples(st.just("sample"), st.integers(0, 5), st.integers(0, 12)),
        st.tuples(st.just("transform"), st.integers(0, 4)),
    ), min_size=n_ops[0], max_size=n_ops[1]))
    return dict(n=n, bs=draw(st.sampled_from([None, 1, 2, 3, 4, 8, 30])), kind=draw(st.sampled_from(KINDS)), ops=[list(o) for o in ops],
                dim=draw(st.sampled_from([0, 1, 2])), y=draw(ints(n, 4)), passes=draw(st.integers(1, 3)))


class FakeTensor:
    def __init__(self, a):
        self.a = a

    def numpy(self):
        return self.a


def arrays(s):
    n = s["n"]
    x = np.arange(n, dtype=np.float32)
    x = x if s["dim"] == 0 else np.stack([x + 100 * i for i in range(s["dim"])], 1)
    return x, np.array(s["y"])


def batches(x, y, bs):
    bs = bs or len(x)
    return [(x[i : i + bs], y[i : i + bs]) for i in range(0, len(x), bs)]


def build(s, t, part=None):
    """The loader, and the list of its batches."""
    x, y = arrays(s)
    k, bs = s["kind"], s["bs"]
    want = batches(x, y, bs)
    pick = {None: lambda b: b, "x": lambda b: b[0], "y": lambda b: b[1]}[part]
    cls = {None: DataLoader, "x": InputsLoader, "y": TargetsLoader}[part]
    if k in ("iterable", "callable") or (k in ("torch", "tf") and part):
        data = [pick(b) for b in want]
        if k == "callable":
            return cls.from_callable_iterable(lambda: iter(data)), want
        return cls.from_iterable(data), want
    if k == "torch":
        ds = torch.utils.data.TensorDataset(torch.from_numpy(x), torch.from_numpy(y))
        return DataLoader.from_torch_data_loader(torch.utils.data.DataLoader(ds, batch_size=bs or s["n"])), want
    if k == "tf":
        return DataLoader.from_tensorflow_data_loader([(FakeTensor(a), FakeTensor(b)) for a, b in want]), want
    kw = dict(batch_size=bs, shuffle=k == "shuffled", prefetch=k == "prefetched")
    if part is None:
        loader = DataLoader.from_array_data((x, y), **kw)
    else:
        loader = InputsLoader.from_array_inputs(x, **kw) if part == "x" else TargetsLoader.from_array_targets(y, **kw)
    if k == "shuffled":  # the order is read off; everything else is fixed
        got = [b for b in loader]
        if part is None:
            order = np.concatenate([b[0] if s["dim"] == 0 else b[0][:, 0] for b in got]).astype(int)
        elif part == "x":
            order = np.concatenate([b if s["dim"] == 0 else b[:, 0] for b in got]).astype(int)
        else:
            ref = DataLoader.from_array_data((x, y), **kw)
            order = np.concatenate([b[0] if s["dim"] == 0 else b[0][:, 0] for b in ref]).astype(int)
        t.equal(np.sort(order), np.arange(s["n"]), "indices of the shuffled data")
        if s["n"] >= 12:
            t.check(not np.array_equal(order, np.arange(s["n"])), "shuffling left the data in order")
        want = batches(x[order], y[order], bs)
    return loader, want


def same(t, got, want, what):
    got = list(got)
    t.check(len(got) == len(want), f"{what}: {len(got)} batches, want {len(want)}", got)
    for i, (g, w) in enumerate(zip(got, want)):
        if isinstance(w, tuple):
            t.check(isinstance(g, (tuple, list)) and len(g) == 2, f"{what}: batch {i} is not a pair", g)
            t.equal(np.asarray(g[0]), w[0], f"{what}: inputs of batch {i}")
            t.equal(np.asarray(g[1]), w[1], f"{what}: targets of batch {i}")
        else:
            t.equal(np.asarray(g), w, f"{what}: batch {i}")


def totals(t, loader, want, what):
    n = sum(len(w[0]) for w in want)
    t.equal(loader.size, n, f"{what}: size")
    t.equal(len(loader), len(want), f"{what}: number of batches")


def transform_fn(mode):
    """Changes both parts, and counts its calls in the status (modes 3 and 4 update the status in place)."""

    def fn(inputs, targets, status):
        status = dict(status or {}) if mode < 3 else status
        status["calls"] = c = status.get("calls", 0) + 1
        if mode == 1 and c % 2 == 0:
            return None, None, status
        if mode == 2:
            keep = inputs.reshape(len(inputs), -1)[:, 0] % 2 == 0
            return inputs[keep], targets[keep] + 10 * c, status
        return inputs * 2 + 1, targets + 10 * c, status

    return fn


def ref_transform(want, mode, start=0):
    fn, status, out = transform_fn(mode), {"calls": start}, []
    for x, y in want:
        x, y, status = fn(x, y, status)
        if x is not None and len(x):
            out.append((x, y))
    return out


def ref_chop(want, d):
    return [(x[: len(x) // d * d], y[: len(x) // d * d]) for x, y in want if len(x) >= d]


def ref_split(want, k, part):
    out, c = [], 0
    for x, y in want:
        a = min(max(k - c, 0), len(x))
        piece = (x[:a], y[:a]) if part == 0 else (x[a:], y[a:])
        if len(piece[0]):
            out.append(piece)
        c += len(x)
    return out


@case(spec(), quick=3000, shards=4, cost=3)
def chains(s, t):
    loader, want = build(s, t)
    x0, y0 = arrays(s)
    inner = False
    for op in s["ops"]:
        sizes = [len(b[0]) for b in want]
        if op[0] == "chop":
            inner |= any(k % op[1] for k in sizes)
            loader, want = loader.chop(op[1]), ref_chop(want, op[1])
        elif op[0] == "split":
            inner |= op[1] not in np.cumsum([0] + sizes) and op[1] < sum(sizes)
            parts = loader.split(op[1])
            t.check(len(parts) == 2, "split does not give two loaders")
            same(t, parts[1 - op[2]], ref_split(want, op[1], 1 - op[2]), f"the other part of {op}")
            loader, want = parts[op[2]], ref_split(want, op[1], op[2])
        elif op[0] == "transform":
            loader = loader.to_transformed_data_loader(transform_fn(op[1]), status={"calls": 5})
            want = ref_transform(want, op[1], 5)
        elif sizes:
            new = loader.sample(op[1], op[2])
            pool = {(tuple(np.ravel(a)), int(b)) for x, y in want for a, b in zip(x, y)}
            got = list(new)
            flat = [(tuple(np.ravel(a)), int(b)) for x, y in got for a, b in zip(x, y)]
            t.equal(len(flat), op[2], "number of samples")
            t.check(set(flat) <= pool, "a sample is not a pair of the data", flat)
            for k, sub in ((0, loader.to_inputs_loader()), (1, loader.to_targets_loader())):
                same(t, sub.sample(op[1], op[2]), [b[k] for b in got], "samples of the inputs / targets alone")
            loader, want = new, got
        same(t, loader, want, f"after {op}")
    for k in range(s["passes"]):
        same(t, loader, want, f"pass {k + 1}")
    totals(t, loader, want, "data loader")
    il, tl = loader.to_inputs_loader(), loader.to_targets_loader()
    t.check(isinstance(il, BaseInputsLoader) and isinstance(tl, BaseTargetsLoader), "types of derived loaders")
    for l, i in ((il, 0), (tl, 1), (InputsLoader.from_data_loader(loader), 0), (TargetsLoader.from_data_loader(loader), 1)):
        same(t, l, [b[i] for b in want], "derived loader")
        same(t, l, [b[i] for b in want], "derived loader, second pass")
        totals(t, l, want, "derived loader")
    if want:
        X, Y = (np.concatenate([b[i] for b in want]) for i in (0, 1))
        gx, gy = loader.to_array_data()
        t.equal(gx, X, "array inputs")
        t.equal(gy, Y, "array targets")
        t.equal(loader.to_array_inputs(), X, "to_array_inputs")
        t.equal(loader.to_array_targets(), Y, "to_array_targets")
        t.equal(il.to_array_inputs(), X, "inputs loader to array")
        t.equal(tl.to_array_targets(), Y, "targets loader to array")
        t.equal(tuple(loader.input_shape), X.shape[1:], "input shape")
        t.equal(tuple(il.input_shape), X.shape[1:], "input shape of the inputs loader")
        t.equal(loader.num_unique_labels, len(np.unique(Y)), "number of labels")
        check_data_loader_is_not_random(loader)
    x1, y1 = arrays(s)
    t.equal(x1, x0, "data")
    t.label(s["kind"], *[o[0] for o in s["ops"]])
    t.nontrivial((len(s["ops"]) >= 2 and len(want) >= 2) or inner)


@case(spec(), quick=1500, shards=4, cost=2)
def one_sided(s, t):
    """Inputs and targets loaders have the same operations on their own."""
    inner = False
    for part in "xy":
        i = "xy".index(part)
        loader, want = build(s, t, part)
        for op in s["ops"]:
            if op[0] == "chop":
                loader, want = loader.chop(op[1]), ref_chop(want, op[1])
            elif op[0] == "split":
                inner = True
                parts = loader.split(op[1])
                same(t, parts[1 - op[2]], [b[i] for b in ref_split(want, op[1], 1 - op[2])], f"the other part of {op}")
                loader, want = parts[op[2]], ref_split(want, op[1], op[2])
            elif op[0] == "transform":
                def fn(a, status, m=op[1]):
                    c = status["c"] + 1
                    if m >= 3:  # a running status, kept in place
                        status["seen"].append(c)
                        status["c"], c = c, c + len(status["seen"])
                        return a + 10 * c, status
                    return (None if m == 1 and c % 2 else a[: len(a) // 2] if m == 2 else a + 10 * c), {"c": c}

                f = loader.to_transformed_inputs_loader if part == "x" else loader.to_transformed_targets_loader
                loader = f(fn, status={"c": 3, "seen": []})
                new, stt = [], {"c": 3, "seen": []}
                for b in want:
                    v, stt = fn(b[i], stt)
                    if v is not None and len(v):
                        new.append((v, v))
                want = new
            elif want:
                new = loader.sample(op[1], op[2])
                got = list(new)
                t.equal(sum(len(g) for g in got), op[2], "number of samples")
                pool = {tuple(np.ravel(a)) for b in want for a in b[i]}
                t.check({tuple(np.ravel(a)) for b in got for a in b} <= pool, "a sample is not in the data")
                loader, want = new, [(b, b) for b in got]
            for k in range(s["passes"]):
                same(t, loader, [b[i] for b in want], f"after {op}, pass {k + 1}")
        same(t, loader, [b[i] for b in want], "loader")
        totals(t, loader, want, "loader")
    t.nontrivial(inner or len(want) >= 2)
    t.label(s["kind"], *[o[0] for o in s["ops"]])


@st.composite
def merge_spec(draw):
    k = draw(st.integers(1, 3))
    return dict(ns=[draw(st.integers(1, 9)) for _ in range(k)], bs=[draw(st.sampled_from([1, 2, 4])) for _ in range(k)],
                targets=[draw(st.integers(0, 5)) for _ in range(k)], how=draw(st.sampled_from(["interpose", "concatenate"])))


@case(merge_spec(), quick=400, shards=2)
def from_inputs_loaders(s, t):
    xs = [100 * i + np.arange(n, dtype=np.float32)[:, None] for i, n in enumerate(s["ns"])]
    parts = [[x[j : j + b] for j in range(0, len(x), b)] for x, b in zip(xs, s["bs"])]
    loader = DataLoader.from_inputs_loaders(
        [InputsLoader.from_array_inputs(x, batch_size=b) for x, b in zip(xs, s["bs"])], s["targets"], how=s["how"])
    if s["how"] == "concatenate":
        want = [(b, np.full(len(b), y)) for p, y in zip(parts, s["targets"]) for b in p]
    else:
        want = []
        for j in range(max(map(len, parts))):
            have = [(p[j], np.full(len(p[j]), y)) for p, y in zip(parts, s["targets"]) if j < len(p)]
            want.append((np.concatenate([h[0] for h in have]), np.concatenate([h[1] for h in have])))
    for _ in range(2):
        same(t, loader, want, s["how"])
    totals(t, loader, want, "merged loader")
    t.nontrivial(len(set(map(len, parts))) > 1 and len(set(s["targets"])) > 1)
    t.raises(ValueError, lambda: list(DataLoader.from_inputs_loaders([], [], how="other")), "unknown way of merging")
