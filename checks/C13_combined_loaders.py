"""C13: concatenated, device-sharded and Hugging Face loaders and collators."""
import os

os.environ["XLA_FLAGS"] = "--xla_force_host_platform_device_count=4 " + os.environ.get("XLA_FLAGS", "")
from gens import *
from pbt import *

import datasets as hfd
import jax
import jax.numpy as jnp
from fortuna.data.dataset.data_collator import FlaxDataCollatorForLanguageModeling, FlaxDataCollatorForMultipleChoice
from fortuna.data.dataset.huggingface_datasets import (
    HuggingFaceMaskedLMDataset, HuggingFaceMultiChoiceDataset, HuggingFaceSequenceClassificationDataset)
from fortuna.data.loader import ConcatenatedLoader, DataLoader, DeviceDimensionAugmentedLoader, InputsLoader
from fortuna.data.loader.huggingface_loaders import HuggingFaceDataLoader
from fortuna.utils.data import check_data_loader_is_not_random
from tokenizers import Tokenizer, models, pre_tokenizers
from transformers import PreTrainedTokenizerFast

PROPERTY = "C13"
RULE = (
    "1-3 loaders of 1-9 points, batches of 1-8 points on four simulated devices; Hugging Face data sets of 1-12 sentences "
    "of 1-7 words with a word-level tokenizer; non-trivial = several batches, or padding actually needed."
)
ASSUMPTIONS = ["Four devices are simulated on the CPU.", "Masked language modelling draws from NumPy's global generator."]
V = {w: i for i, w in enumerate(["[PAD]", "[MASK]", "[UNK]", "[CLS]"] + [f"w{i}" for i in range(20)])}


def tokenizer():
    tok = Tokenizer(models.WordLevel(V, unk_token="[UNK]"))
    tok.pre_tokenizer = pre_tokenizers.Whitespace()
    return PreTrainedTokenizerFast(tokenizer_object=tok, pad_token="[PAD]", mask_token="[MASK]", unk_token="[UNK]", cls_token="[CLS]", model_max_length=64)


@st.composite
def spec(draw):
    k = draw(st.integers(1, 3))
    return dict(ns=[draw(st.integers(1, 9)) for _ in range(k)], bs=[draw(st.integers(1, 4)) for _ in range(k)],
                dict_=draw(st.booleans()), nb=draw(st.integers(1, 4)), per=draw(st.integers(1, 3)), bad=draw(st.integers(-1, 3)))


@case(spec(), quick=300, shards=2, cost=1)
def combined(s, t):
    xs = [100 * i + np.arange(n, dtype=np.float32)[:, None] for i, n in enumerate(s["ns"])]
    loaders = [DataLoader.from_array_data((x, x[:, 0] + 0.5), batch_size=b) for x, b in zip(xs, s["bs"])]
    want = [x[j : j + b] for x, b in zip(xs, s["bs"]) for j in range(0, len(x), b)]
    cat = ConcatenatedLoader(loaders)
    for p in range(2):
        got = list(cat)
        t.equal(len(got), len(want), f"batches of the concatenation, pass {p}")
        for (gx, gy), w in zip(got, want):
            t.equal(np.asarray(gx), w, "inputs of the concatenation")
            t.equal(np.asarray(gy), w[:, 0] + 0.5, "targets of the concatenation")
    # devices
    D = jax.local_device_count()
    t.equal(D, 4, "simulated devices")
    data = []
    for i in range(s["nb"]):
        x = np.arange(D * s["per"] * 2, dtype=np.float32).reshape(-1, 2) + 1000 * i
        data.append((dict(a=x, b=x[:, 0]) if s["dict_"] else x, x[:, 1]))
    aug = DeviceDimensionAugmentedLoader(DataLoader.from_iterable(data))
    for p in range(2):
        got = list(aug)
        t.equal(len(got), len(data), f"sharded batches, pass {p}")
        for g, w in zip(got, data):
            for a, b in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(w)):
                t.shape(a, (D, s["per"]) + b.shape[1:], "sharded batch")
                t.equal(np.asarray(a).reshape(b.shape), b, "sharded batch put together")
    ins = DeviceDimensionAugmentedLoader(InputsLoader.from_iterable([d[0] for d in data]))
    for g, w in zip(ins, data):
        for a, b in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(w[0])):
            t.equal(np.asarray(a).reshape(b.shape), b, "sharded inputs put together")
    if 0 <= s["bad"] < s["nb"]:
        cut = [(jax.tree_util.tree_map(lambda v: v[:-1], d[0]), d[1][:-1]) if i == s["bad"] else d for i, d in enumerate(data)]
        t.raises(ValueError, lambda: list(DeviceDimensionAugmentedLoader(DataLoader.from_iterable(cut))), "a batch the devices cannot share")
    t.nontrivial(len(want) > 2 and s["nb"] > 1)


@st.composite
def text_spec(draw, lab=3):
    n = draw(st.integers(1, 12))
    return dict(lens=[1 + v for v in draw(ints(n, 7))], words=draw(ints(7 * n, 20)), y=draw(ints(n, lab)), bs=draw(st.integers(1, 3)),
                shuffle=draw(st.booleans()), drop=draw(st.booleans()), pad=draw(st.sampled_from(["max_length", True])), max_=draw(st.sampled_from([4, 8])),
                seed=draw(st.integers(0, 5)), labels=draw(st.booleans()), verbose=draw(st.booleans()))


def sentences(s):
    out = []
    for i, n in enumerate(s["lens"]):
        out.append([4 + w for w in s["words"][7 * i : 7 * i + n]])
    return out


@case(text_spec(), quick=120, shards=8, cost=4)
def sequences(s, t):
    """Every sentence is yielded once, with its tokens, its mask and its label."""
    ids = sentences(s)
    names = {i: w for w, i in V.items()}
    d = {"sentence": [" ".join(names[i] for i in r) for r in ids]}
    if s["labels"]:
        d["label"] = s["y"]
    ds = HuggingFaceSequenceClassificationDataset(tokenizer(), max_length=s["max_"], padding=s["pad"], num_unique_labels=None)
    tok = ds.get_tokenized_datasets(hfd.DatasetDict(train=hfd.Dataset.from_dict(d)))["train"]
    t.equal(len(tok), len(ids), "tokenized sentences")
    loader = ds.get_data_loader(tok, per_device_batch_size=s["bs"], rng=jax.random.PRNGKey(s["seed"]), shuffle=s["shuffle"], drop_last=s["drop"], verbose=s["verbose"])
    B = s["bs"] * 4
    kept = len(ids) // B * B if s["drop"] else len(ids)
    sizes = [B] * (kept // B) + ([kept % B] if kept % B else [])
    first = None
    for p in range(2):
        rows, labels, got_sizes = [], [], []
        for x, y in loader:
            I, M = np.asarray(x["input_ids"]), np.asarray(x["attention_mask"])
            t.equal(I.shape, M.shape, "ids and mask")
            if s["pad"] == "max_length":
                t.equal(I.shape[1], s["max_"], "padded length")
            else:
                t.check(M.all(0).any() or I.shape[1] == M.sum(1).max() or I.shape[1] == s["max_"], "padding of a batch", I)
            for i, m in zip(I, M):
                t.check((i[m == 0] == 0).all() and (np.diff(m) <= 0).all(), "padding tokens", i, m)
                rows.append([int(v) for v in i[m == 1]])
            got_sizes.append(len(I))
            if s["labels"]:
                t.equal(len(y), len(I), "labels of a batch")
                labels += [int(v) for v in y]
            else:
                t.check(y is None, "labels without labels", y)
        t.equal(got_sizes, sizes, "batch sizes")
        want = [r[: s["max_"]] for r in ids]
        pairs = lambda a, b: list(zip(map(tuple, a), b if s["labels"] else [0] * len(a)))
        got, full = pairs(rows, labels), pairs(want, s["y"])
        if s["shuffle"]:
            rest = list(full)
            for g in got:
                t.check(g in rest, "a sentence is repeated, or not of the data", g)
                rest.remove(g)
            t.equal(len(rest), len(full) - kept, "sentences left out")
        else:
            t.equal(got, full[:kept], "sentences and labels")
        t.check(first in (None, got), "another pass gives another order")
        first = got
    t.equal(loader.size, kept, "size of the loader")
    t.equal(len(loader), len(sizes), "batches of the loader")
    if sizes:
        t.equal({k: tuple(v) for k, v in loader.input_shape.items()}, {k: np.asarray(v).shape[1:] for k, v in next(iter(loader))[0].items()}, "input shape")
    if sizes and s["labels"]:
        t.equal([int(v) for v in loader.to_array_targets()], [g[1] for g in first], "array of targets")
        t.equal(loader.num_unique_labels, len({g[1] for g in first}), "number of labels")
        t.equal([int(v) for b in loader.to_targets_loader() for v in b], [g[1] for g in first], "targets loader")
        il = loader.to_inputs_loader()
        t.equal(il.size, kept, "size of the inputs loader")
        check_data_loader_is_not_random(loader)
        for a, (b, _) in zip(il, loader):
            t.equal(np.asarray(a["input_ids"]), np.asarray(b["input_ids"]), "inputs loader")
    t.nontrivial(len(sizes) > 1 or len(set(s["lens"])) > 1)
    t.label(str(s["pad"]), f"drop {s['drop']}", f"shuffle {s['shuffle']}")


@case(text_spec(lab=2), quick=80, shards=4, cost=3)
def choices(s, t):
    """Every (context, choice) pair keeps its place."""
    ids = sentences(s)
    names = {i: w for w, i in V.items()}
    txt = [" ".join(names[i] for i in r) for r in ids]
    n = len(txt)
    two = s["shuffle"]
    d = dict(ctx=txt, head=[txt[(i + 1) % n] for i in range(n)], label=s["y"])
    ends = [[txt[(i + 2) % n] for i in range(n)], [txt[(i + 3) % n] for i in range(n)]]
    if two:
        d.update(e0=ends[0], e1=ends[1])
    else:
        d["e"] = [list(p) for p in zip(*ends)]
    ds = HuggingFaceMultiChoiceDataset(tokenizer(), max_length=64, num_unique_labels=2, pad_to_multiple_of=8)
    tok = ds.get_tokenized_datasets(hfd.DatasetDict(train=hfd.Dataset.from_dict(d)), contexts=["ctx", "head"], choices=["e0", "e1"] if two else ["e"])["train"]
    loader = ds.get_data_loader(tok, per_device_batch_size=s["bs"], rng=jax.random.PRNGKey(0))
    j = 0
    for x, y in loader:
        I, M = np.asarray(x["input_ids"]), np.asarray(x["attention_mask"])
        t.check(I.ndim == 3 and I.shape[1] == 2 and I.shape[2] % 8 == 0, "shape of a batch", I.shape)
        for i, m, l in zip(I, M, np.asarray(y)):
            for c in range(2):
                want = ids[j] + ids[(j + 1) % n] + ids[(j + 2 + c) % n]
                t.equal([int(v) for v in i[c][m[c] == 1]], want, "tokens of a choice")
            t.equal(int(l), s["y"][j], "label")
            j += 1
    t.equal(j, n, "questions")
    t.nontrivial(n > 1)


@st.composite
def mlm_spec(draw):
    n = draw(st.sampled_from([2, 60]))
    return dict(n=n, seed=draw(seeds()), p=draw(st.sampled_from([0.0, 0.15, 0.5, 1.0])), mlm=draw(st.integers(0, 3)) > 0,
                lens=[3 + v for v in draw(ints(n, 30))], max_=draw(st.sampled_from([4, 7, 16])))


@case(mlm_spec(), quick=300, shards=4, cost=3)
def masking(s, t):
    r = np.random.default_rng(s["seed"])
    np.random.seed(s["seed"] % 2**31)
    tok = tokenizer()
    rows = [r.integers(4, 24, k) for k in s["lens"]]
    special = [(r.random(k) < 0.1).astype(int) for k in s["lens"]]
    c = FlaxDataCollatorForLanguageModeling(tok, mlm=s["mlm"], mlm_probability=s["p"])
    ex = [dict(input_ids=list(map(int, a)), special_tokens_mask=list(map(int, m))) for a, m in zip(rows, special)]
    b = c(ex, pad_to_multiple_of=4)
    I, L = np.asarray(b["input_ids"]), np.asarray(b["labels"])
    w = -(-max(s["lens"]) // 4) * 4
    t.equal(I.shape, (s["n"], w), "shape of the batch")
    t.equal(L.shape, I.shape, "shape of the labels")
    orig = np.zeros_like(I)
    free = np.zeros(I.shape, dtype=bool)
    for i, (a, m) in enumerate(zip(rows, special)):
        orig[i, : len(a)] = a
        free[i, : len(a)] = m == 0
    if not s["mlm"]:
        t.equal(I, orig, "tokens without masking")
        t.equal(L, np.where(orig == 0, -100, orig), "labels without masking")
        return
    sel = L != -100
    t.check(not (sel & ~free).any(), "a special or padding token was selected")
    t.equal(L[sel], orig[sel], "labels of selected tokens")
    t.equal(I[~sel], orig[~sel], "tokens not selected")
    N = int(free.sum())
    t.check(abs(sel.sum() - s["p"] * N) <= 6 * (N * s["p"] * (1 - s["p"])) ** 0.5 + 1e-9, "fraction of selected tokens", sel.sum(), N)
    k = int(sel.sum())
    if k:
        mask, kept = (I[sel] == V["[MASK]"]).sum(), (I[sel] == orig[sel]).sum()
        q = 0.8 + 0.1 / 24
        t.check(abs(mask - q * k) <= 6 * (k * q * (1 - q)) ** 0.5 + 1, "fraction of masked tokens", mask, k)
        q = 0.1 + 0.1 / 24
        t.check(abs(kept - q * k) <= 6 * (k * q * (1 - q)) ** 0.5 + 1, "fraction of kept tokens", kept, k)
        t.check((I[sel] >= 0).all() and (I[sel] < len(V)).all(), "tokens outside the vocabulary")
    t.nontrivial(k > 30)


@case(mlm_spec(), quick=16, shards=4, cost=2)
def chunks(s, t):
    """The masked language model data set is the text cut into chunks of the maximum length, the rest dropped."""
    r = np.random.default_rng(s["seed"])
    names = {i: w for w, i in V.items()}
    rows = [r.integers(4, 24, k) for k in s["lens"]]
    if sum(s["lens"]) < s["max_"]:
        return
    ds = HuggingFaceMaskedLMDataset(tokenizer(), max_length=s["max_"], mlm=False, pad_to_multiple_of=1)
    tok = ds.get_tokenized_datasets(hfd.DatasetDict(train=hfd.Dataset.from_dict({"sentence": [" ".join(names[int(i)] for i in a) for a in rows]})))["train"]
    flat = np.concatenate(rows)
    m = s["max_"]
    want = flat[: len(flat) // m * m].reshape(-1, m)
    t.equal(np.array(tok["input_ids"]).reshape(-1, m), want, "chunks")
    if len(want):
        loader = ds.get_data_loader(tok, per_device_batch_size=1, rng=jax.random.PRNGKey(0))
        got = [(np.asarray(x["input_ids"]), np.asarray(y)) for x, y in loader]
        t.equal(np.concatenate([g[0] for g in got]), want, "chunks of the loader")
        t.equal(np.concatenate([g[1] for g in got]), want, "labels of the loader")
    t.nontrivial(len(want) > 4)
