"""Generators shared by several checks (all produce JSON-able values)."""
import math
from itertools import permutations

import numpy as np
from pbt import st


def dyadic_error():
    """Errors/coverages exactly representable in float32, strictly inside (0, 1); the ends come up often."""
    return st.one_of(st.sampled_from([1, 2, 3, 6, 13, 16, 32, 48, 62, 63]), st.integers(1, 63)).map(lambda k: k / 64)


def _distinct_row(b, c):
    """Exactly representable, pairwise distinct, positive probabilities from 2*c bytes."""
    d = np.cumsum(1 + (np.frombuffer(b[: c - 1], dtype=np.uint8).astype(np.int64) % 16))
    rest = int(d.sum())
    total = 2 ** math.ceil(math.log2(rest + int(d[-1]) + 1))
    d = np.append(d, total - rest)
    key = np.frombuffer(b[c : 2 * c], dtype=np.uint8)
    row = d[np.argsort(key, kind="stable")] / total
    return [float(x) for x in row]


def distinct_probs(n, c):
    """n rows of c pairwise distinct dyadic probabilities."""
    return st.binary(min_size=2 * c * n, max_size=2 * c * n).map(
        lambda b: [_distinct_row(b[2 * c * i : 2 * c * (i + 1)], c) for i in range(n)]
    )


def _tied_row(b, c, levels):
    cuts = np.sort(np.frombuffer(b, dtype=np.uint8).astype(np.int64) % (levels + 1))
    d = np.diff(np.concatenate([[0], cuts, [levels]]))
    return [float(x) / levels for x in d]


def tied_probs(n, c, levels=8):
    """n rows of c dyadic probabilities with many ties, zeros and ones."""
    return st.binary(min_size=(c - 1) * n, max_size=(c - 1) * n).map(
        lambda b: [_tied_row(b[(c - 1) * i : (c - 1) * (i + 1)], c, levels) for i in range(n)]
    )


def perm_of(n, key_bytes):
    return list(np.argsort(np.frombuffer(key_bytes, dtype=np.uint8), kind="stable"))


def permutation(n):
    return st.binary(min_size=n, max_size=n).map(lambda b: [int(i) for i in perm_of(n, b)])


__all__ = ["dyadic_error", "distinct_probs", "tied_probs", "permutation", "permutations"]
