"""Shared alphabets and deterministic input families."""
import itertools
import numpy as np


def words(alphabet, n):
    return itertools.product(alphabet, repeat=n)


def chunks(seq, k):
    seq = list(seq)
    return [seq[i:i + k] for i in range(0, len(seq), k)]


def pattern(kind, n):
    """Deterministic vectors of any length: one per qualitative shape."""
    i = np.arange(n, dtype=float)
    if kind == "weyl":  # equidistributed, no ties
        return (i * 0.6180339887498949 + 0.1) % 1.0 * 4 - 2
    if kind == "mod":  # many ties
        return ((i * 7 + 3) % 5) - 2
    if kind == "alt":
        return np.where(i % 2 == 0, 1.0, -1.0) * (1 + i / max(1, n))
    if kind == "inc":
        return i / max(1.0, n - 1) * 3 - 1
    if kind == "dec":
        return 2 - i / max(1.0, n - 1) * 3
    if kind == "const":
        return np.full(n, 0.75)
    if kind == "step":
        return np.where(i < n // 2, -1.0, 1.5)
    if kind == "spike":
        v = np.zeros(n)
        v[n // 3] = 5.0
        v[-1] = -3.0
        return v
    if kind == "zero":
        return np.zeros(n)
    if kind == "big":  # wide dynamic range
        return np.where(i % 3 == 0, 1e3, 1e-3) * np.where(i % 2 == 0, 1, -1) * (1 + (i % 4))
    if kind == "walk":
        return np.cumsum(((i * 13 + 5) % 7) - 3)
    raise ValueError(kind)


PATTERNS = ("weyl", "mod", "alt", "inc", "dec", "const", "step", "spike", "zero", "big", "walk")


def partial_partitions(n):
    """All lists of disjoint, increasing, contiguous groups within range(n)
    (features may be left out): every admissible group structure."""
    # cut each position as: start new group / continue group / unpenalised
    def rec(i, groups, open_):
        if i == n:
            yield [list(g) for g in groups]
            return
        # unpenalised
        yield from rec(i + 1, groups, False)
        # new group
        yield from rec(i + 1, groups + [[i]], True)
        if open_:
            yield from rec(i + 1, groups[:-1] + [groups[-1] + [i]], True)
    yield from rec(0, [], False)
