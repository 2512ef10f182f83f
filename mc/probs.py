"""Families of tiny composite problems, enumerated, with certified reference minimisers."""
import itertools
import numpy as np
from mc import ref

QUADS = {
    1: [[[1.0]], [[0.05]], [[40.0]], [[0.0]]],
    2: [[[1.0, 0], [0, 1]], [[6.0, 0], [0, 0.3]], [[1.0, 1], [1, 1]], [[2.0, -1.2], [-1.2, 1.0]], [[0.0, 0], [0, 0.0]]],
    3: [[[1.0, 0, 0], [0, 1, 0], [0, 0, 1]], [[3.0, 0, 0], [0, 1, 0], [0, 0, 0]], [[2.0, 1, 0], [1, 2, -1], [0, -1, 1.5]],
        [[0.05, 0, 0], [0, 0.02, 0], [0, 0, 0.04]]],
    4: [[[2.0, 1, 0, 0], [1, 2, -1, 0], [0, -1, 1.5, 0.3], [0, 0, 0.3, 1]]],
}
MATS = {
    1: [[[2.0]], [[1.0], [-1.0], [0.5]]],
    2: [[[1.0, 0], [0, 1]], [[1.0, 2], [3, -1], [0.5, 0.5]], [[1.0, 1], [2, 2]]],
    3: [[[1.0, 2, 0], [0, 1, -1]], [[1.0, -1, 0.5], [2, 0, 1], [0, 1, 1], [1, 1, 1]]],
    4: [[[1.0, 0, 0, 1], [0, 1, -1, 0], [1, 1, 1, 1], [2, 0, 0, 1], [0, 0.5, 1, 0]]],
}


def quads(n, letters=(-1.5, 0.2, 0.9)):
    for Q in QUADS[n]:
        singular = np.linalg.eigvalsh(np.array(Q))[0] < 1e-9
        for c in itertools.product(letters, repeat=n):
            if n == 3 and (hash(c) and sum(int(10 * v) for v in c) % 3):
                continue
            if n == 4 and sum(int(10 * v) for v in c) % 7:
                continue
            # keep the problem bounded below: c in the range of Q
            if singular:
                c = tuple((np.array(Q) @ np.array(c)).tolist())
            yield ["quad", Q, list(c)]


STIFF = {
    1: [[[1e4]], [[300.0]], [[1e-3]]],
    2: [[[1e4, 0], [0, 3e3]], [[900.0, 0], [0, 1.0]], [[2e-3, 0], [0, 1e-3]]],
    3: [[[2e3, 1e3, 0], [1e3, 2e3, -1e3], [0, -1e3, 1.5e3]]],
}


def stiff(n, letters=(-1.5, 0.9)):
    """Curvatures far from one: steps and their reciprocals must not be confused."""
    for Q in STIFF.get(n, ()):
        m = np.abs(np.array(Q)).max()
        for c in itertools.product(letters, repeat=n):
            for sc in (1.0, m):
                yield ["quad", Q, [sc * v for v in c]]


def fits(n, alphas=(0.0, 0.1), deltas=(0.01, 1.0)):
    for A in MATS[n]:
        m = len(A)
        for al in alphas:
            for b in ((1, 0, 1, 1, 0), (0.25, 1, 0.5, 0, 1)):
                yield ["log", A, list(b[:m]), al]
            for b in ((0.4, 0, -2.0, 1, 3), (1, -1, 0.3, 0.2, 0)):
                yield ["square", A, list(b[:m]), al]
                for d in deltas:
                    yield ["huber", A, list(b[:m]), al, d]


def terms(n, full=True):
    out = [None, ["l1", 0.3], ["box", 0.0, 1e9], ["box", -0.5, 0.25], ["l2b", 0.7], ["l1b", 1.0], ["simplex", 1.0]]
    if full:
        out += [["l1", 0.01], ["l1", 5.0]]
    if n > 1:
        out += [["group", 0.4, [list(range(n))]], ["fused", 0.3]]
    if n > 2:
        out += [["group", 0.2, [[0], [1, 2]]]]
    return out


def starts(n):
    yield [0.0] * n
    yield [1.0, -2.0, 0.5, 3.0][:n]
    yield [30.0, 20.0, -25.0, 10.0][:n]


_memo = {}


def solution(fspec, gspec):
    key = repr((fspec, gspec))
    if key not in _memo:
        f, g = ref.smooth(fspec), ref.term(gspec)
        _memo[key] = ref.solve2(f, g, f.n)
    return _memo[key]


def bounded(fspec, gspec):
    """has a minimiser (logistic fits without regularisation may not)"""
    if fspec[0] == "log" and fspec[3] == 0:
        return gspec is not None and (gspec[0] in ("l1", "l2b", "l1b", "simplex") or gspec == ["box", -0.5, 0.25])
    return True
