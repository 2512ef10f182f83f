"""C20: sparse kernels, extended supports and batch draws are exact in any order."""
import contextlib
import itertools
import sys
import numpy as np
from scipy import sparse
from mc.core import import_copt, explore
from mc.draws import Draws, answering
from mc.vr import partitions
from mc.races import watched
from mc.world import OPS, Heap, values

cp = import_copt()
PROPERTY = "C20"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state enumeration: every sparsity pattern of small matrices x every row sequence against the dense product, every "
             "outcome of every draw of the batch sampler under every execution order of its parallel loop, every operation under permuted parallel loops, and the independence of the iterations of every parallel loop (no element written by one is touched by another)")
BOUNDS = {"quick": "all patterns of 3x3, 2x4, 4x2 and 1x4 matrices (canonical, unsorted, with duplicates, with stored zeros) x all row sequences of length <= 3; "
                   "supports of all patterns of 3x4 matrices with few entries x all 8 partitions; batch sampler for n <= 5, size <= 3, <= 3 batches, every outcome, every order; "
                   "121 operations x 3 orders of every parallel loop; all reads and writes of the iterations of every parallel loop of these operations and of the kernels; supports of matrices of up to dozens of columns; row sequences of up to several hundred, five number types, batches of hundreds",
          "thorough": "row sequences of length <= 4, supports of all 4096 patterns of 3x4 matrices, batch sampler up to 4 batches / n <= 6"}
ASSUMPTIONS = ["parallel loops are executed with their iterations one at a time; that a real parallel run cannot differ is checked by the absence of conflicts between their iterations"]


def cases(tier, seed):
    for shape in ((3, 3), (2, 4), (4, 2), (1, 4)):
        for k in range(8):
            yield ["kernels", shape[0], shape[1], k]
    for k in range(16):
        yield ["support", k]
    for n in range(1, 7 if tier == "thorough" else 6):
        for size in range(1, min(n, 3) + 1):
            for nb in range(0, 5 if tier == "thorough" else 4):
                if outcomes(n, size) ** nb * np.prod(range(1, nb + 1)) <= (400000 if tier == "thorough" else 60000):
                    yield ["batches", n, size, nb]
    for k in range(5):
        yield ["large", k]
    yield ["parallel-deriv"]
    for n in OPS:
        yield ["order", n]
        yield ["races", n]
    yield ["races", "kernels"]
    for k in range(6):
        yield ["wide", k]
    yield ["add"]


def outcomes(n, k):
    return int(np.prod(range(n - k + 1, n + 1)))


# ------------------------------------------------------------ parallel loops in a chosen order
class Order:
    current = None
    used = 0


@contextlib.contextmanager
def parallel(order):
    """every `prange` runs its iterations in the order given by order(n) -> permutation"""
    Order.used = 0

    def loop(*a):
        its = list(range(*a))
        Order.used += 1
        for i in order(len(its)):
            Order.current = its[i]
            yield its[i]
        Order.current = None

    saved = []
    for name, m in list(sys.modules.items()):
        if (name == "copt" or name.startswith("copt.")) and hasattr(m, "prange"):
            saved.append((m, m.prange))
            m.prange = loop
    try:
        yield
    finally:
        for m, v in saved:
            m.prange = v
        Order.current = None


def run(case, ctx):
    globals()["run_" + case[0].replace("-", "_")](ctx, *case[1:])


# ------------------------------------------------------------ kernels
def structures(M, kind):
    """(data, indices, indptr) of the dense matrix M"""
    S = sparse.csr_matrix(M)
    data, ind, ptr = S.data, S.indices, S.indptr
    if kind == "canonical":
        return data, ind, ptr
    out_d, out_i, out_p = [], [], [0]
    for r in range(M.shape[0]):
        cols = list(range(ptr[r], ptr[r + 1]))
        if kind == "unsorted":
            for j in cols[::-1]:
                out_d.append(data[j]); out_i.append(ind[j])
        elif kind == "duplicates":
            for j in cols:
                out_d.append(data[j] - 0.5); out_i.append(ind[j])
            for j in cols:
                out_d.append(0.5); out_i.append(ind[j])
        else:
            out_d += list(M[r]); out_i += list(range(M.shape[1]))
        out_p.append(len(out_d))
    return np.array(out_d, dtype=float), np.array(out_i, dtype=np.int32), np.array(out_p, dtype=np.int32)


VAL = np.array([[1.5, -2.0, 0.25, 3.0], [-0.75, 1.0, 4.0, -1.25], [2.0, 0.5, -3.0, 0.125], [1.0, -1.0, 0.75, 2.5]])


def run_kernels(ctx, n, p, shard):
    mv, vm = cp.utils.fast_csr_mv, cp.utils.fast_csr_vm
    x = np.array([1.0, -0.5, 2.0, 0.25])[:p]
    w = np.array([0.5, -1.0, 3.0, 0.75])
    seqs = [s for k in range(0, (5 if ctx.thorough else 4)) for s in itertools.product(range(n), repeat=k)]
    for bits in range(shard, 1 << (n * p), 8):
        mask = np.array([(bits >> i) & 1 for i in range(n * p)]).reshape(n, p)
        M = VAL[:n, :p] * mask
        for kind in ("canonical", "unsorted", "duplicates", "zeros"):
            data, ind, ptr = structures(M, kind)
            use = seqs if kind == "canonical" or bits % 5 == 0 or ctx.thorough else seqs[:: 7]
            for s in use:
                idx = np.array(s, dtype=np.int64 if len(s) % 2 else np.int32)
                got = mv(data, ptr, ind, x, idx)
                want = M[list(s)] @ x if s else np.zeros(0)
                ctx.close(got, want, 1e-12, lambda: "M[idx] x for %s (%s), idx %s" % (M.tolist(), kind, s))
                got = vm(w[:len(s)], data, ptr, ind, p, idx)
                want = w[:len(s)] @ M[list(s)] if s else np.zeros(p)
                ctx.close(got, want, 1e-12, lambda: "x M[idx] for %s (%s), idx %s" % (M.tolist(), kind, s))
                ctx.step(2)
                ctx.state(n, p, bits, kind, s)
        ctx.trace()
    # order of a parallel loop, if any
    with parallel(lambda k: range(k - 1, -1, -1)):
        data, ind, ptr = structures(VAL[:n, :p], "canonical")
        for s in seqs:
            idx = np.array(s, dtype=np.int64)
            ctx.close(mv(data, ptr, ind, x, idx), VAL[:n, :p][list(s)] @ x if s else np.zeros(0), 1e-12, lambda: "M[idx] x in reversed order, idx %s" % (s,))
            ctx.close(vm(w[:len(s)], data, ptr, ind, p, idx), w[:len(s)] @ VAL[:n, :p][list(s)] if s else np.zeros(p), 1e-12, lambda: "x M[idx] in reversed order, idx %s" % (s,))


def run_large(ctx, k):
    """larger matrices, longer row sequences, other number types, larger batches"""
    mv, vm = cp.utils.fast_csr_mv, cp.utils.fast_csr_vm
    n, p = ((7, 3), (40, 30), (130, 5), (3, 200), (300, 70))[k]
    v = (np.arange(n * p) * 0.6180339887 + 0.2) % 1.0
    M = np.where(v < 0.4, np.floor(40 * v) - 7, 0.0).reshape(n, p)
    M[0] = 0
    x = 3 * np.cos(np.arange(p))
    seqs = [np.arange(n), np.arange(n)[::-1], np.arange(0, n, 2), (np.arange(3 * n) * 7 + 1) % n] + [(np.arange(m) * 5) % n for m in (1, 31, 63, 64, 65, 127, 129, 255, 257, 1025)]
    for dt in (np.float64, np.float32, np.int64, np.int32, np.int8):
        for kind in ("canonical", "unsorted", "duplicates") if dt == np.float64 else ("canonical",):
            data, ind, ptr = structures(M, kind)
            data = data.astype(dt)
            for idx in seqs:
                w = np.sin(np.arange(idx.size))
                for xx, ww in ((x, w), (np.rint(x).astype(int), np.rint(5 * w).astype(int)), (x.astype(np.float32), w.astype(np.float32))):
                    what = lambda: "%dx%d matrix of %s (%s), %d rows, %s vector" % (n, p, np.dtype(dt), kind, idx.size, xx.dtype)
                    ctx.close(mv(data, ptr, ind, xx, idx), M[idx] @ xx.astype(float), 1e-4 if np.float32 in (dt, xx.dtype) else 1e-11, lambda: "M[idx] x, " + what())
                    ctx.close(vm(ww, data, ptr, ind, p, idx), ww.astype(float) @ M[idx], 1e-3 if np.float32 in (dt, ww.dtype) else 1e-10, lambda: "x M[idx], " + what())
                    ctx.step(2)
        ctx.trace()
    # batches: draws answered by rotations of the range
    for size in sorted({1, 2, n // 2, n - 1, n}):
        for nb in (1, 2, 5, 17):
            for order in (list(range(nb)), list(range(nb))[::-1]):
                for rot in (0, 1, n // 2):
                    with parallel(lambda m: order if m == nb else range(m)), answering(Draws(order=lambda m: [(i + rot) % m for i in range(m)], batch=lambda m, s: [(i + rot) % m for i in range(s)], index=lambda m, s: [rot % m] * s)):
                        got = np.asarray(cp.utils.sample_batches(n, nb, size))
                    ok = got.shape == (nb * size,) and all(len(set(got[i * size:(i + 1) * size].tolist())) == size for i in range(nb)) and got.min() >= 0 and got.max() < n
                    ctx.require(ok, lambda: "sample_batches(%d, %d, %d), draws rotated by %d: %s" % (n, nb, size, rot, got.tolist()))
                    ctx.step()
    ctx.state("large", k)
    ctx.trace()


# ------------------------------------------------------------ extended supports, seen through the block-wise operator
def support(ctx, A, mask, blocks, case):
    n, p = mask.shape
    seen = {}

    def prox(x, i, indices, indptr, d, step_size):
        seen["v"] = (np.array(indices), np.array(indptr), np.array(d, dtype=float))

    deriv = lambda pr, y: pr - y
    B = sparse.csr_matrix((np.ones(p), np.arange(p), np.cumsum([0] + [len(b) for b in blocks])), shape=(len(blocks), p))
    want = [sorted({h for h, b in enumerate(blocks) for j in b if mask[i][j]}) for i in range(n)]
    counts = np.array([sum(h in w for w in want) for h in range(len(blocks))], dtype=float)
    for name, call in (
        ("saga", lambda: cp.minimize_saga(deriv, A, np.zeros(n), np.zeros(p), 0.1, prox=(prox, B), max_iter=1)),
        ("svrg", lambda: cp.minimize_svrg(deriv, A, np.zeros(n), np.zeros(p), 0.1, prox=(prox, B), max_iter=1)),
        ("vrtos", lambda: cp.minimize_vrtos(deriv, A, np.zeros(n), np.zeros(p), 0.1, prox_1=(prox, B), max_iter=1)),
        ("vrtos-2", lambda: cp.minimize_vrtos(deriv, A, np.zeros(n), np.zeros(p), 0.1, prox_2=(prox, B), max_iter=1)),
    ):
        seen.clear()
        with answering(Draws(order=lambda k: range(k))):
            call()
        if "v" not in seen:
            ctx.fail("%s: block-wise operator not called for %s" % (name, case))
        indices, indptr, d = seen["v"]
        got = [sorted(indices[indptr[i]:indptr[i + 1]].tolist()) for i in range(n)]
        what = lambda: "%s: %s" % (name, case)
        ctx.require(got == want, lambda: "%s: supports %s instead of %s" % (what(), got, want))
        ok = counts > 0
        ctx.require(len(d) == len(blocks), lambda: "%s: %d weights" % (what(), len(d)))
        ctx.close(d[ok], n / counts[ok], 1e-12, lambda: "%s: block weights" % what())
        ctx.step()


def run_support(ctx, shard):
    n, p = 3, 4
    pats = [b for b in range(1 << (n * p)) if ctx.thorough or bin(b).count("1") <= 3 or b % 37 == 0]
    for bits in pats[shard::16]:
        mask = np.array([(bits >> i) & 1 for i in range(n * p)]).reshape(n, p)
        M = VAL[:n, :p] * mask
        for kind in ("canonical", "duplicates") if bits % 3 == 0 else ("canonical",):
            data, ind, ptr = structures(M, kind)
            A = sparse.csr_matrix((data, ind, ptr), shape=(n, p))
            for blocks in partitions(p):
                support(ctx, A, mask != 0, blocks, "%s (%s), blocks %s" % (M.tolist(), kind, [list(b) for b in blocks]))
                ctx.state(bits, kind, blocks)
        ctx.trace()


# ------------------------------------------------------------ batches
def run_batches(ctx, n, size, nb):
    """every outcome of every draw (keyed to the loop iteration it belongs to) in every order of the iterations"""
    perms = list(itertools.permutations(range(n)))
    subsets = list(itertools.permutations(range(n), size))
    repeats = list(itertools.product(range(n), repeat=size))
    for outcome in itertools.product(range(len(subsets)), repeat=nb):
        ref = None
        for order in itertools.permutations(range(nb)):
            serial = [0]

            def it():
                # the iteration the draw belongs to: the running one of a parallel loop, or the number of the draw
                k = Order.current if Order.current is not None else serial[0]
                serial[0] += 1
                return k % max(nb, 1)

            def batch(m, k):
                o = outcome[it()]
                return (subsets if k == size else perms)[o % (len(subsets) if k == size else len(perms))][:k]

            def index(m, k):
                # with replacement: also outcomes with repetitions
                o = outcome[it()]
                return (repeats[(o * 7 + 3) % len(repeats)] * k)[:k]

            def perm(m):
                o = outcome[it()]
                return perms[(o * max(1, len(perms) // len(subsets))) % len(perms)] if m == n else range(m)

            with parallel(lambda k: order if k == nb else range(k)), answering(Draws(order=perm, batch=batch, index=index)):
                got = np.asarray(cp.utils.sample_batches(n, nb, size))
            what = lambda: "sample_batches(%d, %d, %d), draws %s, order %s: %s" % (n, nb, size, [subsets[o] for o in outcome], order, got.tolist())
            ctx.require(got.shape == (nb * size,), what)
            for k in range(nb):
                part = got[k * size:(k + 1) * size].tolist()
                ctx.require(len(set(part)) == size and all(0 <= v < n for v in part), what)
            if ref is None:
                ref = got
            else:
                ctx.require(np.array_equal(ref, got), lambda: "%s, another order gives %s" % (what(), ref.tolist()))
            ctx.step()
        ctx.state(n, size, nb, outcome)
        ctx.trace()
    # every outcome does occur: the map from draws to batches is onto
    if nb == 1:
        hit = set()
        for o in range(len(subsets)):
            with answering(Draws(order=lambda m: perms[o * (len(perms) // len(subsets))], batch=lambda m, k: subsets[o], index=lambda m, k: repeats[o % len(repeats)])):
                hit.add(tuple(np.asarray(cp.utils.sample_batches(n, 1, size)).tolist()))
        ctx.require(len(hit) == len(subsets), lambda: "sample_batches(%d, 1, %d): only %d of %d outcomes occur" % (n, size, len(hit), len(subsets)))


def run_parallel_deriv(ctx):
    from mc.data import Ref
    ps = [-40.0, -1.5, 0.0, 2.25]
    ys = [0.0, 1.0, 0.25]
    d = cp.loss.LogLoss(np.eye(2), np.array([0.0, 1.0])).partial_deriv
    ref = Ref("log", np.eye(1), np.zeros(1), 0.0)
    for k in range(0, 5):
        for p in itertools.product(ps, repeat=k):
            for y in ([ys[(i + j) % 3] for i in range(k)] for j in range(3)):
                want = np.array([float(ref.point_deriv(np.longdouble(a), np.longdouble(b))) for a, b in zip(p, y)])
                for order in itertools.permutations(range(k)):
                    with parallel(lambda m: order if m == k else range(m)):
                        got = d(np.array(p), np.array(y))
                    ctx.close(got, want, 1e-12, lambda: "derivative at %s, targets %s, order %s" % (p, y, order))
                    ctx.step()
                ctx.state(p, y)
    ctx.trace()


def run_order(ctx, n):
    """every operation, with all parallel loops run backwards, rotated and inside out"""
    o = OPS[n]
    from mc.catalog import Counter

    class Keyed(Counter):
        """draws inside a parallel loop depend on the iteration, not on the order"""

        def __init__(self):
            super().__init__()
            self.loop = 0

        def batch(self, m, size):
            i = Order.current
            if i is None:
                return super().batch(m, size)
            return [(3 * i + j) % m for j in range(size)]

    def go(order):
        h = Heap(0)
        with parallel(order):
            if not o.solver:
                return values(o.fn(h))
            kw = dict(max_iter=4, tol=0.0)
            if o.random:
                with answering(Keyed().draws()):
                    return values(o.fn(h, kw))
            return values(o.fn(h, kw))

    base = go(lambda k: range(k))
    if Order.used:
        ctx.count("operations_with_parallel_loops")
    for order in (lambda k: range(k - 1, -1, -1), lambda k: list(range(1, k)) + [0] * (k > 0), lambda k: list(range(0, k, 2)) + list(range(1, k, 2))):
        got = go(order)
        for key in base:
            ctx.close(got[key], base[key], 1e-9, lambda: "%s with another order of its parallel loops: %s" % (n, key))
        ctx.step()
    ctx.trace()
    ctx.state("order", n)


def run_races(ctx, n):
    """iterations of a parallel loop do not touch what another one writes: any interleaving of their steps gives the same result"""
    import warnings
    from mc.catalog import Counter

    def judge(log, what):
        if log.conflicts:
            a, b, how, = log.conflicts[0]
            ctx.fail("%s: iterations %d and %d of a parallel loop use the same element, %s by the latter" % (what, a, b, how))
        ctx.count("parallel_loops_watched", log.loops)
        ctx.count("accesses_watched", log.events)
        ctx.step()

    if n == "kernels":
        mv, vm = cp.utils.fast_csr_mv, cp.utils.fast_csr_vm
        for shape in ((3, 3), (2, 4), (4, 2)):
            for bits in range(1 << (shape[0] * shape[1])):
                if bits % 7 and bin(bits).count("1") > 4:
                    continue
                mask = np.array([(bits >> i) & 1 for i in range(shape[0] * shape[1])]).reshape(shape)
                data, ind, ptr = structures(VAL[:shape[0], :shape[1]] * mask, "canonical")
                for s in ((0, 1), (1, 1, 0), (0,), (1, 0, 1, 0)):
                    idx = np.array(s)
                    with watched() as log:
                        mv(data, ptr, ind, np.arange(1.0, shape[1] + 1), idx)
                        judge(log, "M[idx] x, rows %s of %s" % (s, mask.tolist()))
                    with watched() as log:
                        vm(np.arange(1.0, len(s) + 1), data, ptr, ind, shape[1], idx)
                        judge(log, "x M[idx], rows %s of %s" % (s, mask.tolist()))
        for m, nb, size in itertools.product((1, 2, 5, 9), (0, 1, 2, 4), (1, 2, 5)):
            if size <= m:
                with watched() as log, answering(Draws(order=lambda k: range(k), batch=lambda k, s: range(s), index=lambda k, s: [0] * s)):
                    cp.utils.sample_batches(m, nb, size)
                    judge(log, "sample_batches(%d, %d, %d)" % (m, nb, size))
        for L in (cp.loss.LogLoss, cp.loss.SquareLoss):
            d = L(np.eye(2), np.array([0.0, 1.0])).partial_deriv
            for k in range(1, 6):
                with watched() as log:
                    d(np.linspace(-3, 3, k), np.arange(k) % 2.0)
                    judge(log, "derivatives of %s at %d points" % (L.__name__, k))
    else:
        o = OPS[n]
        for i in (0, 1):
            with watched() as log, warnings.catch_warnings():
                warnings.simplefilter("ignore")
                kw = dict(max_iter=2, tol=0.0)
                if not o.solver:
                    o.fn(Heap(i))
                elif o.random:
                    with answering(Counter().draws()):
                        o.fn(Heap(i), kw)
                else:
                    o.fn(Heap(i), kw)
                judge(log, n)
    ctx.state("races", n)
    ctx.trace()


def run_wide(ctx, k):
    """supports of larger matrices"""
    n, p = ((5, 40), (30, 12), (130, 70), (3, 300), (64, 64), (257, 9))[k]
    v = (np.arange(n * p) * 0.6180339887 + 0.2) % 1.0
    M = np.where(v < 0.35, 1 + v, 0.0).reshape(n, p)
    M[n // 2] = 0
    M[-1] = 2.0
    M[:, p // 3] = 0
    for kind in ("canonical", "unsorted", "duplicates"):
        data, ind, ptr = structures(M, kind)
        A = sparse.csr_matrix((data, ind, ptr), shape=(n, p))
        for sizes in ((1,), (2,), (3, 1), (7,), (p,), (1, 1, p // 2)):
            blocks, j = [], 0
            while j < p:
                s = sizes[len(blocks) % len(sizes)]
                blocks.append(list(range(j, min(j + s, p))))
                j += s
            support(ctx, A, M != 0, blocks, "%dx%d pattern (%s), blocks of %s" % (n, p, kind, sizes))
            ctx.state("wide", k, kind, sizes)
    ctx.trace()


def run_add(ctx):
    add = cp.utils.safe_sparse_add
    forms = ("csr", "csc", "coo", "lil", "dok")
    mats = [np.array(m, dtype=float) for m in ([[1, 0], [0, 2]], [[0, 0], [0, 0]], [[1, -2], [3, 0]], [[1, 2, 0]], [[0], [3], [1]], [[5]])]
    for X, Y in itertools.product(mats, repeat=2):
        if X.shape != Y.shape:
            continue
        for f in ("dense",) + forms:
            for g in ("dense",) + forms:
                a = X.copy() if f == "dense" else sparse.csr_matrix(X).asformat(f)
                b = Y.copy() if g == "dense" else sparse.csr_matrix(Y).asformat(g)
                r = add(a, b)
                ctx.require(sparse.issparse(r) == (f != "dense" and g != "dense"), lambda: "safe_sparse_add of %s and %s" % (f, g))
                r = r.toarray() if sparse.issparse(r) else np.asarray(r)
                ctx.close(r, X + Y, 0, lambda: "safe_sparse_add of %s and %s" % (f, g))
                ctx.step()
                ctx.state(X.tolist(), Y.tolist(), f, g)
    v = np.array([1.0, -2.0, 4.0])
    for shape in ((3, 1), (1, 3)):
        for f in forms:
            S = sparse.csr_matrix(np.array([0.0, 5.0, 1.0]).reshape(shape)).asformat(f)
            for r in (add(S, v), add(v, S)):
                ctx.close(np.asarray(r), np.array([1.0, 3.0, 5.0]), 0, lambda: "safe_sparse_add of a sparse %s and a vector" % (shape,))
                ctx.step()
    ctx.trace()
