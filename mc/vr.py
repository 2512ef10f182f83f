"""Block structures and block-wise operators owned by the harness, and dense models of the variance-reduced methods."""
import itertools
import numpy as np
from scipy import sparse


def partitions(n):
    """all ordered partitions of range(n) into contiguous blocks"""
    for cuts in itertools.product((0, 1), repeat=n - 1):
        blocks, cur = [], [0]
        for i in range(1, n):
            if cuts[i - 1]:
                blocks.append(cur)
                cur = []
            cur.append(i)
        blocks.append(cur)
        yield blocks


class BlockTerm:
    """sum over blocks of phi(x_B); phi one of none, l1, l2 (group), pair (|x_i - x_{i+1}| on two-element blocks), nonneg"""

    def __init__(self, kind, w, blocks, n):
        self.kind, self.w, self.blocks, self.n = kind, w, [list(b) for b in blocks], n

    def value(self, x):
        if self.kind == "none":
            return 0.0
        if self.kind == "l1":
            return self.w * np.abs(x).sum()
        if self.kind == "nonneg":
            return 0.0 if x.min() >= -1e-12 else np.inf
        if self.kind == "l2":
            return self.w * sum(np.sqrt((x[b] ** 2).sum()) for b in self.blocks)
        return self.w * sum(abs(x[b[0]] - x[b[1]]) for b in self.blocks if len(b) == 2)

    def block_prox(self, v, s):
        if self.kind == "none" or (self.kind == "pair" and v.size != 2):
            return np.array(v)
        if self.kind == "l1":
            return np.sign(v) * np.maximum(np.abs(v) - self.w * s, 0)
        if self.kind == "nonneg":
            return np.maximum(v, 0)
        if self.kind == "l2":
            nrm = np.sqrt((v ** 2).sum())
            return v * (max(0.0, 1 - self.w * s / nrm) if nrm > 0 else 0.0)
        m, d = v.mean(), (v[0] - v[1]) / 2
        d = np.sign(d) * max(abs(d) - self.w * s, 0)
        return np.array([m + d, m - d])

    def prox(self, x, s):
        out = np.array(x, dtype=float)
        for b in self.blocks:
            out[b] = self.block_prox(out[b], s)
        return out

    def dist(self, x):
        return max(0.0, -float(x.min())) if self.kind == "nonneg" else 0.0

    def operator(self):
        """(operator, block matrix) in the form the stochastic solvers take"""
        indptr = np.cumsum([0] + [len(b) for b in self.blocks]).astype(np.int32)
        B = sparse.csr_matrix((np.ones(self.n), np.arange(self.n, dtype=np.int32), indptr), shape=(len(self.blocks), self.n))

        def op(x, i, indices, ptr, d, step_size):
            for t in range(ptr[i], ptr[i + 1]):
                h = indices[t]
                b = self.blocks[h]
                x[b] = self.block_prox(x[b], step_size * d[h])

        return op, B

    def copt_operator(self, cp):
        if self.kind == "l1":
            return cp.penalty.L1Norm(self.w).prox_factory(self.n)
        if self.kind == "l2":
            return cp.penalty.GroupL1(self.w, self.blocks).prox_factory(self.n)
        if self.kind == "pair" and all(len(b) == 2 for b in self.blocks[:-1]):
            return cp.penalty.FusedLasso(self.w).prox_1_factory(self.n)
        if self.kind == "pair" and len(self.blocks[0]) == 1 and all(len(b) == 2 for b in self.blocks[1:-1]):
            return cp.penalty.FusedLasso(self.w).prox_2_factory(self.n)
        if self.kind == "none":
            return None
        return self.operator()

    def __repr__(self):
        return "%s(%g)%s" % (self.kind, self.w, self.blocks)


def derivs(kind):
    """scalar derivative of the per-sample loss at margin p, target y (vectorised), its curvature bound"""
    if kind == "square":
        return (lambda p, y: p - y), 1.0
    if kind == "hinge":
        # half the square of the positive part: exactly zero on a half-line
        return (lambda p, y: np.maximum(p - y, 0.0)), 1.0
    return (lambda p, y: 0.5 * (1 + np.tanh(p / 2)) - y), 0.25


class Model:
    """state shared by the dense models"""

    def __init__(self, kind, A, b, alpha, terms, step):
        self.A, self.b, self.alpha, self.step = np.array(A, dtype=float), np.array(b, dtype=float), alpha, step
        self.m, self.n = self.A.shape
        self.deriv, self.curv = derivs(kind)
        self.terms = terms
        self.touch = []  # per term: list per sample of touched block numbers
        self.weight = []  # per term: per block weight (inf: never touched)
        self.wfeat = []
        for t in terms:
            touch = [[h for h, b in enumerate(t.blocks) if np.any(self.A[i, b] != 0)] for i in range(self.m)]
            cnt = np.zeros(len(t.blocks))
            for i in range(self.m):
                for h in touch[i]:
                    cnt[h] += 1
            with np.errstate(divide="ignore"):
                w = self.m / cnt
            self.touch.append(touch)
            self.weight.append(w)
            wf = np.zeros(self.n)
            for h, b in enumerate(t.blocks):
                wf[b] = w[h]
            self.wfeat.append(wf)

    def sample_deriv(self, i, x):
        return float(self.deriv(self.A[i] @ x, self.b[i]))

    def objective_grad(self, x):
        return self.A.T @ self.deriv(self.A @ x, self.b) / self.m + self.alpha * x


class Saga(Model):
    def __init__(self, *a, x0):
        super().__init__(*a)
        self.x = np.array(x0, dtype=float)
        self.mem = np.zeros(self.m)

    def begin(self):
        pass

    def estimate(self, i):
        g = self.sample_deriv(i, self.x)
        diff = (g - self.mem[i]) * self.A[i]
        avg = self.A.T @ self.mem / self.m
        return g, diff, avg

    def inner(self, i):
        g, diff, avg = self.estimate(i)
        t, touch, w = self.terms[0], self.touch[0], self.weight[0]
        for h in touch[i]:
            b = t.blocks[h]
            v = diff[b] + w[h] * (avg[b] + self.alpha * self.x[b])
            self.x[b] = t.block_prox(self.x[b] - self.step * v, self.step * w[h])
        self.mem[i] = g

    def epoch(self, order):
        self.begin()
        for i in order:
            self.inner(i)


class Svrg(Saga):
    def begin(self):
        self.snap = self.x.copy()
        self.full = self.A.T @ self.deriv(self.A @ self.snap, self.b) / self.m

    def estimate(self, i):
        diff = (self.sample_deriv(i, self.x) - self.sample_deriv(i, self.snap)) * self.A[i]
        return 0.0, diff, self.full


class Vrtos(Model):
    def __init__(self, *a, x0):
        super().__init__(*a)
        self.z = np.array(x0, dtype=float)
        self.X = [self.z.copy(), self.z.copy()]
        self.Y = [np.zeros(self.n), np.zeros(self.n)]
        self.mem = np.zeros(self.m)

    def inner(self, i):
        g = self.sample_deriv(i, self.z)
        diff = (g - self.mem[i]) * self.A[i]
        avg = self.A.T @ self.mem / self.m
        moved = set()
        for k in (0, 1):
            t, w = self.terms[k], self.weight[k]
            for h in self.touch[k][i]:
                b = t.blocks[h]
                v = diff[b] + w[h] * (avg[b] + self.alpha * self.z[b])
                self.X[k][b] = t.block_prox(2 * self.z[b] - self.Y[k][b] - self.step * 0.5 * v, self.step * w[h])
                self.Y[k][b] += self.X[k][b] - self.z[b]
                moved.update(b)
        for j in moved:
            p = [0.0 if np.isinf(self.wfeat[k][j]) else 1 / self.wfeat[k][j] for k in (0, 1)]
            self.z[j] = (p[0] * self.Y[0][j] + p[1] * self.Y[1][j]) / (p[0] + p[1])
        self.mem[i] = g

    def epoch(self, order):
        for i in order:
            self.inner(i)


INTEGRAL = np.array([[1, -2, 1], [3, 2, -1], [-1, 1, 2], [1, -1, 2]])
INT_TARGETS = np.array([1, 0, 1, 0])


def data_types(A):
    """the same integral matrix in other representations a caller may hold it in"""
    yield "csr of int64", sparse.csr_matrix(A.astype(np.int64))
    yield "csr of int8", sparse.csr_matrix(A.astype(np.int8))
    yield "csr of float32", sparse.csr_matrix(A.astype(np.float32))
    yield "dense int64", A.astype(np.int64)
    if set(np.unique(A)) <= {0, 1}:
        yield "csr of bool", sparse.csr_matrix(A.astype(bool))
    S = sparse.csr_matrix(A.astype(float))
    R = S.copy()
    for i in range(S.shape[0]):
        r = slice(S.indptr[i], S.indptr[i + 1])
        R.indices[r], R.data[r] = S.indices[r][::-1], S.data[r][::-1]
    R.has_sorted_indices = False
    yield "csr with unsorted rows", R
    D = sparse.csr_matrix((np.repeat(S.data, 2) * np.tile([0.25, 0.75], S.nnz), np.repeat(S.indices, 2), 2 * S.indptr), shape=S.shape)
    yield "csr with entries in two pieces", D
    L = S.copy()
    L.indices, L.indptr = L.indices.astype(np.int64), L.indptr.astype(np.int64)
    yield "csr with 64-bit indices", L
    yield "csc of int64", sparse.csc_matrix(A.astype(np.int64))


def target_types(b):
    yield "int64", b.astype(np.int64)
    yield "int8", b.astype(np.int8)
    yield "float32", b.astype(np.float32)
    if set(np.unique(b)) <= {0, 1}:
        yield "bool", b.astype(bool)


def typed(A, b):
    """-> (what, A as it is handed over, b as it is handed over)"""
    base = sparse.csr_matrix(A.astype(float))
    for n, a in data_types(A):
        yield n, a, b.astype(float)
    for n, t in target_types(b):
        yield "targets of " + n, base, t
    yield "everything int64", sparse.csr_matrix(A.astype(np.int64)), b.astype(np.int64)


def big(m, n):
    """sparse m x n matrix with a feature in one sample only, one in every sample, one (n > 3) in none, and an empty sample"""
    v = (np.arange(m * n) * 0.6180339887 + 0.1) % 1.0
    A = np.where(v.reshape(m, n) < 0.45, 3 * v.reshape(m, n) - 0.4, 0.0)
    A[:, 0] = np.cos(np.arange(m)) + 1.5
    A[:, n - 1] = 0.0
    A[m - 1, n - 1] = 1.2
    if n > 3:
        A[:, n // 2] = 0.0
    if m > 2:
        A[1] = 0.0
    b = np.sin(3.0 * np.arange(m))
    return A, b


def big_blocks(n):
    """single features, pairs, shifted pairs, two halves, uneven blocks, one block"""
    idx = list(range(n))
    yield [[j] for j in idx]
    yield [idx[i:i + 2] for i in range(0, n, 2)]
    yield [idx[:1]] + [idx[i:i + 2] for i in range(1, n, 2)]
    yield [b for b in (idx[:n // 2], idx[n // 2:]) if b]
    yield [b for b in (idx[:1], idx[1:4], idx[4:5], idx[5:]) if b]
    yield [idx]


def big_terms(n):
    for k, bl in enumerate(big_blocks(n)):
        if k == 0:
            yield BlockTerm("none", 0, bl, n)
            yield BlockTerm("l1", 0.05, bl, n)
        if k in (1, 2):
            yield BlockTerm("pair", 0.04, bl, n)
        yield BlockTerm("l2", 0.06, bl, n)


def big_orders(m):
    """families of sampling orders: epoch number -> order"""
    yield "identity", lambda e: list(range(m))
    yield "reversed", lambda e: list(range(m))[::-1]
    yield "rotations", lambda e: [(i + e) % m for i in range(m)]
    k = next(k for k in (7, 5, 3, 11, 13, 1) if np.gcd(k, m) == 1)
    yield "strides", lambda e: [(i * k + 2 * e) % m for i in range(m)]
