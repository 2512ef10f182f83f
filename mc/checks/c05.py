"""C05: smoothness constants."""
import itertools
import numpy as np
from scipy import sparse
from mc.core import import_copt, show
from mc import gen
from mc.data import FORMATS, make_loss, Ref

cp = import_copt()
PROPERTY = "C05"
LEVEL = "exploration"
RULE = ("every matrix over {-1,0,2} (and {0,1} for the larger shapes) of the small shapes x loss x regularisation x "
        "format, plus patterned matrices of many shapes; the constant is compared with the eigenvalue it stands for, "
        "and the defining inequality is evaluated on every pair of a grid of points. Non-trivial: the matrix is not zero")
BOUNDS = {"quick": "shapes up to 2x2 over 3 letters, 2x3/3x2 over 2, patterns up to 40x30, shapes up to 2049 x 3 and 4 x 1500", "thorough": "shapes up to 3x3 over 2 letters, 2x3 over 3"}
ASSUMPTIONS = ["agreement up to 1e-9 relative"]
CURV = {"log": 0.25, "square": 1.0, "huber": 1.0}


def cases(tier, seed):
    th = tier == "thorough"
    for kind in ("log", "square", "huber"):
        for s in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)):
            yield ["grid", kind, list(s), 3, 0]
        for s in ((2, 3), (3, 2)):
            yield ["grid", kind, list(s), 3 if th else 2, 1 if th else 0]
        if th:
            yield ["grid", kind, [3, 3], 2, 2]
        for fmt in FORMATS:
            yield ["formats", kind, fmt]
        yield ["pairs", kind]
        yield ["init", kind]
    for s in ((9, 9), (20, 30), (40, 12), (60, 60), (35, 120)):
        yield ["cluster", list(s)]
    for k in range(4):
        yield ["tall", k]
    for ch in gen.chunks([(r, c) for r in (1, 2, 3, 5, 8, 17, 40) for c in (1, 2, 3, 4, 9, 30)], 7):
        yield ["shapes", [list(s) for s in ch]]


def b_of(kind, n):
    return np.array([(0.0, 1.0)[i % 2] for i in range(n)]) if kind == "log" else np.array([(0.5, -2.0, 3.0)[i % 3] for i in range(n)])


def judge(ctx, kind, Ain, A, alpha):
    n, p = A.shape
    b = b_of(kind, n)
    loss = make_loss(cp, kind, Ain, b, alpha)
    what = "%s loss, A=%s alpha=%g" % (kind, A.tolist() if A.size < 13 else A.shape, alpha)
    lam = np.linalg.norm(A, 2) ** 2
    want = CURV[kind] * lam / n + alpha
    L = loss.lipschitz
    ctx.require(np.ndim(L) == 0 and abs(L - want) <= 1e-9 * want + 1e-300, lambda: "%s: lipschitz %r, exact constant %r" % (what, L, want))
    if kind != "huber":
        rows = CURV[kind] * (A ** 2).sum(1) + alpha
        M = loss.max_lipschitz
        ctx.require(M >= rows.max() * (1 - 1e-9), lambda: "%s: max_lipschitz %r below the constant %r of sample %d" % (what, M, rows.max(), rows.argmax()))
        ctx.require(np.isfinite(M), "%s: max_lipschitz %r" % (what, M))
    if kind == "log":
        M = cp.utils.get_max_lipschitz(Ain, "logloss", alpha)
        ctx.require(M >= rows.max() * (1 - 1e-9), lambda: "%s: get_max_lipschitz %r below %r" % (what, M, rows.max()))
    ctx.evaluation(kind, A, alpha, type(Ain).__name__, nontrivial=bool(np.any(A)))


def run(case, ctx):
    what = case[0]
    if what == "grid":
        _, kind, (n, p), k, _ = case
        for i, w in enumerate(gen.words((-1.0, 0.0, 2.0) if k == 3 else (0.0, 1.0), n * p)):
            A = np.array(w).reshape(n, p)
            for alpha in (0.0, 0.3) if i % 2 else (0.0, 5.0):
                judge(ctx, kind, A, A, alpha)
                if i % 3 == 0:
                    judge(ctx, kind, sparse.csr_matrix(A), A, alpha)
    elif what == "formats":
        _, kind, fmt = case
        for (n, p) in ((1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (7, 5)):
            for zero in (0, 1, 2):
                A = gen.pattern("mod", n * p).reshape(n, p)
                if zero:
                    A[0] = 0
                if zero == 2:
                    A[:] = 0
                for alpha in (0.0, 0.7):
                    judge(ctx, kind, FORMATS[fmt](A), A, alpha)
    elif what == "shapes":
        for (r, c) in case[1]:
            for pat in ("weyl", "mod", "const", "walk", "big", "spike", "zero"):
                A = gen.pattern(pat, r * c).reshape(r, c)
                for kind in ("log", "square", "huber"):
                    for alpha in (0.0, 0.1):
                        judge(ctx, kind, A, A, alpha)
                        judge(ctx, kind, sparse.csr_matrix(A), A, alpha)
    elif what == "cluster":
        # leading singular values separated by every relative gap of a list
        r_, c_ = case[1]
        m = min(r_, c_)
        Q1 = np.linalg.qr(gen.pattern("weyl", r_ * r_).reshape(r_, r_) + np.eye(r_))[0][:, :m]
        Q2 = np.linalg.qr(gen.pattern("mod", c_ * c_).reshape(c_, c_) + 3 * np.eye(c_))[0][:, :m]
        for gap in (0.0, 1e-8, 1e-4, 1e-2, 0.05, 0.1, 0.3, 0.9):
            for decay in (1.0, 0.99, 0.9, 0.5):
                sv = (1 - gap) * decay ** np.arange(m)
                sv[0] = 1.0
                for i, unit in enumerate((1.0, 1e-5, 1e4, 1e-12, 1e-40, 1e12)):
                    A = (Q1 * (sv * unit)) @ Q2.T
                    kind = ("log", "square", "huber")[i % 3]
                    judge(ctx, kind, A, A, 0.0)
                    judge(ctx, kind, sparse.csr_matrix(A), A, 0.1 * unit ** 2)
    elif what == "tall":
        # many rows or columns, the one that decides first, last, or in the middle
        for (r, c) in ((1500, 4), (4, 1500), (700, 30), (2049, 2))[case[1]:case[1] + 1]:
            for at in (0, 0.4, 0.99, 1):
                A = gen.pattern("weyl", r * c).reshape(r, c)
                i, j = int(at * (r - 1)), int(at * (c - 1))
                A[i] *= 5
                A[:, j] *= 3
                A[i, j] += 40
                for kind in ("log", "square", "huber"):
                    judge(ctx, kind, A, A, 0.1)
                    judge(ctx, kind, sparse.csr_matrix(A), A, 0.0)
                    judge(ctx, kind, sparse.csc_matrix(A), A, 0.0)
    elif what == "pairs":
        kind = case[1]
        for A in ([[1.0, 2.0], [0.0, 1.0]], [[1.0, -1.0]], [[2.0], [0.5], [0.0]], [[1.0, 0, 0], [0, 3, 0], [1, 1, 1]]):
            A = np.array(A)
            n, p = A.shape
            b = b_of(kind, n)
            for alpha in (0.0, 0.5):
                loss = make_loss(cp, kind, A, b, alpha)
                L = loss.lipschitz
                pts = [np.array(w) for w in gen.words((-1.0, 0.0, 0.1, 2.0), p)]
                gs = [loss.f_grad(x)[1] for x in pts]
                for (x, gx), (y, gy) in itertools.combinations(zip(pts, gs), 2):
                    ctx.require(np.linalg.norm(gx - gy) <= L * np.linalg.norm(x - y) * (1 + 1e-7) + 1e-12,
                                lambda: "%s: gradients at %s and %s differ by more than L=%g allows" % (kind, show(x), show(y), L))
                    ctx.evaluation(kind, A, alpha, x, y)
                if kind != "huber":
                    M = loss.max_lipschitz
                    for i in range(n):
                        one = make_loss(cp, kind, A[i:i + 1], b[i:i + 1], alpha)
                        g1 = [one.f_grad(x)[1] for x in pts]
                        for (x, gx), (y, gy) in itertools.combinations(zip(pts, g1), 2):
                            ctx.require(np.linalg.norm(gx - gy) <= M * np.linalg.norm(x - y) * (1 + 1e-7) + 1e-12,
                                        lambda: "%s sample %d: max_lipschitz too small" % (kind, i))
    elif what == "init":
        kind = case[1]
        for scale in (1e-4, 1e-2, 1.0, 30.0, 1e3):
            for (n, p) in ((1, 1), (2, 2), (3, 2), (2, 3)):
                for pat in ("weyl", "mod", "const"):
                    A = scale * gen.pattern(pat, n * p).reshape(n, p)
                    b = b_of(kind, n)
                    for alpha in (0.0, 0.5 * scale ** 2, 1.0):
                        loss = make_loss(cp, kind, A, b, alpha)
                        for x in (np.zeros(p), np.ones(p), gen.pattern("alt", p) * 10):
                            L0 = cp.utils.init_lipschitz(loss.f_grad, x)
                            ctx.require(np.isfinite(L0) and L0 > 0, lambda: "init_lipschitz %r" % L0)
                            f0, g = loss.f_grad(x)
                            f1 = loss(x - g / L0)
                            ctx.require(f1 <= f0 + 1e-12 * (1 + abs(f0)),
                                        lambda: "%s, A=%s: a step of 1/init_lipschitz=1/%g increases the loss from %r to %r" % (kind, A.tolist(), L0, f0, f1))
                            ctx.evaluation("init", kind, A, alpha, x)
