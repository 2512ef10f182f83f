"""Reference terms, problems and solvers: nothing here comes from copt."""
import itertools
import numpy as np


# ------------------------------------------------------------------ terms
class Term:
    """A proximable function: value, exact proximal operator."""
    name = "zero"

    def value(self, x):
        return 0.0

    def prox(self, x, s):
        return np.array(x, dtype=float)

    def dist(self, x):
        """how far x is outside the domain (indicators)"""
        return 0.0

    def __repr__(self):
        return self.name


class L1(Term):
    def __init__(self, w):
        self.w = w
        self.name = "l1(%g)" % w

    def value(self, x):
        return self.w * np.abs(x).sum()

    def prox(self, x, s):
        return np.sign(x) * np.maximum(np.abs(x) - self.w * s, 0)


class Group(Term):
    def __init__(self, w, groups):
        self.w, self.groups = w, [list(g) for g in groups]
        self.name = "group(%g,%s)" % (w, self.groups)

    def value(self, x):
        return self.w * sum(np.sqrt((x[g] ** 2).sum()) for g in self.groups)

    def prox(self, x, s):
        out = np.array(x, dtype=float)
        for g in self.groups:
            nrm = np.sqrt((out[g] ** 2).sum())
            out[g] *= max(0.0, 1 - self.w * s / nrm) if nrm > 0 else 0.0
        return out


class Fused(Term):
    """w * sum |x_{i+1} - x_i|, n <= 6: every segmentation with every jump sign."""

    def __init__(self, w):
        self.w = w
        self.name = "fused(%g)" % w

    def value(self, x):
        return self.w * np.abs(np.diff(x)).sum()

    _tab = {}

    @classmethod
    def table(cls, n):
        if n not in cls._tab:
            Ms, os = [], []
            for pat in itertools.product((0, 1, -1), repeat=n - 1):
                M, o = np.zeros((n, n)), np.zeros(n)
                a = 0
                for b in range(1, n + 1):
                    if b == n or pat[b - 1]:
                        left = pat[a - 1] if a else 0
                        right = pat[b - 1] if b < n else 0
                        M[a:b, a:b] = 1.0 / (b - a)
                        o[a:b] = (right - left) / (b - a)
                        a = b
                Ms.append(M)
                os.append(o)
            cls._tab[n] = np.array(Ms), np.array(os)
        return cls._tab[n]

    def prox(self, x, s):
        x = np.asarray(x, dtype=float)
        lam = self.w * s
        M, o = self.table(x.size)
        outs = M @ x + lam * o
        vals = lam * np.abs(outs[:, 1:] - outs[:, :-1]).sum(1) + 0.5 * ((outs - x) ** 2).sum(1)
        return outs[np.argmin(vals)].copy()


class Box(Term):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        self.name = "box(%g,%g)" % (lo, hi)

    def prox(self, x, s):
        return np.minimum(np.maximum(x, self.lo), self.hi)

    def dist(self, x):
        return float(np.abs(x - self.prox(x, 1)).max())


class L2B(Term):
    def __init__(self, r):
        self.r = r
        self.name = "l2ball(%g)" % r

    def prox(self, x, s):
        nrm = np.sqrt((x ** 2).sum())
        return np.array(x) if nrm <= self.r else x * (self.r / nrm)

    def dist(self, x):
        return max(0.0, float(np.sqrt((x ** 2).sum()) - self.r))


def proj_simplex(v, r):
    """exact for small n: bisection-free, tries each support size"""
    u = np.sort(v)[::-1]
    th = None
    for k in range(1, v.size + 1):
        t = (u[:k].sum() - r) / k
        if u[k - 1] - t > 0:
            th = t
    return np.maximum(v - th, 0)


class Simplex(Term):
    def __init__(self, r):
        self.r = r
        self.name = "simplex(%g)" % r

    def prox(self, x, s):
        return proj_simplex(np.asarray(x, dtype=float), self.r)

    def dist(self, x):
        return float(max(-x.min(), abs(x.sum() - self.r), 0.0))


class L1B(Term):
    def __init__(self, r):
        self.r = r
        self.name = "l1ball(%g)" % r

    def prox(self, x, s):
        if np.abs(x).sum() <= self.r:
            return np.array(x, dtype=float)
        return np.sign(x) * proj_simplex(np.abs(x), self.r)

    def dist(self, x):
        return max(0.0, float(np.abs(x).sum() - self.r))


class TraceB(Term):
    def __init__(self, r, shape):
        self.r, self.shape = r, shape
        self.name = "traceball(%g)" % r

    def prox(self, x, s):
        U, sv, Vt = np.linalg.svd(x.reshape(self.shape), full_matrices=False)
        if sv.sum() <= self.r:
            return np.array(x, dtype=float)
        return ((U * proj_simplex(sv, self.r)) @ Vt).ravel()

    def dist(self, x):
        return max(0.0, float(np.linalg.svd(x.reshape(self.shape), compute_uv=False).sum() - self.r))


ZERO = Term()


def term(spec):
    """JSON description -> term"""
    if spec is None:
        return ZERO
    k = spec[0]
    return {"l1": L1, "group": Group, "fused": Fused, "box": Box, "l2b": L2B,
            "simplex": Simplex, "l1b": L1B}[k](*spec[1:])


# --------------------------------------------------------------- smooth part
class Quad:
    """x'Qx/2 - c'x"""

    def __init__(self, Q, c):
        self.Q = np.array(Q, dtype=float)
        self.c = np.array(c, dtype=float)
        ev = np.linalg.eigvalsh(self.Q)
        self.L = float(max(ev[-1], 0))
        self.mu = float(max(ev[0], 0))
        self.n = self.c.size

    def value(self, x):
        return float(x @ self.Q @ x / 2 - self.c @ x)

    def grad(self, x):
        return self.Q @ x - self.c


class Fit:
    """mean point loss of Ax against b, plus alpha/2 |x|^2 (plain float version of data.Ref)"""

    def __init__(self, kind, A, b, alpha=0.0, delta=1.0):
        self.kind, self.alpha, self.delta = kind, alpha, delta
        self.A = np.array(A, dtype=float)
        self.b = np.array(b, dtype=float)
        m, self.n = self.A.shape
        self.m = m
        sv = np.linalg.norm(self.A, 2)
        self.L = float((0.25 if kind == "log" else 1.0) * sv ** 2 / m + alpha)
        self.mu = float(alpha)
        if kind == "square" and m >= self.n:
            self.mu += float(np.linalg.svd(self.A, compute_uv=False)[-1] ** 2 / m)

    def point(self, z):
        if self.kind == "log":
            return np.logaddexp(0, z) - self.b * z
        r = z - self.b
        if self.kind == "square":
            return r * r / 2
        a = np.abs(r)
        return np.where(a <= self.delta, r * r / 2, self.delta * (a - self.delta / 2))

    def deriv(self, z, b=None):
        b = self.b if b is None else b
        if self.kind == "log":
            return 0.5 * (1 + np.tanh(z / 2)) - b
        r = z - b
        return r if self.kind == "square" else np.clip(r, -self.delta, self.delta)

    def value(self, x):
        return float(self.point(self.A @ x).mean() + self.alpha / 2 * (x @ x))

    def grad(self, x):
        return self.A.T @ self.deriv(self.A @ x) / self.m + self.alpha * x


def smooth(spec):
    if spec[0] == "quad":
        return Quad(spec[1], spec[2])
    return Fit(*spec)


# --------------------------------------------------------------- references
def mapping(f, g, x, s):
    """proximal-gradient mapping of f + g at x with step s"""
    return (x - g.prox(x - s * f.grad(x), s)) / s


def solve2(f, g, n, x0=None, iters=20000, tol=1e-13):
    """accelerated proximal gradient with restarts -> (x, residual)"""
    x = g.prox(np.zeros(n) if x0 is None else np.array(x0, dtype=float), 1.0)
    s = 1.0 / max(f.L, 1e-12) if f.L > 0 else 1.0
    y, t = x.copy(), 1.0
    for _ in range(iters):
        xn = g.prox(y - s * f.grad(y), s)
        if (y - xn) @ (xn - x) > 0:
            t = 1.0
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        y = xn + (t - 1) / tn * (xn - x)
        d = np.abs(xn - x).max()
        x, t = xn, tn
        if d <= tol * 1e-2 and np.abs(mapping(f, g, x, s)).max() * s < tol:
            break
    return x, float(np.abs(x - g.prox(x - s * f.grad(x), s)).max())


def solve3(f, g, h, n, iters=60000, tol=1e-12, K=None, sp=None):
    """Condat-Vu on f + g + h(Kx) with fixed steps -> (x, residual).  The residual certifies x: it is the
    distance moved by one primal-dual step, zero exactly at saddle points."""
    K = np.eye(n) if K is None else np.array(K, dtype=float)
    nk = max(np.linalg.norm(K, 2), 1e-9) if K.size else 1e-9
    best = None
    x = g.prox(np.zeros(n), 1.0)
    y = np.zeros(K.shape[0])
    sig = 1.0 / nk * (sp or 1.0)
    tau = 0.99 / (f.L / 2 + sig * nk ** 2)
    res = np.inf
    for it in range(iters):
        xn = g.prox(x - tau * (f.grad(x) + K.T @ y), tau)
        v = y + sig * (K @ (2 * xn - x))
        yn = v - sig * h.prox(v / sig, 1 / sig)
        if it % 50 == 0:
            res = max(np.abs(xn - x).max(), np.abs(yn - y).max())
            if res <= tol:
                x, y = xn, yn
                break
        x, y = xn, yn
    return x, float(res)


def total(f, g, h, x, K=None):
    return f.value(x) + g.value(x) + h.value(x if K is None else np.asarray(K) @ x)


def outside(g, h, x, K=None):
    return max(g.dist(x), h.dist(x if K is None else np.asarray(K) @ x))
