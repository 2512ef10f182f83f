"""Small data matrices, in every representation, and reference losses."""
import itertools
import numpy as np
from scipy import sparse

LD = np.longdouble

FORMATS = {
    "dense": lambda A: np.array(A),
    "fortran": lambda A: np.asfortranarray(A),
    "csr": sparse.csr_matrix,
    "csc": sparse.csc_matrix,
    "coo": sparse.coo_matrix,
    "lil": sparse.lil_matrix,
    "dok": sparse.dok_matrix,
    "dia": sparse.dia_matrix,
    "bsr": sparse.bsr_matrix,
    "csr_array": sparse.csr_array,
    "csc_array": sparse.csc_array,
    "coo_array": sparse.coo_array,
}


def softplus(z):
    z = np.asarray(z, dtype=LD)
    return np.maximum(z, 0) + np.log1p(np.exp(-np.abs(z)))


def sigmoid(z):
    z = np.asarray(z, dtype=LD)
    e = np.exp(-np.abs(z))
    return np.where(z >= 0, 1 / (1 + e), e / (1 + e))


class Ref:
    """value, gradient, Hessian of the documented losses, in extended precision."""

    def __init__(self, kind, A, b, alpha, delta=1.0):
        self.kind = kind
        self.A = np.array(A, dtype=LD)
        self.b = np.array(b, dtype=LD)
        self.alpha = LD(alpha)
        self.delta = LD(delta)

    def margins(self, x):
        return self.A @ np.asarray(x, dtype=LD)

    def point_loss(self, z, b):
        if self.kind == "log":
            # -b log s(z) - (1-b) log(1 - s(z))
            return b * softplus(-z) + (1 - b) * softplus(z)
        r = z - b
        if self.kind == "square":
            return r * r / 2
        a = np.abs(r)
        return np.where(a <= self.delta, r * r / 2, self.delta * (a - self.delta / 2))

    def point_deriv(self, z, b):
        if self.kind == "log":
            # s(z) - b without cancellation for b in {0, 1}
            return (1 - b) * sigmoid(z) - b * sigmoid(-z)
        r = z - b
        if self.kind == "square":
            return r
        return np.clip(r, -self.delta, self.delta)

    def value(self, x):
        x = np.asarray(x, dtype=LD)
        return self.point_loss(self.margins(x), self.b).mean() + self.alpha / 2 * (x @ x)

    def grad(self, x):
        x = np.asarray(x, dtype=LD)
        return self.A.T @ self.point_deriv(self.margins(x), self.b) / self.A.shape[0] + self.alpha * x

    def hess(self, x):
        n, p = self.A.shape
        z = self.margins(x)
        if self.kind == "log":
            d = sigmoid(z) * sigmoid(-z)
        elif self.kind == "square":
            d = np.ones(n, dtype=LD)
        else:
            raise ValueError
        return (self.A.T * d) @ self.A / n + self.alpha * np.eye(p)

    def cond_value(self, x):
        """size of the terms summed by any reasonable evaluation: scales rounding errors"""
        x = np.asarray(x, dtype=LD)
        az = np.abs(self.A) @ np.abs(x) + 1
        if self.kind == "square":
            az = (az + np.abs(self.b)) ** 2
        elif self.kind == "huber":
            az = (az + np.abs(self.b)) * (1 + self.delta)
            az = np.minimum(az, 1e300)
        return float(az.mean() + self.alpha * (x @ x))

    def cond_grad(self, x):
        x = np.asarray(x, dtype=LD)
        az = np.abs(self.A) @ np.abs(x) + np.abs(self.b)
        d = 1 + az * (1 if self.kind != "log" else 1)
        return np.asarray(np.abs(self.A).T @ d / self.A.shape[0] + self.alpha * np.abs(x), dtype=float)


def make_loss(cp, kind, A, b, alpha, delta=1.0):
    if kind == "log":
        return cp.loss.LogLoss(A, b, alpha)
    if kind == "square":
        return cp.loss.SquareLoss(A, b, alpha)
    return cp.loss.HuberLoss(A, b, alpha, delta)
