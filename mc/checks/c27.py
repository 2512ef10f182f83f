"""C27: the adapter for PyTorch losses, run against a stand-in for PyTorch."""
import itertools
import numpy as np
from mc import faketorch, gen
from mc.core import import_copt, show

torch = faketorch.install()
cp = import_copt()
import copt.utils_pytorch as up  # noqa: E402

PROPERTY = "C27"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state model checking of the real adapter closed by an executable model of PyTorch's tensors (values, layout, types, devices, reverse-mode tape and "
             "its refusals): every loss x shape x type x device x point, and every sequence of calls on two adapters, judged against closed formulas")
BOUNDS = {"quick": "13 losses x all shapes of up to 4 dimensions and 6 entries (3 ways of writing them) x 5 combinations of types x 3 devices x points over 3 letters; "
                   "all sequences of 3 calls out of 8 on two adapters; 4 solvers x 6 losses against the same loss in numpy",
          "thorough": "shapes of up to 12 entries, sequences of 4 calls"}
ASSUMPTIONS = ["PyTorch is replaced by mc/faketorch.py: what is shown is the adapter's use of PyTorch's documented behaviour, not PyTorch itself",
               "the variable is a floating-point vector, contiguous, and the loss depends on it; agreement up to rounding in the type of the variable"]


class Unmodelled(Exception):
    pass


def shapes(limit):
    out = []
    for nd in range(1, 5):
        for s in itertools.product(range(1, limit + 1), repeat=nd):
            if np.prod(s) <= limit:
                out.append(s)
    return out


def weights(shape):
    n = int(np.prod(shape))
    return (1.0 + (np.arange(n) * 7) % 5 + 0.125 * np.arange(n)).reshape(shape)


# ---- losses: on tensors, and value and gradient in closed form
def t_of(a, x):
    return torch.tensor(np.ascontiguousarray(a), dtype=x.dtype, device=x.device)


def rev(a):
    return a.permute(*range(a.ndim)[::-1])


def logistic_t(x):
    w = t_of(weights(x.shape) / 4, x)
    return torch.log(1 + torch.exp(-(w * x))).sum()


def logistic_n(X):
    w = weights(X.shape) / 4
    return np.log1p(np.exp(-w * X)).sum(), -w / (1 + np.exp(w * X))


def net_t(x):
    v = x.reshape(-1)
    n = v.numel()
    W = t_of(np.cos(np.arange(3 * n)).reshape(3, n), x).requires_grad_()
    return torch.tanh(W @ v).sum()


def net_n(X):
    v = X.reshape(-1)
    W = np.cos(np.arange(3 * v.size)).reshape(3, v.size)
    h = np.tanh(W @ v)
    return h.sum(), ((1 - h * h) @ W).reshape(X.shape)


def ends_n(X):
    v = X.reshape(-1)
    g = np.zeros_like(v)
    g[0] += v[-1]
    g[-1] += v[0]
    return v[0] * v[-1], g.reshape(X.shape)


def first_n(X):
    g = np.zeros_like(X)
    g[0] = 3 * X[0] ** 2
    return (X[0] ** 3).sum(), g


LOSSES = {
    "linear": (lambda x: (t_of(weights(x.shape), x) * x).sum(), lambda X: ((weights(X.shape) * X).sum(), weights(X.shape))),
    "quadratic": (lambda x: 0.5 * (t_of(weights(x.shape), x) * x ** 2).sum(), lambda X: (0.5 * (weights(X.shape) * X ** 2).sum(), weights(X.shape) * X)),
    "exponential": (lambda x: torch.exp(t_of(weights(x.shape), x) * x / 4).sum(),
                    lambda X: (np.exp(weights(X.shape) * X / 4).sum(), weights(X.shape) / 4 * np.exp(weights(X.shape) * X / 4))),
    "logistic": (logistic_t, logistic_n),
    "network": (net_t, net_n),
    "transposed": (lambda x: (rev(t_of(weights(x.shape), x)) * rev(x) ** 2).sum(), lambda X: ((weights(X.shape) * X ** 2).sum(), 2 * weights(X.shape) * X)),
    "one element": (lambda x: (t_of(weights(x.shape), x) * x).sum().reshape(1), lambda X: ((weights(X.shape) * X).sum(), weights(X.shape))),
    "mean": (lambda x: (x - 0.5).square().mean(), lambda X: (((X - 0.5) ** 2).mean(), 2 * (X - 0.5) / X.size)),
    "ends": (lambda x: x.flatten()[0] * x.flatten()[-1], ends_n),
    "first": (lambda x: (x[0] ** 3).sum(), first_n),
    "partly constant": (lambda x: (x.detach() * x).sum() + 2.0, lambda X: ((X ** 2).sum() + 2, X)),
    "distance": (lambda x: torch.abs(x - 0.3).sum(), lambda X: (np.abs(X - 0.3).sum(), np.sign(X - 0.3))),
    "negative": (lambda x: -torch.sin(x * t_of(weights(x.shape), x)).sum(), lambda X: (-np.sin(X * weights(X.shape)).sum(), -weights(X.shape) * np.cos(X * weights(X.shape)))),
}
KINDS = [("float64", None), ("float32", None), ("float64", "float64"), ("float64", "float32"), ("float32", "float64")]
DEVICES = ("cpu", "cuda:0", "cuda:1")
EPS = {"float64": 1e-12, "float32": 2e-5}


def cases(tier, seed):
    th = tier == "thorough"
    for i, ch in enumerate(gen.chunks(shapes(12 if th else 6), 6)):
        for loss in LOSSES:
            yield ["values", loss, ch]
    for loss in ("quadratic", "network", "transposed", "logistic"):
        for first in range(8):
            yield ["calls", loss, first, 4 if th else 3]
    for loss in ("quadratic", "logistic", "exponential", "network", "transposed", "mean"):
        yield ["solvers", loss]


def make(loss, shape, dev, dt, seen=None):
    t = LOSSES[loss][0]

    def f(x):
        if seen is not None:
            seen.append(x)
        return t(x)
    return up.make_func_and_grad(f, shape, torch.device(dev), **({} if dt is None else {"dtype": getattr(torch, dt)}))


def guarded(f):
    try:
        return f()
    except NotImplementedError as e:
        raise Unmodelled(str(e))
    except AttributeError as e:
        if "torch" in str(e) or "'Tensor'" in str(e):
            raise Unmodelled(str(e))
        raise


def number(v):
    return not isinstance(v, torch.Tensor) and np.ndim(v) == 0 and isinstance(v, (float, np.floating, np.ndarray))


def judge(ctx, loss, shape, dt, x, out, wanted, what):
    with np.errstate(all="ignore"):
        v, g = LOSSES[loss][1](np.asarray(x, dtype=float).reshape(shape))
    tol = EPS[dt]
    if not wanted:
        ctx.require(not isinstance(out, tuple) and number(out), lambda: "%s: returned %r where only the value was wanted" % (what(), out))
        ctx.close(float(out), v, tol, lambda: "%s: value" % what())
        return None
    ctx.require(isinstance(out, tuple) and len(out) == 2, lambda: "%s: returned %r instead of value and gradient" % (what(), out))
    ctx.require(isinstance(out[1], np.ndarray) and out[1].shape == (len(x),), lambda: "%s: the gradient is %r, expected a flat array of %d numbers" % (what(), out[1], len(x)))
    ctx.require(number(out[0]), lambda: "%s: the value is %r, not a number" % (what(), out[0]))
    ctx.close(float(out[0]), v, tol, lambda: "%s: value" % what())
    ctx.close(out[1], g.reshape(-1), tol * max(1, np.abs(g).max()), lambda: "%s: gradient" % what())
    return out[1]


def run(case, ctx):
    try:
        globals()["run_" + case[0]](ctx, *case[1:])
    except Unmodelled as e:
        print("C27: the stand-in for PyTorch does not model: %s" % e)
        ctx.count("unmodelled")


def run_values(ctx, loss, chunk):
    for shape in chunk:
        shape = tuple(shape)
        n = int(np.prod(shape))
        forms = [shape, list(shape), torch.Size(shape)]
        pts = list(gen.words((-1.5, 0.25, 2.0), n)) if n < 4 else [tuple(np.roll((-1.5, 0.25, 2.0, 0.75, -0.5, 1.0, -2.0, 0.1, 0.6, -0.9, 1.2, 0.0)[:n], k)) for k in range(n)]
        for (xt, dt), dev in itertools.product(KINDS, DEVICES):
            used = dt or xt
            for form in forms if dev == "cpu" else forms[:1]:
                seen = []
                f = guarded(lambda: make(loss, form, dev, dt, seen))
                for k, p in enumerate(pts):
                    x = np.array(p, dtype=xt)
                    keep = x.copy()
                    what = lambda: "%s loss, shape %s, %s variable as %s on %s, at %s" % (loss, shape, xt, used, dev, show(x))
                    del seen[:]
                    mode = k % 4
                    out = guarded(lambda: f(x) if mode < 2 else f(x, True) if mode == 2 else f(x, return_gradient=True))
                    judge(ctx, loss, shape, used, x, out, True, what)
                    only = guarded(lambda: f(x, False) if mode < 2 else f(x, return_gradient=False))
                    judge(ctx, loss, shape, used, x, only, False, what)
                    ctx.require(np.array_equal(x, keep), lambda: "%s: the caller's variable is modified" % what())
                    for t in seen:
                        ctx.require(tuple(t.shape) == shape, lambda: "%s: the loss is given shape %s" % (what(), tuple(t.shape)))
                        ctx.require(t.dtype is getattr(torch, used), lambda: "%s: the loss is given type %s" % (what(), t.dtype))
                        ctx.require(t.device == torch.device(dev), lambda: "%s: the loss is given a tensor on %s" % (what(), t.device))
                        ctx.require(np.array_equal(t._a, x.astype(used).reshape(shape)), lambda: "%s: the loss is evaluated at %s" % (what(), show(t._a)))
                    ctx.state(loss, shape, xt, dt, dev, p)
                    ctx.step(2)
    ctx.trace()


def run_calls(ctx, loss, first, depth):
    """sequences of calls on two adapters: what is returned depends on the call alone, and stays what it was"""
    shape = (2, 3)
    pts = [np.array([-1.5, 0.25, 2.0, 0.75, -0.5, 1.0]), np.array([0.1, 0.6, -0.9, 1.2, 0.0, -2.0])]
    calls = list(itertools.product((0, 1), (0, 1), (True, False)))
    for rest in itertools.product(range(len(calls)), repeat=depth - 1):
        fs = [guarded(lambda: make(loss, shape, "cpu", None)), guarded(lambda: make("mean", (3, 2), "cuda:0", "float64"))]
        held = []
        x = np.empty(6)
        for k, c in enumerate((first,) + rest):
            who, pt, wanted = calls[c]
            # the same memory is used for every variable, as a solver does
            x[:] = pts[pt]
            what = lambda: "call %d of %s" % (k, [calls[i] for i in (first,) + rest])
            out = guarded(lambda: fs[who](x, return_gradient=wanted))
            g = judge(ctx, (loss, "mean")[who], (shape, (3, 2))[who], "float64", x, out, wanted, what)
            if g is not None:
                for a, b in held:
                    ctx.require(not np.shares_memory(a, g), lambda: "%s: the gradient lives in the memory of an earlier one" % what())
                held.append((g, g.copy()))
                if not np.shares_memory(g, x):
                    ctx.require(g.flags.writeable, lambda: "%s: read-only gradient" % what())
                else:
                    ctx.fail("%s: the gradient lives in the memory of the variable" % what())
            for a, b in held:
                ctx.require(np.array_equal(a, b), lambda: "%s: an earlier gradient changes" % what())
            if k % 2 and held:
                held[-1][0][:] = 77.0
                held.pop()
            ctx.step()
        ctx.state(loss, first, rest)
        ctx.trace()


def run_solvers(ctx, loss):
    l1 = cp.penalty.L1Norm(0.05)
    ball = cp.constraint.L1Ball(2.0)
    box = cp.constraint.LinfBall(1.5)
    for shape in ((6,), (2, 3), (3, 1, 2), (1, 2, 3, 1)):
        for dev in DEVICES[:2]:
            adapted = guarded(lambda: make(loss, shape, dev, "float64"))

            def plain(x, return_gradient=True):
                v, g = LOSSES[loss][1](np.asarray(x, dtype=float).reshape(shape))
                return (v, g.reshape(-1)) if return_gradient else v
            x0 = np.array([0.3, -0.2, 0.1, 0.4, -0.5, 0.2])
            runs = {
                "pg": lambda f: cp.minimize_proximal_gradient(f, x0, prox=l1.prox, jac=True, max_iter=15, tol=0),
                "pg-acc": lambda f: cp.minimize_proximal_gradient(f, x0, prox=box.prox, jac=True, accelerated=True, max_iter=15, tol=0),
                "fw": lambda f: cp.minimize_frank_wolfe(f, x0, ball.lmo, jac=True, step="backtracking", max_iter=10, tol=0),
                "three": lambda f: cp.minimize_three_split(f, x0, l1.prox, box.prox, max_iter=15, tol=0),
                "pd": lambda f: cp.minimize_primal_dual(f, x0, l1.prox, box.prox, max_iter=15, tol=0),
            }
            for name, r in runs.items():
                seqs = []
                for f in (adapted, plain):
                    xs = []
                    k0 = x0.copy()
                    guarded(lambda: r(_spy(f, xs)))
                    ctx.require(np.array_equal(x0, k0), lambda: "%s: the starting point is modified" % name)
                    seqs.append(xs)
                n = min(map(len, seqs))
                # the evaluation points of the two runs agree until rounding decides a comparison differently
                m = min(n, 12)
                ctx.require(n > 3, lambda: "%s ends after %d evaluations" % (name, n))
                for k in range(m):
                    ctx.close(seqs[0][k], seqs[1][k], 1e-7, lambda: "%s on the %s loss of shape %s: evaluation %d" % (name, loss, shape, k))
                    ctx.state(name, loss, shape, seqs[1][k])
                ctx.step(m)
    ctx.trace()


def _spy(f, xs):
    def g(x, *a, **k):
        xs.append(np.array(x))
        return f(x, *a, **k)
    return g
