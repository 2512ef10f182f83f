"""The caller's side of the API: a heap of arguments in chosen representations, every public operation on it,
and fingerprints of everything the caller owns."""
import numpy as np
from scipy import sparse
from mc.core import import_copt
from mc.data import FORMATS
from mc.draws import answering
from mc.catalog import Counter

cp = import_copt()


# ------------------------------------------------------------ representations
def _strided(v):
    big = np.full(2 * len(v) + 1, 77.0, dtype=np.asarray(v).dtype)
    big[1::2] = v
    return big[1::2]


def _reversed(v):
    return np.array(v[::-1])[::-1]


def _column(v):
    M = np.full((len(v), 3), 55.0, order="C")
    M[:, 1] = v
    return M[:, 1]


def _readonly(v):
    out = np.array(v)
    out.flags.writeable = False
    return out


def integral(v):
    return np.array_equal(np.asarray(v), np.round(v))


VEC = {
    "array": lambda v: np.array(v, dtype=float),
    "readonly": lambda v: _readonly(np.array(v, dtype=float)),
    "strided": lambda v: _strided(np.array(v, dtype=float)),
    "reversed": lambda v: _reversed(np.array(v, dtype=float)),
    "column": lambda v: _column(np.array(v, dtype=float)),
}
NUM = {
    "int": lambda v: np.array(v, dtype=int),
    "int32": lambda v: np.array(v, dtype=np.int32),
    "float32": lambda v: np.array(v, dtype=np.float32),
}
SEQ = {
    "list": lambda v: [float(a) for a in v],
    "tuple": lambda v: tuple(float(a) for a in v),
    "intlist": lambda v: [int(a) for a in v],
}


def vec_reps(v, seq=False):
    """names of the representations that hold exactly the numbers of v"""
    out = list(VEC)
    if np.array_equal(np.asarray(v, dtype=np.float32).astype(float), v):
        out.append("float32")
    if integral(v):
        out += ["int", "int32"]
    if seq:
        out += ["list", "tuple"] + (["intlist"] if integral(v) else [])
    return out


def vec(v, rep):
    return {**VEC, **NUM, **SEQ}[rep](v)


def _ro_csr(A):
    M = sparse.csr_matrix(A)
    for a in (M.data, M.indices, M.indptr):
        a.flags.writeable = False
    return M


def _unsorted(A):
    M = sparse.csr_matrix(A)
    data, indices = M.data.copy(), M.indices.copy()
    for i in range(M.shape[0]):
        s = slice(M.indptr[i], M.indptr[i + 1])
        data[s], indices[s] = data[s][::-1].copy(), indices[s][::-1].copy()
    return sparse.csr_matrix((data, indices, M.indptr.copy()), shape=M.shape)


def _dups(A):
    """every entry as the sum of two stored ones, plus an explicitly stored zero row end"""
    M = sparse.csr_matrix(A)
    data, indices, indptr = [], [], [0]
    for i in range(M.shape[0]):
        for j in range(M.indptr[i], M.indptr[i + 1]):
            data += [M.data[j] - 1.0, 1.0]
            indices += [M.indices[j]] * 2
        indptr.append(len(data))
    return sparse.csr_matrix((np.array(data), np.array(indices), np.array(indptr)), shape=M.shape)


def _explicit_zeros(A):
    B = np.array(A, dtype=float)
    n, p = B.shape
    return sparse.csr_matrix((B.ravel(), np.tile(np.arange(p), n), np.arange(0, n * p + 1, p)), shape=(n, p))


MAT = dict(FORMATS)
MAT.update({
    "readonly": _readonly,
    "strided": lambda A: np.repeat(np.repeat(np.array(A), 2, 0), 2, 1)[::2, ::2],
    "flipped": lambda A: np.array(A)[::-1, ::-1].copy()[::-1, ::-1],
    "int": lambda A: np.array(A, dtype=int),
    "float32": lambda A: np.array(A, dtype=np.float32),
    "csr_int": lambda A: sparse.csr_matrix(np.array(A, dtype=int)),
    "csr_float32": lambda A: sparse.csr_matrix(np.array(A, dtype=np.float32)),
    "csr_readonly": _ro_csr,
    "csr_unsorted": _unsorted,
    "csr_duplicates": _dups,
    "csr_zeros": _explicit_zeros,
    "csr_int64": lambda A: _idx64(sparse.csr_matrix(A)),
})


def _idx64(M):
    M.indices = M.indices.astype(np.int64)
    M.indptr = M.indptr.astype(np.int64)
    return M


def mat_reps(A):
    A = np.asarray(A)
    out = [k for k in MAT]
    if not integral(A):
        out = [k for k in out if "int" not in k or k == "csr_int64"]
    if not np.array_equal(A.astype(np.float32).astype(float), A):
        out = [k for k in out if "float32" not in k]
    return out


# ------------------------------------------------------------ fingerprints
def freeze(o):
    """everything a caller can see of o, as a hashable value"""
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("obj", o.shape, tuple(freeze(e) for e in o.ravel()))
        return ("arr", o.dtype.str, o.shape, o.tobytes())
    if sparse.issparse(o):
        parts = []
        for k in ("data", "indices", "indptr", "row", "col", "offsets", "rows"):
            if hasattr(o, k):
                parts.append((k, freeze(getattr(o, k))))
        if o.format == "dok":
            parts.append(tuple(sorted((tuple(map(int, k)), float(v)) for k, v in o.items())))
        return ("sp", o.format, o.shape, tuple(parts))
    if isinstance(o, dict):
        return ("dict", tuple((freeze(k), freeze(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(freeze(e) for e in o))
    if isinstance(o, (int, float, str, bool, type(None), np.generic)):
        return repr(o)
    if type(o).__module__.startswith("copt"):
        return ("copt", type(o).__name__, tuple((k, freeze(v)) for k, v in sorted(vars(o).items())
                                                if not k.startswith("_") and not callable(v)))
    return ("opaque",)


def values(r):
    """what a result says, as {name: array}; for comparisons up to rounding"""
    if sparse.issparse(r):
        r = r.toarray()
    if isinstance(r, dict):  # OptimizeResult too
        out = {}
        for k in ("x", "nit", "success", "certificate", "step_size"):
            if k in r and r[k] is not None and k != "step_size":
                out[k] = np.asarray(r[k], dtype=float)
        return out
    if isinstance(r, tuple):
        out = {}
        for i, e in enumerate(r):
            if e is None or isinstance(e, (tuple, list, dict, str)):
                out[str(i)] = np.asarray([float(v) for v in e]) if isinstance(e, (tuple, list)) else np.zeros(0)
                continue
            out[str(i)] = values(e)["r"]
        return out
    if sparse.issparse(r):
        r = r.toarray()
    return {"r": np.asarray(r, dtype=float)}


def arrays_in(r):
    """the arrays of a result"""
    if isinstance(r, np.ndarray):
        return [r]
    if sparse.issparse(r):
        return [r]
    if isinstance(r, dict):
        return [a for v in dict.values(r) for a in arrays_in(v)]
    if isinstance(r, (tuple, list)):
        return [a for v in r for a in arrays_in(v)]
    return []


# ------------------------------------------------------------ the heap
DATA = [
    # A, b, x0 (general), u (direction), vertex start
    dict(A=[[1, -2, 0, 1], [0, 2, 1, 0], [-1, 0, 2, 3], [1, 1, 0, -1], [0, 0, -1, 2]], b=[1, 0, 0, 1, 1],
         x=[1, -2, 0, 3], u=[2, -1, 3, 1], v=[1, 0, 0, 0]),
    dict(A=[[0.5, 1.25, 0, 0], [0, 0, 0, 0], [2, 0, -0.75, 1]], b=[0, 1, 0.5],
         x=[0.5, -0.25, 1.5, 2], u=[-0.5, 1.5, 0.25, -2], v=[0, 0, -1, 0]),
    dict(A=[[3, 0, 1, 2], [0, 1, 0, 0], [1, 0, 0, 2], [0, 0, 2, 0]], b=[1, 0, 0, 1],
         x=[0, 0, 2, -1], u=[1, -3, 0, 2], v=[0, 1, 0, 0]),
    dict(A=[[1, 0.5, 0, 0], [0, -1, 2, 0]], b=[1, 0], x=[0.25, 0.75, -1, 0], u=[0, 0, 0, 1.5], v=[1, 0, 0, 0]),
]


GROUPS = {
    "lists": lambda g: [list(a) for a in g],
    "tuples": lambda g: tuple(tuple(a) for a in g),
    "arrays": lambda g: [np.array(a) for a in g],
    "int32": lambda g: [np.array(a, dtype=np.int32) for a in g],
    "ranges": lambda g: [range(a[0], a[-1] + 1) for a in g],
}


class _Duck:
    """has .shape, .matvec and .rmatvec, as the documentation asks for"""

    def __init__(self, M):
        self.M, self.shape, self.dtype = M, M.shape, M.dtype

    def matvec(self, v):
        return self.M @ v

    def rmatvec(self, v):
        return self.M.T @ v


OPERATORS = {
    "linop": lambda M: sparse.linalg.aslinearoperator(M),
    "duck": _Duck,
    "matrix": np.asmatrix,
    "linop_nodtype": lambda M: sparse.linalg.LinearOperator(M.shape, matvec=lambda v: M @ v, rmatvec=lambda v: M.T @ v),
}


class Heap:
    """The caller's data; loss objects are made on first use and shared by all later operations."""

    def __init__(self, i=0, vec_rep="array", mat_rep="csr", b_rep="array", L_rep="dense", groups_rep="lists", variant=0):
        """variant: other parameters (weights, radii, steps, groups, shapes, limits) for the same data"""
        d = DATA[i]
        self.i = i
        self.variant = variant
        self.q = (1.0, 1.75, 0.4)[variant]
        self.A = MAT[mat_rep](np.array(d["A"], dtype=float))
        self.b = vec(d["b"], b_rep)
        self.x = vec(d["x"], vec_rep)
        self.v = vec(d["v"] if variant == 0 else np.array(d["v"]) * self.q, vec_rep)
        plain = vec_rep if vec_rep in VEC or vec_rep in NUM else "array"
        self.xa = vec(d["x"], plain)
        self.u = vec(d["u"], plain if integral(d["u"]) or plain not in ("int", "int32") else "array")
        self.va = vec(d["v"] if variant == 0 else np.array(d["v"]) * self.q, plain)
        self.rep = (float(np.sign(d["v"][int(np.argmax(np.abs(d["v"])))])), int(np.argmax(np.abs(d["v"]))))
        self.groups = GROUPS[groups_rep]([[[0], [1, 2], [3]], [[0, 1], [2, 3]], [[1, 2, 3]]][variant])
        self.image = ((2, 2), (1, 4), (4, 1))[variant]
        D = np.array([[1.0, -1, 0, 0], [0, 1, -1, 0], [0, 0, 1, -1]])
        self.L = {**MAT, **OPERATORS}[L_rep](D)
        self.Ls = sparse.csr_matrix(D)
        self.active = {(1.0, 0): 0.5, (-1.0, 2): 0.25, (1.0, 3): 0.25}
        self.args = (np.array([1.0, 0.5, -1.0, 0.25]) * self.q, [2.0])
        self.n, self.p = np.shape(d["A"])
        self.lip = 12.0 * self.q
        self._made = {}
        self.returned = []

    def get(self, name, make):
        if name not in self._made:
            self._made[name] = make()
        return self._made[name]

    def loss(self, kind):
        c = {"log": cp.loss.LogLoss, "square": cp.loss.SquareLoss, "huber": cp.loss.HuberLoss}[kind]
        more = (self.q,) if kind == "huber" else ()
        return self.get("loss-" + kind, lambda: c(self.A, self.b, 0.1 * self.q, *more))

    def pen(self, kind):
        return self.get("pen-" + kind, lambda: {
            "l1": lambda: cp.penalty.L1Norm(0.2 * self.q), "group": lambda: cp.penalty.GroupL1(0.2 * self.q, self.groups),
            "fused": lambda: cp.penalty.FusedLasso(0.2 * self.q), "trace": lambda: cp.penalty.TraceNorm(0.2 * self.q, self.image),
            "tv2d": lambda: cp.penalty.TotalVariation2D(0.2 * self.q, self.image),
            "linf": lambda: cp.constraint.LinfBall(0.6 * self.q), "l2": lambda: cp.constraint.L2Ball(0.9 * self.q),
            "l1ball": lambda: cp.constraint.L1Ball(1.0 * self.q), "simplex": lambda: cp.constraint.SimplexConstraint(1.0 * self.q),
            "traceball": lambda: cp.constraint.TraceBall(1.5 * self.q, self.image),
        }[kind]())

    def blocks(self, kind):
        p = self.p
        return self.get("blocks-" + kind, lambda: {
            "l1": lambda: self.pen("l1").prox_factory(p), "group": lambda: self.pen("group").prox_factory(p),
            "f1": lambda: self.pen("fused").prox_1_factory(p), "f2": lambda: self.pen("fused").prox_2_factory(p),
        }[kind]())

    def owned(self):
        """(name, object) of everything the caller owns"""
        out = [(k, getattr(self, k)) for k in ("A", "b", "x", "v", "xa", "u", "va", "groups", "L", "Ls", "active", "args", "rep")]
        out += [(k, v[1] if isinstance(v, tuple) else v) for k, v in self._made.items()]
        return out

    def frozen(self):
        return {k: freeze(v) for k, v in self.owned()}


class Op:
    def __init__(self, name, fn, uses, solver=False, random=False, in_place=()):
        self.name, self.fn, self.uses, self.solver, self.random, self.in_place = name, fn, uses, solver, random, in_place

    def run(self, h, **kw):
        """kw: for solvers, callback and max_iter"""
        if not self.solver:
            return self.fn(h)
        kw.setdefault("max_iter", (9, 4, 7)[h.variant])
        kw.setdefault("tol", 0.0)
        if self.random:
            with answering(Counter().draws()):
                return self.fn(h, kw)
        return self.fn(h, kw)


PENS = ("l1", "group", "fused", "trace", "tv2d", "linf", "l2", "l1ball", "simplex", "traceball")


def operations():
    out = []

    def add(name, uses, fn, **k):
        out.append(Op(name, fn, uses, **k))

    # ---- kernels
    for nm in PENS:
        add("prox-" + nm, ("xa",), lambda h, nm=nm: h.pen(nm).prox(h.xa, 0.5 * h.q))
    for nm in ("l1", "group", "fused", "trace", "tv2d", "l1ball", "traceball"):
        add("value-" + nm, ("xa",), lambda h, nm=nm: h.pen(nm)(h.xa))
    for nm in ("l1ball", "simplex"):
        add("lmo-" + nm, ("u", "va"), lambda h, nm=nm: {"l1ball": cp.constraint.L1Ball, "simplex": cp.constraint.SimplexConstraint}[nm](0.625 * h.q).lmo(h.u, h.va)[0])
    add("lmo-traceball", ("u", "va"), lambda h: h.pen("traceball").lmo(np.asarray(h.u, dtype=float), h.va)[0])
    add("lmo-pairwise", ("u", "va"), lambda h: cp.constraint.L1Ball(0.625 * h.q).lmo_pairwise(h.u, h.va, h.active)[:1])
    add("tv1d", ("xa",), lambda h: cp.tv_prox.prox_tv1d(h.xa, 0.4 * h.q))
    for f in ("prox_tv1d_rows", "prox_tv1d_cols"):
        add(f, ("xa",), lambda h, f=f: getattr(cp.tv_prox, f)(0.4 * h.q, h.xa, *h.image))
    add("tv2d", ("xa",), lambda h: cp.tv_prox.prox_tv2d(h.xa, 0.4 * h.q, *h.image))
    add("proj-simplex", ("xa",), lambda h: cp.constraint.euclidean_proj_simplex(h.xa, h.q))
    add("proj-simplex-id", ("va",), lambda h: cp.constraint.euclidean_proj_simplex(h.va))
    add("proj-l1", ("xa",), lambda h: cp.constraint.euclidean_proj_l1ball(h.xa, h.q))
    for k in ("log", "square", "huber"):
        add("loss-%s-value" % k, ("A", "b", "xa"), lambda h, k=k: h.loss(k)(h.xa))
        add("loss-%s-grad" % k, ("A", "b", "xa"), lambda h, k=k: h.loss(k).f_grad(h.xa))
        add("loss-%s-lip" % k, ("A", "b"), lambda h, k=k: h.loss(k).lipschitz)
        if k != "huber":
            add("loss-%s-maxlip" % k, ("A", "b"), lambda h, k=k: h.loss(k).max_lipschitz)
            add("loss-%s-deriv" % k, ("b",), lambda h, k=k: h.loss(k).partial_deriv(np.linspace(-2, 2, h.n), h.b))
    add("loss-log-hess", ("A", "b", "xa", "u"), lambda h: h.loss("log").hessian_mv(h.xa)(h.u))
    add("loss-log-hesst", ("A", "b", "xa", "u"), lambda h: h.loss("log").hessian_trace(h.xa)(h.u))
    add("init-lip", ("A", "b", "xa"), lambda h: cp.utils.init_lipschitz(h.loss("log").f_grad, np.asarray(h.xa, dtype=float)))
    add("max-lip", ("A",), lambda h: cp.utils.get_max_lipschitz(h.A, "logloss", 0.1 * h.q))
    add("csr-mv", ("A",), lambda h: _mv(h))
    add("csr-vm", ("A",), lambda h: _vm(h))
    add("sparse-add", ("A", "xa"), lambda h: cp.utils.safe_sparse_add(h.A, h.A))
    for k in ("l1", "group", "f1", "f2"):
        add("blockprox-" + k, (), lambda h, k=k: _block(h, k))

    # ---- solvers
    def s(name, uses, fn, **k):
        out.append(Op(name, fn, uses, solver=True, **k))

    def fw(nm, step, con="l1ball", pair=False, lip=False, loss="log"):
        def fn(h, kw):
            c = h.pen(con)
            f = h.loss(loss).f_grad
            return cp.minimize_frank_wolfe(f, h.v, c.lmo_pairwise if pair else c.lmo, x0_rep=h.rep, step=(lambda d: min(1.0, h.q * step(d))) if callable(step) else step,
                                           variant="pairwise" if pair else "vanilla", lipschitz=h.lip if lip else None, **kw)
        s("fw-" + nm, ("A", "b", "v"), fn)

    fw("bt", "backtracking")
    fw("bt-huber", "backtracking", loss="huber")
    fw("dr", "DR", lip=True)
    fw("dr-square", "DR", lip=True, loss="square")
    fw("sub", "sublinear", loss="square")
    fw("call", lambda d: 0.25)
    fw("pair-bt", "backtracking", pair=True)
    fw("pair-dr", "DR", pair=True, lip=True, loss="square")
    fw("trace-bt", "backtracking", con="traceball")

    def fw_args(h, kw):
        return cp.minimize_frank_wolfe(lambda x, c, m: ((x - c) @ (x - c) * m[0], 2 * m[0] * (x - c)), h.v, h.pen("l1ball").lmo, args=h.args, **kw)
    s("fw-args", ("v",), fw_args)

    def pg(nm, pen=None, acc=False, step="backtracking", loss="log"):
        def fn(h, kw):
            return cp.minimize_proximal_gradient(h.loss(loss).f_grad, h.x, prox=None if pen is None else h.pen(pen).prox,
                                                 accelerated=acc, step=(lambda d: h.q * step(d)) if callable(step) else step, **kw)
        s("pg-" + nm, ("A", "b", "x"), fn)

    for acc in (False, True):
        a = "acc-" if acc else ""
        pg(a + "none", acc=acc)
        pg(a + "call", "l1", acc=acc, step=lambda d: 0.05)
    for k in PENS:
        pg(k, k)
    for k in ("l1", "l2", "fused", "traceball"):
        pg("acc-" + k, k, acc=True)
    pg("square-l1", "l1", loss="square")
    pg("huber-linf", "linf", loss="huber")

    def pg_args(h, kw):
        return cp.minimize_proximal_gradient(lambda x, c, m: (x - c) @ (x - c) * m[0], h.x, prox=h.pen("l1").prox,
                                             jac=lambda x, c, m: 2 * m[0] * (x - c), args=h.args, **kw)
    s("pg-args", ("x",), pg_args)

    def pg_num(h, kw):
        return cp.minimize_proximal_gradient(lambda x, c, m: (x - c) @ (x - c) * m[0], h.x, jac="2-point", args=h.args, step=lambda d: 0.2 * h.q, **kw)
    s("pg-numgrad", ("x",), pg_num)

    def three(nm, p1=None, p2=None, loss="log", **more):
        def fn(h, kw):
            return cp.minimize_three_split(h.loss(loss).f_grad, h.x, prox_1=p1 and h.pen(p1).prox, prox_2=p2 and h.pen(p2).prox, **{k: m if isinstance(m, bool) else m * h.q for k, m in more.items()}, **kw)
        s("three-" + nm, ("A", "b", "x"), fn)

    three("none")
    three("l1-linf", "l1", "linf")
    three("fused-l2", "fused", "l2", loss="square")
    three("l2-l1ball", "l2", "l1ball", loss="huber")
    three("simplex-group", "simplex", "group")
    three("fixed", "linf", "l1", step_size=0.05, line_search=False)
    three("hlip", "linf", "l1", h_Lipschitz=0.3)
    three("trace-tv", "trace", "tv2d", step_size=2.0)

    def pd(nm, p1=None, p2=None, L=None, loss="log", **more):
        def fn(h, kw):
            op = {None: None, "dense": h.L, "sparse": h.Ls, "linop": None if L != "linop" else sparse.linalg.aslinearoperator(h.L)}[L]
            return cp.minimize_primal_dual(h.loss(loss).f_grad, h.x, prox_1=p1 and h.pen(p1).prox, prox_2=p2 and h.pen(p2).prox, L=op, **{k: m if isinstance(m, bool) else m * h.q for k, m in more.items()}, **kw)
        s("pd-" + nm, ("A", "b", "x"), fn)

    pd("none")
    pd("l1-linf", "l1", "linf")
    pd("dense", "linf", "l1", "dense")
    pd("sparse", "simplex", "l1", "sparse", loss="square")
    pd("linop", None, "l2", "linop", loss="huber")
    pd("fixed", "l1", "linf", step_size=0.05, step_size2=0.5, line_search=False)

    def vr(nm, solver, bl=None, kind="log", alpha=0.0):
        def fn(h, kw):
            return solver(h.loss(kind).partial_deriv, h.A, h.b, h.x, 0.01 * h.q, prox=None if bl is None else h.blocks(bl), alpha=alpha * h.q, **kw)
        s(nm, ("A", "b", "x"), fn, random=True)

    for nm, sv in (("saga", cp.minimize_saga), ("svrg", cp.minimize_svrg)):
        vr(nm, sv)
        vr(nm + "-l1", sv, "l1", alpha=0.1)
        vr(nm + "-group", sv, "group", "square")

    def vrt(nm, b1=None, b2=None):
        def fn(h, kw):
            return cp.minimize_vrtos(h.loss("log").partial_deriv, h.A, h.b, h.x, 0.01 * h.q, prox_1=None if b1 is None else h.blocks(b1),
                                     prox_2=None if b2 is None else h.blocks(b2), **kw)
        s(nm, ("A", "b", "x"), fn, random=True)

    vrt("vrtos")
    vrt("vrtos-l1-group", "l1", "group")
    vrt("vrtos-fused", "f1", "f2")

    def sfw(nm, variant, bs=1, step="sublinear", pair=False):
        def fn(h, kw):
            c = h.pen("l1ball")
            return cp.minimize_sfw(h.loss("log").partial_deriv, h.A, h.b, h.v, c.lmo_pairwise if pair else c.lmo, x0_rep=h.rep,
                                   batch_size=min(bs + (h.variant == 1), h.n), step_size=(lambda d: tuple(min(1.0, h.q * v) for v in step(d))) if callable(step) else step, lipschitz=h.lip if step == "DR" else None, variant=variant,
                                   lmo_variant="pairwise" if pair else "vanilla", **kw)
        s("sfw-" + nm, ("A", "b", "v"), fn, random=True)

    for v in ("SAG", "SAGA", "MHK", "LF"):
        sfw(v, v)
        sfw(v + "-batch", v, bs=2)
        sfw(v + "-dr", v, step="DR")
    sfw("pair", "SAG", step="DR", pair=True)
    sfw("call", "SAG", step=lambda d: (0.2, 0.5))
    return {o.name: o for o in out}


def _rows(h):
    return np.array([0, h.n - 1, 0, 1 % h.n])


def _mv(h):
    M = sparse.csr_matrix(h.A)
    return cp.utils.fast_csr_mv(M.data, M.indptr, M.indices, np.asarray(h.args[0]), _rows(h))


def _vm(h):
    M = sparse.csr_matrix(h.A)
    return cp.utils.fast_csr_vm(np.array([1.0, -2.0, 0.5, 3.0]), M.data, M.indptr, M.indices, h.p, _rows(h))


def _block(h, k):
    prox, B = h.blocks(k)
    x = np.array([0.9, -1.4, 0.3, 2.0])
    nb = B.shape[0]
    indices = np.arange(nb, dtype=np.int64)[::-1].copy()
    indptr = np.array([0, nb // 2, nb], dtype=np.int64)
    d = np.linspace(0.5, 2, nb)
    before = (indices.copy(), indptr.copy(), d.copy())
    prox(x, 0, indices, indptr, d, 0.7 * h.q)
    prox(x, 1, indices, indptr, d, 0.7 * h.q)
    for a, c in zip((indices, indptr, d), before):
        if not np.array_equal(a, c):
            from mc.core import Violation
            raise Violation("block-wise proximal operator of %s modifies its index arrays or weights" % k)
    return x


OPS = operations()
