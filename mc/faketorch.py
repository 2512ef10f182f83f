"""A small stand-in for PyTorch: the part of its documented behaviour an adapter between arrays and tensors can observe.

Tensors hold a numpy array, a device name and a tape for reverse-mode differentiation. What PyTorch refuses is refused
here as well: arrays of tensors that require gradients or live on another device, backward() through a freed graph or
from several elements, gradients of integers, in-place changes of leaves, views of incompatible layouts, arithmetic
across devices."""
import sys
import types
import numpy as np


class dtype:
    def __init__(self, name, np_type):
        self.name, self.np = name, np.dtype(np_type)
        self.is_floating_point = self.np.kind == "f"
        self.is_complex = False

    def __repr__(self):
        return "torch." + self.name


TYPES = {n: dtype(n, t) for n, t in (("float64", "f8"), ("float32", "f4"), ("float16", "f2"), ("int64", "i8"), ("int32", "i4"), ("int16", "i2"),
                                     ("int8", "i1"), ("uint8", "u1"), ("bool", "?"))}
OF = {d.np: d for d in TYPES.values()}


class device:
    def __init__(self, name="cpu", index=None):
        if isinstance(name, device):
            name, index = name.type, name.index
        if isinstance(name, int):
            name, index = "cuda", name
        t, _, i = str(name).partition(":")
        if t not in ("cpu", "cuda", "mps"):
            raise RuntimeError("Expected one of cpu, cuda, mps device type at start of device string: %s" % name)
        self.type = t
        self.index = int(i) if i else index
        if t == "cuda" and self.index is None:
            self.index = 0

    def __eq__(self, o):
        return isinstance(o, device) and (self.type, self.index) == (o.type, o.index)

    def __hash__(self):
        return hash((self.type, self.index))

    def __repr__(self):
        return "device(type='%s'%s)" % (self.type, "" if self.index is None else ", index=%d" % self.index)

    def __str__(self):
        return self.type + ("" if self.index is None else ":%d" % self.index)


CPU = device("cpu")


class Size(tuple):
    def numel(self):
        return int(np.prod(self, dtype=int))


class _Grad:
    on = True


class _mode:
    def __init__(self, on):
        self.new, self.old = on, None

    def __enter__(self):
        self.old = _Grad.on
        _Grad.on = self.new
        return self

    def __exit__(self, *a):
        _Grad.on = self.old
        return False

    def __call__(self, f):
        def g(*a, **k):
            with _mode(self.new):
                return f(*a, **k)
        return g


class no_grad(_mode):
    def __init__(self, f=None):
        _mode.__init__(self, False)


class enable_grad(_mode):
    def __init__(self, f=None):
        _mode.__init__(self, True)


class set_grad_enabled(_mode):
    def __init__(self, on):
        _mode.__init__(self, bool(on))
        self.__enter__()


def is_grad_enabled():
    return _Grad.on


class Node:
    """one operation of the tape: (input tensor, function from the output's to the input's gradient) pairs"""

    def __init__(self, pairs):
        self.pairs, self.freed = pairs, False

    def __repr__(self):
        return "<Backward>"


def _fit(g, shape):
    """sum a gradient over broadcast dimensions"""
    while g.ndim > len(shape):
        g = g.sum(axis=0)
    for i, n in enumerate(shape):
        if n == 1 and g.shape[i] != 1:
            g = g.sum(axis=i, keepdims=True)
    return g


def _shape(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        a = tuple(a[0])
    return tuple(int(i) for i in a)


class Tensor:
    __array_priority__ = 1000

    def __init__(self, a, dev=CPU, node=None, requires=False):
        self._a, self._dev, self.grad_fn = a, dev, node
        self._req = bool(requires) or node is not None
        self._grad = None
        self._keep = False
        self._version = 0

    # ---- description
    dtype = property(lambda s: OF[s._a.dtype])
    device = property(lambda s: s._dev)
    shape = property(lambda s: Size(s._a.shape))
    ndim = property(lambda s: s._a.ndim)
    is_leaf = property(lambda s: s.grad_fn is None)
    is_cuda = property(lambda s: s._dev.type == "cuda")
    layout = property(lambda s: "strided")

    def size(self, i=None):
        return self.shape if i is None else self.shape[i]

    def dim(self):
        return self._a.ndim

    def numel(self):
        return self._a.size
    nelement = numel

    def stride(self):
        return tuple(s // self._a.itemsize for s in self._a.strides)

    def is_contiguous(self):
        return bool(self._a.flags.c_contiguous)

    def is_floating_point(self):
        return self.dtype.is_floating_point

    def __len__(self):
        return len(self._a)

    def __repr__(self):
        return "tensor(%s)" % (self._a.tolist(),)

    def __bool__(self):
        return bool(self._a)

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    # ---- gradients
    @property
    def requires_grad(self):
        return self._req

    @requires_grad.setter
    def requires_grad(self, v):
        if v and not self.dtype.is_floating_point:
            raise RuntimeError("only Tensors of floating point dtype can require gradients")
        if not v and self.grad_fn is not None:
            raise RuntimeError("you can only change requires_grad flags of leaf variables.")
        self._req = bool(v)

    def requires_grad_(self, v=True):
        self.requires_grad = v
        return self

    @property
    def grad(self):
        return self._grad

    @grad.setter
    def grad(self, g):
        if g is not None and g.shape != self.shape:
            raise RuntimeError("assigned grad has data of a different size")
        self._grad = g

    def retain_grad(self):
        if not self._req:
            raise RuntimeError("can't retain_grad on Tensor that has requires_grad=False")
        self._keep = True

    def zero_(self):
        self._inplace()
        self._a[...] = 0
        return self

    def _inplace(self):
        if self._req and self.grad_fn is None and _Grad.on:
            raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation.")
        if self._req and self.grad_fn is not None:
            raise NotImplementedError("in-place changes of intermediate results are not modelled")

    def backward(self, gradient=None, retain_graph=None, create_graph=False, inputs=None):
        grads = _walk([self], [gradient], bool(retain_graph))
        for t, g in grads.values():
            wanted = (t.is_leaf or t._keep) if inputs is None else any(t is i for i in inputs)
            if wanted and t._req:
                new = Tensor(g.copy(), t._dev)
                t._grad = new if t._grad is None else Tensor(t._grad._a + g, t._dev)

    # ---- leaving
    def numpy(self, *, force=False):
        if force:
            return self.detach().cpu().numpy()
        if self._req:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        if self._dev.type != "cpu":
            raise TypeError("can't convert %s device type tensor to numpy. Use Tensor.cpu() to copy the tensor to host memory first." % self._dev)
        return self._a

    def __array__(self, dt=None, copy=None):
        a = self.numpy()
        return a if dt is None else a.astype(dt)

    def item(self):
        if self._a.size != 1:
            raise RuntimeError("a Tensor with %d elements cannot be converted to Scalar" % self._a.size)
        return self._a.item()

    def tolist(self):
        return self._a.tolist()

    def detach(self):
        return Tensor(self._a, self._dev)

    @property
    def data(self):
        return Tensor(self._a, self._dev)

    @data.setter
    def data(self, t):
        self._a, self._dev = t._a, t._dev

    def detach_(self):
        self.grad_fn, self._req = None, False
        return self

    # ---- moving
    def to(self, *args, dtype=None, device=None, non_blocking=False, copy=False, **k):
        for x in args:
            if isinstance(x, Tensor):
                dtype, device = x.dtype, x.device
            elif isinstance(x, globals()["dtype"]):
                dtype = x
            elif isinstance(x, (str, int, globals()["device"])) and not isinstance(x, bool):
                device = x
        dev = self._dev if device is None else globals()["device"](device)
        dt = self.dtype if dtype is None else dtype
        if dev == self._dev and dt is self.dtype and not copy:
            return self
        mine = self._a.dtype
        return _op(self._a.astype(dt.np, copy=True), [(self, lambda g: g.astype(mine))], dev)

    def cpu(self):
        return self.to(CPU)

    def cuda(self, index=0):
        return self.to(device("cuda", index))

    def double(self):
        return self.to(TYPES["float64"])

    def float(self):
        return self.to(TYPES["float32"])

    def half(self):
        return self.to(TYPES["float16"])

    def type(self, dt=None):
        return "torch.Tensor" if dt is None else self.to(dt)

    def type_as(self, o):
        return self.to(o.dtype)

    def clone(self, **k):
        return _op(self._a.copy(), [(self, lambda g: g)], self._dev)

    def contiguous(self):
        return self if self.is_contiguous() else self.clone()._c()

    def _c(self):
        self._a = np.ascontiguousarray(self._a)
        return self

    # ---- shapes
    def view(self, *shape):
        if not shape:
            raise TypeError("view() received an invalid combination of arguments - got ()")
        if isinstance(shape[0], globals()["dtype"]):
            return self.to(shape[0])
        shape = _shape(shape)
        return self._view(shape)

    def _view(self, shape):
        mine = self._a.shape
        try:
            out = self._a.reshape(shape)
        except ValueError:
            raise RuntimeError("shape '%s' is invalid for input of size %d" % (list(shape), self._a.size)) from None
        if out.size and not np.shares_memory(out, self._a):
            raise RuntimeError("view size is not compatible with input tensor's size and stride")
        return _op(out, [(self, lambda g: g.reshape(mine))], self._dev)

    def view_as(self, o):
        return self.view(o.shape)

    def reshape(self, *shape):
        mine = self._a.shape
        try:
            out = self._a.reshape(_shape(shape))
        except ValueError:
            raise RuntimeError("shape '%s' is invalid for input of size %d" % (list(shape), self._a.size)) from None
        return _op(out, [(self, lambda g: g.reshape(mine))], self._dev)

    def reshape_as(self, o):
        return self.reshape(o.shape)

    def flatten(self, start_dim=0, end_dim=-1):
        n = max(self.ndim, 1)
        s = list(self._a.shape) or [1]
        b, e = start_dim % n, end_dim % n
        return self.reshape(s[:b] + [int(np.prod(s[b:e + 1], dtype=int))] + s[e + 1:])

    def ravel(self):
        return self.reshape(-1)

    def permute(self, *d):
        d = _shape(d)
        inv = np.argsort(d)
        return _op(self._a.transpose(d), [(self, lambda g: g.transpose(inv))], self._dev)

    def transpose(self, i, j):
        return _op(self._a.swapaxes(i, j), [(self, lambda g: g.swapaxes(i, j))], self._dev)
    swapaxes = transpose

    def t(self):
        if self.ndim > 2:
            raise RuntimeError("t() expects a tensor with <= 2 dimensions")
        return self.transpose(0, 1) if self.ndim == 2 else self

    T = property(lambda s: s.permute(*range(s.ndim)[::-1]) if s.ndim else s)

    def squeeze(self, d=None):
        s = [n for i, n in enumerate(self._a.shape) if not (n == 1 and (d is None or i == d % self.ndim))]
        return self.reshape(s) if s else self.reshape(())

    def unsqueeze(self, d):
        d = d % (self.ndim + 1)
        return self.reshape(self._a.shape[:d] + (1,) + self._a.shape[d:])

    def expand(self, *s):
        s, mine = _shape(s), self._a.shape
        return _op(np.broadcast_to(self._a, s), [(self, lambda g: _fit(g, mine))], self._dev)

    def __getitem__(self, i):
        if isinstance(i, Tensor):
            i = i._a
        mine = self._a

        def back(g):
            out = np.zeros_like(mine)
            np.add.at(out, i, g)
            return out
        return _op(np.asarray(self._a[i]), [(self, back)], self._dev)

    def __setitem__(self, i, v):
        self._inplace()
        self._a[i] = v._a if isinstance(v, Tensor) else v

    # ---- arithmetic
    def __add__(self, o):
        return _bin(np.add, self, o, lambda g, a, b: g, lambda g, a, b: g)
    __radd__ = add = __add__

    def __sub__(self, o):
        return _bin(np.subtract, self, o, lambda g, a, b: g, lambda g, a, b: -g)
    sub = __sub__

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        return _bin(np.multiply, self, o, lambda g, a, b: g * b, lambda g, a, b: g * a)
    __rmul__ = mul = __mul__

    def __truediv__(self, o):
        return _bin(np.divide, self, o, lambda g, a, b: g / b, lambda g, a, b: -g * a / b ** 2)
    div = __truediv__

    def __rtruediv__(self, o):
        return _wrap(o, self) / self

    def __neg__(self):
        return _op(-self._a, [(self, lambda g: -g)], self._dev)
    neg = __neg__

    def __pow__(self, p):
        a = self._a
        return _op(a ** np.asarray(p, dtype=a.dtype), [(self, lambda g: g * (p * a ** (p - 1)).astype(a.dtype))], self._dev)
    pow = __pow__

    def __iadd__(self, o):
        self._inplace()
        self._a += _wrap(o, self)._a
        return self
    add_ = __iadd__

    def __isub__(self, o):
        self._inplace()
        self._a -= _wrap(o, self)._a
        return self
    sub_ = __isub__

    def __imul__(self, o):
        self._inplace()
        self._a *= _wrap(o, self)._a
        return self
    mul_ = __imul__

    def copy_(self, o):
        self._inplace()
        self._a[...] = o._a
        return self

    def __matmul__(self, o):
        return matmul(self, o)
    mm = mv = matmul = __matmul__

    def dot(self, o):
        return (self * o).sum()

    def _cmp(self, o, f):
        return Tensor(f(self._a, _wrap(o, self)._a), self._dev)

    def __lt__(self, o):
        return self._cmp(o, np.less)

    def __gt__(self, o):
        return self._cmp(o, np.greater)

    def __le__(self, o):
        return self._cmp(o, np.less_equal)

    def __ge__(self, o):
        return self._cmp(o, np.greater_equal)

    def sum(self, dim=None, keepdim=False):
        mine = self._a.shape

        def back(g):
            if dim is not None and not keepdim:
                g = np.expand_dims(g, dim)
            return np.broadcast_to(g, mine)
        return _op(np.asarray(self._a.sum(axis=dim, keepdims=keepdim)), [(self, back)], self._dev)

    def mean(self, dim=None, keepdim=False):
        n = self._a.size if dim is None else self._a.shape[dim]
        return self.sum(dim, keepdim) / n

    def norm(self, p=2):
        return sqrt((self * self).sum())

    def max(self):
        i = np.unravel_index(np.argmax(self._a), self._a.shape)
        return self[i]

    def all(self):
        return Tensor(np.asarray(self._a.all()), self._dev)


def _op(out, pairs, dev):
    pairs = [(t, f) for t, f in pairs if t._req]
    return Tensor(out, dev, Node(pairs) if pairs and _Grad.on else None)


def _wrap(o, like):
    if isinstance(o, Tensor):
        return o
    a = np.asarray(o)
    # a plain number takes the tensor's type
    return Tensor(a.astype(like._a.dtype) if a.ndim == 0 else a, like._dev)


def _bin(f, x, y, fx, fy):
    y = _wrap(y, x)
    if x._dev != y._dev and x.ndim and y.ndim:
        raise RuntimeError("Expected all tensors to be on the same device, but found at least two devices, %s and %s!" % (x._dev, y._dev))
    a, b = x._a, y._a
    if a.dtype != b.dtype:
        # dimensions outrank scalars, as in PyTorch
        if a.ndim and not b.ndim and a.dtype.kind == b.dtype.kind:
            b = b.astype(a.dtype)
        elif b.ndim and not a.ndim and a.dtype.kind == b.dtype.kind:
            a = a.astype(b.dtype)
    with np.errstate(all="ignore"):
        out = np.asarray(f(a, b))

    def back(h, t):
        def g(grad):
            with np.errstate(all="ignore"):
                return _fit(np.asarray(h(grad, a, b)), t._a.shape).astype(t._a.dtype)
        return g
    return _op(out, [(x, back(fx, x)), (y, back(fy, y))], x._dev if x.ndim >= y.ndim else y._dev)


def _un(f, df):
    def g(x, *, out=None):
        a = x._a
        with np.errstate(all="ignore"):
            v = np.asarray(f(a)).astype(a.dtype)
            d = np.asarray(df(a, v)).astype(a.dtype)
        return _op(v, [(x, lambda gr: gr * d)], x._dev)
    return g


exp = _un(np.exp, lambda a, v: v)
log = _un(np.log, lambda a, v: 1 / a)
log1p = _un(np.log1p, lambda a, v: 1 / (1 + a))
sqrt = _un(np.sqrt, lambda a, v: 0.5 / v)
sin = _un(np.sin, lambda a, v: np.cos(a))
cos = _un(np.cos, lambda a, v: -np.sin(a))
tanh = _un(np.tanh, lambda a, v: 1 - v * v)
sigmoid = _un(lambda a: 1 / (1 + np.exp(-a)), lambda a, v: v * (1 - v))
relu = _un(lambda a: np.maximum(a, 0), lambda a, v: (a > 0))
abs = _un(np.abs, lambda a, v: np.sign(a))
square = _un(np.square, lambda a, v: 2 * a)
for _n in ("exp", "log", "log1p", "sqrt", "sin", "cos", "tanh", "sigmoid", "relu", "abs", "square"):
    setattr(Tensor, _n, globals()[_n])
Tensor.__abs__ = Tensor.abs


def clamp(x, min=None, max=None):
    a = x._a
    v = np.clip(a, min, max)
    return _op(v, [(x, lambda g: g * (v == a))], x._dev)


Tensor.clamp = clamp


def matmul(x, y):
    if x._dev != y._dev:
        raise RuntimeError("Expected all tensors to be on the same device")
    if x._a.dtype != y._a.dtype:
        raise RuntimeError("expected m1 and m2 to have the same dtype, but got: %s != %s" % (x.dtype, y.dtype))
    a, b = x._a, y._a
    if a.ndim > 2 or b.ndim > 2:
        raise NotImplementedError("batched products are not modelled")

    def ga(g):
        if a.ndim == 1 and b.ndim == 1:
            return g * b
        if a.ndim == 1:
            return b @ g
        if b.ndim == 1:
            return np.outer(g, b)
        return g @ b.T

    def gb(g):
        if a.ndim == 1 and b.ndim == 1:
            return g * a
        if b.ndim == 1:
            return a.T @ g
        if a.ndim == 1:
            return np.outer(a, g)
        return a.T @ g
    return _op(np.asarray(a @ b), [(x, ga), (y, gb)], x._dev)


def _walk(outs, gos, retain):
    """reverse pass -> {id: (tensor, gradient)}"""
    acc = {}
    order, done = [], set()

    def visit(t):
        stack = [(t, False)]
        while stack:
            u, out = stack.pop()
            if out:
                order.append(u)
                continue
            if id(u) in done:
                continue
            done.add(id(u))
            stack.append((u, True))
            if u.grad_fn is not None:
                if u.grad_fn.freed:
                    raise RuntimeError("Trying to backward through the graph a second time (or directly access saved tensors after they have already been freed).")
                for v, _ in u.grad_fn.pairs:
                    stack.append((v, False))
    for t, g in zip(outs, gos):
        if not t._req:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        if g is None:
            if t._a.size != 1:
                raise RuntimeError("grad can be implicitly created only for scalar outputs")
            g = np.ones_like(t._a)
        else:
            g = g._a
        visit(t)
        acc[id(t)] = (t, acc[id(t)][1] + g if id(t) in acc else g)
    for u in reversed(order):
        if id(u) not in acc or u.grad_fn is None:
            continue
        g = acc[id(u)][1]
        for v, f in u.grad_fn.pairs:
            h = np.asarray(f(g), dtype=v._a.dtype)
            acc[id(v)] = (v, acc[id(v)][1] + h if id(v) in acc else h)
        if not retain:
            u.grad_fn.freed = True
    return acc


def grad(outputs, inputs, grad_outputs=None, retain_graph=None, create_graph=False, allow_unused=False):
    outs = list(outputs) if isinstance(outputs, (list, tuple)) else [outputs]
    ins = list(inputs) if isinstance(inputs, (list, tuple)) else [inputs]
    gos = grad_outputs if isinstance(grad_outputs, (list, tuple)) else [grad_outputs] * len(outs)
    acc = _walk(outs, gos, bool(retain_graph))
    res = []
    for t in ins:
        if not t._req:
            raise RuntimeError("One of the differentiated Tensors does not require grad")
        if id(t) not in acc:
            if not allow_unused:
                raise RuntimeError("One of the differentiated Tensors appears to not have been used in the graph.")
            res.append(None)
        else:
            res.append(Tensor(acc[id(t)][1].copy(), t._dev))
    return tuple(res)


def _arr(x, dt, copy):
    if isinstance(x, Tensor):
        a, default = x._a, x._a.dtype
    elif isinstance(x, (np.ndarray, np.generic)):
        a, default = np.asarray(x), x.dtype
        if any(s < 0 for s in a.strides):
            raise ValueError("At least one stride in the given numpy array is negative, and tensors with negative strides are not currently supported.")
    else:
        if isinstance(x, (list, tuple)):
            x = [float(v) if isinstance(v, Tensor) else v for v in x]
        a = np.asarray(x)
        default = np.dtype("f4") if a.dtype.kind == "f" else a.dtype
    t = default if dt is None else dt.np
    return np.array(a, dtype=t, order="C") if copy else np.asarray(a, dtype=t)


def tensor(data, dtype=None, device=None, requires_grad=False):
    t = Tensor(_arr(data, dtype, True), CPU if device is None else globals()["device"](device))
    t.requires_grad = requires_grad
    return t


def as_tensor(data, dtype=None, device=None):
    if isinstance(data, Tensor):
        return data.to(device=device, dtype=dtype)
    dev = CPU if device is None else globals()["device"](device)
    return Tensor(_arr(data, dtype, dev != CPU), dev)


def from_numpy(a):
    if not isinstance(a, np.ndarray):
        raise TypeError("expected np.ndarray (got %s)" % type(a).__name__)
    return Tensor(_arr(a, None, False))


def _filled(v):
    def f(*shape, dtype=None, device=None, requires_grad=False):
        t = Tensor(np.full(_shape(shape), v, dtype=(dtype or TYPES["float32"]).np), CPU if device is None else globals()["device"](device))
        t.requires_grad = requires_grad
        return t
    return f


zeros, ones, empty = _filled(0), _filled(1), _filled(0)


def zeros_like(t, **k):
    return Tensor(np.zeros_like(t._a), t._dev)


def ones_like(t, **k):
    return Tensor(np.ones_like(t._a), t._dev)


def is_tensor(t):
    return isinstance(t, Tensor)


def module():
    """a fresh module object named torch"""
    m = types.ModuleType("torch")
    for n in ("dtype device Size Tensor no_grad enable_grad set_grad_enabled is_grad_enabled tensor as_tensor from_numpy zeros ones empty zeros_like "
              "ones_like is_tensor exp log log1p sqrt sin cos tanh sigmoid relu abs square clamp matmul").split():
        setattr(m, n, globals()[n])
    for n, d in TYPES.items():
        setattr(m, n, d)
    m.double, m.float, m.half, m.long, m.int = (TYPES[n] for n in ("float64", "float32", "float16", "int64", "int32"))
    m.sum = lambda t, *a, **k: t.sum(*a, **k)
    m.mean = lambda t, *a, **k: t.mean(*a, **k)
    m.flatten = lambda t, *a, **k: t.flatten(*a, **k)
    m.reshape = lambda t, s: t.reshape(s)
    m.dot = lambda a, b: a.dot(b)
    m.norm = lambda t: t.norm()
    m.get_default_dtype = lambda: TYPES["float32"]
    m.FloatTensor = lambda x: tensor(x, dtype=TYPES["float32"])
    m.DoubleTensor = lambda x: tensor(x, dtype=TYPES["float64"])
    m.autograd = types.ModuleType("torch.autograd")
    m.autograd.grad = grad
    m.autograd.Variable = lambda t, requires_grad=False: t.requires_grad_(requires_grad)
    m.cuda = types.ModuleType("torch.cuda")
    m.cuda.is_available = lambda: True
    m.cuda.synchronize = lambda *a: None
    m.inference_mode = no_grad
    m.__stand_in__ = True
    return m


def install():
    m = module()
    sys.modules["torch"], sys.modules["torch.autograd"], sys.modules["torch.cuda"] = m, m.autograd, m.cuda
    return m
