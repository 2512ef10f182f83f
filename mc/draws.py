"""Takes the place of numpy's global random functions, so that the harness answers every draw."""
import contextlib
import threading
import numpy as np
from mc.core import HarnessError


class Draws:
    """order(n) -> permutation; batch(n, k) -> k distinct samples; index(n, k) -> k samples, repetition allowed"""

    def __init__(self, order=None, batch=None, index=None):
        self.order, self.batch, self.index = order, batch, index
        self.calls = []

    def shuffle(self, x, *a):
        self.calls.append(("shuffle", len(x)))
        vals = np.sort(np.array(x))
        x[:] = vals[np.asarray(self.order(len(x)))]

    def permutation(self, x):
        vals = np.arange(x) if np.ndim(x) == 0 else np.sort(np.array(x))
        self.calls.append(("permutation", len(vals)))
        return vals[np.asarray(self.order(len(vals)))]

    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        k = 1 if size is None else int(np.prod(size))
        self.calls.append(("randint", hi - lo, k))
        out = np.asarray(self.index(hi - lo, k), dtype=dtype) + lo
        return int(out[0]) if size is None else out.reshape(size)

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None:
            raise HarnessError("weighted draw")
        vals = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        k = 1 if size is None else int(np.prod(size))
        self.calls.append(("choice", len(vals), k, bool(replace)))
        idx = np.asarray(self.index(len(vals), k) if replace else self.batch(len(vals), k), dtype=int)
        out = vals[idx]
        return out[0] if size is None else out.reshape(size)


_NAMES = ("shuffle", "permutation", "randint", "choice")
_real = {}
_stacks = threading.local()
_lock = threading.Lock()
_users = 0


def _dispatch(name):
    def f(*a, **k):
        st = getattr(_stacks, "v", None)
        return getattr(st[-1], name)(*a, **k) if st else _real[name](*a, **k)
    return f


@contextlib.contextmanager
def answering(draws):
    """answers the draws made by this thread; nested and concurrent users each get their own"""
    global _users
    with _lock:
        _users += 1
        if _users == 1:
            for k in _NAMES:
                _real[k] = getattr(np.random, k)
                setattr(np.random, k, _dispatch(k))
    if not hasattr(_stacks, "v"):
        _stacks.v = []
    _stacks.v.append(draws)
    try:
        yield draws
    finally:
        _stacks.v.pop()
        with _lock:
            _users -= 1
            if _users == 0:
                for k in _NAMES:
                    setattr(np.random, k, _real[k])
