"""Conflicts between the iterations of parallel loops.

Every array made inside copt while a parallel loop may run is replaced by a recording view; each element read or
written is noted with the iteration that did it. If no element written by one iteration is touched by another,
the iterations commute, so that the single order executed stands for *every* interleaving of their steps (the independence
argument of partial-order reduction). A conflict is reported with the element and the two iterations."""
import contextlib
import sys
import numpy as np


class Log:
    current = None      # (loop, iteration) now running
    serial = 0
    touched = {}        # (loop, address) -> (readers, writers)
    conflicts = []
    events = 0
    keep = []


def _note(addresses, write):
    if Log.current is None:
        return
    loop, it = Log.current
    for a in addresses:
        Log.events += 1
        key = (loop, int(a))
        readers, writers = Log.touched.setdefault(key, (set(), set()))
        others = (readers | writers if write else writers) - {it}
        if others and len(Log.conflicts) < 5:
            Log.conflicts.append((sorted(others)[0], it, "written" if write else "read"))
        (writers if write else readers).add(it)


def _addresses(arr):
    base = arr.__array_interface__["data"][0]
    off = np.zeros(arr.shape, dtype=np.int64)
    for ax, (n, s) in enumerate(zip(arr.shape, arr.strides)):
        sh = [1] * arr.ndim
        sh[ax] = n
        off = off + (np.arange(n) * s).reshape(sh)
    return base + off


class Rec(np.ndarray):
    def __getitem__(self, key):
        out = super().__getitem__(_plain(key))
        if Log.current is not None:
            if isinstance(out, Rec) and np.shares_memory(out, self):
                return out  # a view is not a read yet
            _note(np.ravel(_addresses(self)[_plain(key)]), False)
        return _plain(out)

    def __setitem__(self, key, value):
        if Log.current is not None:
            _note(np.ravel(_addresses(self)[_plain(key)]), True)
            if isinstance(value, Rec) and not np.shares_memory(value, self):
                _note(np.ravel(_addresses(value)), False)
        super().__setitem__(_plain(key), _plain(value))

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if Log.current is not None:
            for a in inputs:
                if isinstance(a, Rec):
                    _note(np.ravel(_addresses(a)), method == "at" and a is inputs[0])
            for o in out or ():
                if isinstance(o, Rec):
                    _note(np.ravel(_addresses(o)), True)
        args = [_plain(a) for a in inputs]
        if out is not None:
            kw["out"] = tuple(_plain(o) for o in out)
        res = getattr(ufunc, method)(*args, **kw)
        if out is not None:
            return out[0] if len(out) == 1 else out
        return _shared(res)

    def __iter__(self):
        return (self[i] for i in range(len(self)))


def _shared(a):
    """an array that iterations can share: one made outside of every loop (kept, so that its addresses stay its own)"""
    if type(a) is np.ndarray and a.ndim and Log.current is None:
        Log.keep.append(a)
        return a.view(Rec)
    return a


def _plain(a):
    if isinstance(a, Rec):
        return a.view(np.ndarray)
    if isinstance(a, tuple):
        return tuple(_plain(b) for b in a)
    return a


MAKERS = ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like", "array", "copy", "arange")


class Proxy:
    """numpy, whose makers of arrays return recording ones"""

    def __getattr__(self, name):
        v = getattr(np, name)
        if name in MAKERS:
            def make(*a, **kw):
                return _shared(v(*[_plain(b) for b in a], **kw))
            return make
        return v


@contextlib.contextmanager
def watched():
    """within: parallel loops run in order, their accesses are recorded; yields the log"""
    Log.touched = {}
    Log.conflicts = []
    Log.events = 0
    Log.loops = 0
    Log.keep = []
    Log.current = None

    def loop(*a):
        Log.serial += 1
        Log.loops += 1
        me = Log.serial
        outer = Log.current
        for i in range(*a):
            Log.current = outer or (me, i)
            yield i
        Log.current = outer

    saved = []
    proxy = Proxy()
    for name, m in list(sys.modules.items()):
        if name == "copt" or name.startswith("copt."):
            news = [(k, _shared(v)) for k, v in list(vars(m).items()) if type(v) is np.ndarray]
            for attr, new in [("prange", loop), ("np", proxy)] + news:
                if hasattr(m, attr):
                    saved.append((m, attr, getattr(m, attr)))
                    setattr(m, attr, new)
    try:
        yield Log
    finally:
        for m, attr, v in saved:
            setattr(m, attr, v)
        Log.current = None
