"""What an operation returns in a process in which copt has run nothing before.

The first request of a process forks a server, before that process has run
any operation itself; the server forks again for every request.
"""
import os
import pickle
import struct
import numpy as np
from mc.core import HarnessError

_server = {}


def _read(fd, n):
    out = b""
    while len(out) < n:
        part = os.read(fd, n - len(out))
        if not part:
            return None
        out += part
    return out


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _receive(fd):
    head = _read(fd, 8)
    if head is None:
        return None
    return pickle.loads(_read(fd, struct.unpack("<q", head)[0]))


def _serve(inp, out, table):
    while True:
        req = _receive(inp)
        if req is None:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    ans = ("ok", table[req[0]](*req[1:]))
                except BaseException as e:
                    ans = ("error", "%s: %s" % (type(e).__name__, e))
                _send(out, ans)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)


def start(table):
    """table: {name: function}; must come before this process runs anything of copt"""
    if _server.get("pid") == os.getpid():
        return
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        try:
            import signal
            signal.setitimer(signal.ITIMER_PROF, 0)
            os.close(w1)
            os.close(r2)
            _serve(r1, w2, table)
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    _server.update(pid=os.getpid(), w=w1, r=r2, memo={})


class Raised(Exception):
    """the operation itself failed in the pristine process"""


def ask(*req):
    key = pickle.dumps(req)
    memo = _server["memo"]
    if key not in memo:
        _send(_server["w"], req)
        ans = _receive(_server["r"])
        if ans is None:
            raise HarnessError("the pristine process ended")
        memo[key] = ans
    kind, val = memo[key]
    if kind == "error":
        raise Raised("alone, in a fresh process: " + val)
    return val
