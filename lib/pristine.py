"""Calls in a pristine process: the package is imported, but nothing of it was ever run there.

start() forks a helper before any case is run; each call() is answered by a fresh fork of that helper, so values
kept by the package between calls (module or class level) cannot reach the answer.
"""
import importlib
import os
import pickle
import socket
import struct
import sys

_sock = None


def _send(s, obj):
    d = pickle.dumps(obj)
    s.sendall(struct.pack("!Q", len(d)) + d)


def _recv(s):
    def exact(n):
        b = bytearray()
        while len(b) < n:
            x = s.recv(n - len(b))
            if not x:
                raise EOFError
            b += x
        return bytes(b)
    return pickle.loads(exact(struct.unpack("!Q", exact(8))[0]))


def _serve(s):
    while True:
        try:
            mod, fn, args = _recv(s)
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                res = ("ok", getattr(importlib.import_module(mod), fn)(*args))
            except Exception as e:
                res = ("error", f"{type(e).__name__}: {e}")
            _send(s, res)
            os._exit(0)
        if os.waitpid(pid, 0)[1] != 0:
            _send(s, ("error", "the process died"))


def start():
    global _sock
    if _sock is None:
        import falwa.oopinterface, falwa.xarrayinterface  # noqa
        a, b = socket.socketpair()
        if os.fork() == 0:
            a.close()
            try:
                _serve(b)
            finally:
                os._exit(1)
        b.close()
        _sock = a


def call(mod, fn, *args):
    _send(_sock, (mod, fn, args))
    kind, res = _recv(_sock)
    if kind == "error":
        raise RuntimeError(res)
    return res
