"""Evaluation in a process that has never called the code before.

A zygote is forked when the module is imported (before any call is made); for every request it
forks once more, so nothing an earlier call left behind (caches, modified defaults) can be seen.
"""
import os
import pickle
import struct
import sys


def _read(fd, n):
    b = b""
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            raise EOFError
        b += x
    return b


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<I", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack("<I", _read(fd, 4))[0]))


class Zygote:
    def __init__(self, fn):
        """fn(request) -> picklable answer"""
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                self._loop(fn, r1, w2)
            except EOFError:
                pass
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)

    @staticmethod
    def _loop(fn, r, w):
        while True:
            req = _recv(r)
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        ans = ("ok", fn(req))
                    except BaseException as e:  # noqa: BLE001
                        ans = ("err", f"{type(e).__name__}: {e}")
                    _send(w, ans)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def __call__(self, req):
        _send(self.w, req)
        return _recv(self.r)
