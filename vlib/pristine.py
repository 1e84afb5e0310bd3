"""Evaluations in a pristine process.

A server is forked before the package under test has done anything; each request
is answered by a child forked from the server, so that nothing computed before (in
module globals, class attributes or caches) can reach the answer.
"""
import os
import pickle
import struct
import sys


def _send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack("<Q", len(data)) + data
    while data:
        n = os.write(fd, data[:1 << 16])
        data = data[n:]


def _read(fd, n):
    out = b""
    while len(out) < n:
        part = os.read(fd, min(n - len(out), 1 << 20))
        if not part:
            return None
        out += part
    return out


def _receive(fd):
    head = _read(fd, 8)
    if head is None:
        return None
    data = _read(fd, struct.unpack("<Q", head)[0])
    return None if data is None else pickle.loads(data)


class Server:
    """Answers fn(request) from a process in which fn was never called before."""

    def __init__(self, fn):
        sys.stdout.flush()
        sys.stderr.flush()
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                self._serve(fn, r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    @staticmethod
    def _serve(fn, r, w):
        while True:
            head = _read(r, 8)
            if head is None:
                return
            data = _read(r, struct.unpack("<Q", head)[0])
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        _send(w, fn(pickle.loads(data)))
                    except BaseException as e:
                        _send(w, ("error", "%s: %s" % (type(e).__name__, e)))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, request):
        _send(self.w, request)
        return _receive(self.r)
