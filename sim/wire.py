"""Length-prefixed pickles over a file descriptor."""

import os
import pickle
import struct


def send(fd, obj):
    data = pickle.dumps(obj, protocol=5)
    data = struct.pack("<Q", len(data)) + data
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _exact(fd, n):
    parts = []
    while n:
        b = os.read(fd, min(n, 1 << 20))
        if not b:
            raise EOFError
        parts.append(b)
        n -= len(b)
    return b"".join(parts)


def recv(fd):
    n = struct.unpack("<Q", _exact(fd, 8))[0]
    return pickle.loads(_exact(fd, n))
