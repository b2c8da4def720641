"""Evaluation of requests in a process which has not evaluated anything else."""
import os
import pickle
import signal
import struct


def _read(fd, count):
    out = b""
    while len(out) < count:
        part = os.read(fd, count - len(out))
        if not part:
            return None
        out += part
    return out


def _send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _receive(fd):
    head = _read(fd, 8)
    return None if head is None else _read(fd, struct.unpack("<Q", head)[0])


class Pristine:
    """server forked before the first evaluation; it forks for each of the requests"""

    def __init__(self, func):
        self.func = func
        self.cache = {}
        down, up = os.pipe(), os.pipe()
        if os.fork() == 0:
            try:
                os.close(down[1])
                os.close(up[0])
                self._serve(down[0], up[1])
            finally:
                os._exit(0)
        os.close(down[0])
        os.close(up[1])
        self.down, self.up = down[1], up[0]

    def _serve(self, source, target):
        while True:
            data = _receive(source)
            if data is None:
                return
            out = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(100)
                    os.close(out[0])
                    _send(out[1], pickle.dumps(self.func(pickle.loads(data))))
                finally:
                    os._exit(0)
            os.close(out[1])
            answer = _receive(out[0])
            os.close(out[0])
            _, status = os.waitpid(pid, 0)
            _send(target, pickle.dumps(("died", status)) if answer is None else answer)

    def __call__(self, payload):
        data = pickle.dumps(payload)
        if data not in self.cache:
            if len(self.cache) > 2000:
                self.cache.clear()
            _send(self.down, data)
            answer = _receive(self.up)
            if answer is None:
                raise RuntimeError("the server of pristine processes died")
            self.cache[data] = pickle.loads(answer)
        return self.cache[data]
