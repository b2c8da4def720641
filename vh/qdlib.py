"""Calls of the Fortran subroutines of the qdipole library (gfortran conventions)."""
import ctypes
import os
import numpy as np
from vh.core import HarnessError

_LIB = None


def lib():
    global _LIB
    if _LIB is None:
        _LIB = ctypes.CDLL(path())
    return _LIB


def path():
    build = os.environ.get("VH_BUILD")
    if not build:
        raise HarnessError("VH_BUILD is not set")
    return os.path.join(build, "qdipole", "libqdipole.so")


def _symbol(name):
    try:
        func = getattr(lib(), name + "_")
    except AttributeError as exc:
        raise HarnessError("no subroutine %s in the library" % name) from exc
    func.restype = None
    return func


FILL = -12345.0


class Out:
    """output argument: kind and number of the elements"""

    def __init__(self, kind="f", size=None):
        self.kind, self.size = kind, size


TYPES = {"f": ctypes.c_float, "d": ctypes.c_double, "i": ctypes.c_int32}


def call(name, *args):
    """call the subroutine and return its Out arguments; float, int and str inputs are REAL*4, INTEGER*4
    and CHARACTER arguments, numpy scalars keep their type"""
    refs, outs, hidden, keep = [], [], [], []
    for arg in args:
        if isinstance(arg, Out):
            if arg.size is None:
                value = TYPES[arg.kind](int(FILL) if arg.kind == "i" else FILL)
            else:
                value = (TYPES[arg.kind] * arg.size)(*([FILL] * arg.size))
            outs.append((arg, value))
        elif isinstance(arg, tuple):            # ("text", length)
            value = ctypes.create_string_buffer(arg[0].encode().ljust(arg[1]), arg[1])
            hidden.append(ctypes.c_size_t(arg[1]))
        elif isinstance(arg, np.ndarray):
            keep.append(arg)
            refs.append(arg.ctypes.data_as(ctypes.c_void_p))
            continue
        elif isinstance(arg, np.float64):
            value = ctypes.c_double(arg)
        elif isinstance(arg, (bool, int, np.integer)):
            value = ctypes.c_int32(arg)
        else:
            value = ctypes.c_float(arg)
        keep.append(value)
        refs.append(ctypes.byref(value))
    _symbol(name)(*refs, *hidden)
    res = []
    for arg, value in outs:
        res.append(value.value if arg.size is None else np.array(value[:]))
    return res


F = Out("f")


def vec(n):
    return Out("f", n)


def load(filename, epoch):
    call("loadapxsh", (filename, 1023), float(epoch))


def g2q(lat, lon, alt, vectors=1):
    qlat, qlon, f1, f2, f = call("apxg2q", float(lat), float(lon), float(alt), int(vectors), F, F, vec(2), vec(2), F)
    return {"qlat": qlat, "qlon": qlon, "f1": f1, "f2": f2, "f": f}


def g2all(lat, lon, alt, hr, vectors=1):
    names = ["qlat", "qlon", "mlat", "mlon", "f1", "f2", "f", "d1", "d2", "d3", "d", "e1", "e2", "e3"]
    res = call("apxg2all", float(lat), float(lon), float(alt), float(hr), int(vectors), F, F, F, F, vec(2), vec(2), F, vec(3), vec(3), vec(3), F, vec(3), vec(3), vec(3))
    return dict(zip(names, res))


def q2g(qlat, qlon, alt, prec):
    return call("apxq2g", float(qlat), float(qlon), float(alt), float(prec), F, F, F)


def error():
    func = _symbol("apxsherror")
    func.restype = ctypes.c_int32
    try:
        return func()
    finally:
        func.restype = None
