"""P24 low level calls return or raise but never corrupt memory or kill the process"""
import ctypes
import gc
import os
import sys
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from eoxmagmod import _pymm as pm, _pyqd as qd, _pysunpos as sp, _pytimeconv as tc, data as shipped
from vh import gen
from vh.shgen import ncoef
from vh.core import check, require, fail, HarnessError

APEX = shipped.APEX_LATEST

# ---------------------------------------------------------------------------
# Templates: the arguments of a consistent call.
#
# An array argument is a dictionary: shape, values (name of the source), dtype,
# layout. Everything else is literal. The shape of the result is calculated by the
# template from the parameters, never from the arguments.


def arr(shape, values="any", **kw):
    return dict({"array": list(shape), "values": values, "dtype": "f8", "layout": "c"}, **kw)


def lit(value):
    return {"literal": value}


def seq(kind, items):
    return {"sequence": kind, "items": items}


def t_vrot(name, n):
    def make(p):
        pre = p["prefix"]
        small = [] if p["flags"] & 1 and pre == [] else pre
        return {"args": [arr(pre + [3], "vector")] + [arr(small, "angle") for _ in range(n)], "out": [pre + [3]]}
    return name, make


def t_legendre(p):
    return {"args": [arr(p["prefix"], "latitude"), lit(p["n"])], "out": [p["prefix"] + [ncoef(p["n"])]] * 2}


def t_loncossin(p):
    return {"args": [arr(p["prefix"], "angle"), lit(p["n"]), lit(bool(p["flags"] & 1))], "out": [p["prefix"] + [p["n"] + 1, 2]]}


def t_relradpow(p):
    return {"args": [arr(p["prefix"], "radius"), lit(p["n"]), lit(6371.2), lit(bool(p["flags"] & 1))], "out": [p["prefix"] + [p["n"] + 1]]}


def degrees(p):
    return [-1, -1, -5, 0, p["n"], p["n"] + 3][p["flags"] % 6]


def t_spharpot(p):
    n, pre = p["n"], p["prefix"]
    subs = p["prefixes"]
    return {"args": [arr(subs[0], "radius"), arr(subs[1] + [ncoef(n), 2]), arr(subs[2] + [ncoef(n)]), arr(subs[3] + [n + 1]),
                     arr(pre + [n + 1, 2]), lit(degrees(p))], "out": [pre]}


def t_sphargrd(p):
    n, pre = p["n"], p["prefix"]
    subs = p["prefixes"]
    return {"args": [arr(subs[0], "latitude"), arr(pre + [ncoef(n), 2]), arr(subs[1] + [ncoef(n)]), arr(subs[2] + [ncoef(n)]), arr(subs[3] + [n + 1]),
                     arr(subs[0] + [n + 1, 2]), lit(bool(p["flags"] & 1)), lit(degrees(p))], "out": [pre + [3]]}


def field(p):
    mode = p["mode"]
    pre = p["prefix"]
    return {1: [pre], 2: [pre + [3]], 3: [pre, pre + [3]]}[mode]


def tail(p):
    return [lit(p["kin"]), lit(p["kout"]), lit(p["mode"]), lit(bool(p["flags"] & 1))]


def scale(p):
    return [lit(0.5), [lit(2.0), arr([], "scale"), arr([3], "scale")][p["flags"] % 3]]


def t_sheval(p):
    pre, n = p["prefix"], p["n"]
    first, second = (pre, p["prefixes"][0]) if p["flags"] & 2 else (p["prefixes"][0], pre)
    return {"args": [arr(first + [3], "position"), arr(second + [ncoef(n), 2])] + tail(p) + [lit(degrees(p))] + scale(p), "out": field(p)}


def nm_values(p):
    rng = gen.rng(p["seed"])
    out = []
    for _ in range(p["nterm"]):
        n = int(rng.integers(0, p["n"] + 1))
        out.append([n, int(rng.integers(-n, n + 1))])
    return out


def t_shevaltemp(p):
    pre = p["prefix"]
    first, second = (pre, p["prefixes"][0]) if p["flags"] & 2 else (p["prefixes"][0], pre)
    nm = arr([p["nterm"], 2], "given", dtype="i4", given=nm_values(p))
    sets = [seq("tuple", [arr([p["nt"] + 2], "sorted"), arr([p["nterm"], p["nt"] + 2]), nm, lit(1 + (p["flags"] >> i) % 2)]) for i in range(p["nset"])]
    return {"args": [arr(first, "time"), arr(second + [3], "position"), seq("list", sets)] + tail(p) + scale(p), "out": field(p)}


def t_sheval2dfs(p):
    pre = p["prefix"]
    three = [p["prefixes"][0], p["prefixes"][1], pre]
    i = p["flags"] % 3
    three = three[i:] + three[:i]
    nm = arr([p["nterm"], 2], "given", dtype="i4", given=nm_values(p))
    cset = seq("tuple", [arr([p["nterm"], p["nt"] + 1, p["n2"] + 1, 2]), nm, lit(p["min1"]), lit(p["min2"]), lit(0.1), lit(2.0)])
    return {"args": [arr(three[0], "time"), arr(three[1], "time"), arr(three[2] + [3], "position"), cset] + tail(p) + scale(p), "out": field(p)}


def t_convert(p):
    return {"args": [arr(p["prefix"] + [3], "position"), lit(p["kin"]), lit(p["kout"])], "out": [p["prefix"] + [3]]}


def t_bisect(p):
    return {"args": [arr([p["nt"]], "sorted"), arr(p["prefix"], "time"), lit(p["flags"] % 2)], "out": [p["prefix"]], "type": "i"}


def t_interp(p):
    kind = [pm.INTERP_C0, pm.INTERP_C1, pm.INTERP_C1D1][p["flags"] % 3]
    return {"args": [arr(p["prefix"], "time"), arr([p["nt"] + 2], "sorted"), arr(p["other"] + [p["nt"] + 2]), lit(kind), lit(bool(p["flags"] & 1))],
            "out": [p["prefix"] + p["other"]]}


def t_fourier2d(p):
    return {"args": [arr(p["prefix"], "time"), arr(p["prefix"], "time"), arr(p["other"] + [p["nt"] + 1, p["n2"] + 1, 2]), lit(p["min1"]), lit(p["min2"]), lit(0.1), lit(2.0)],
            "out": [p["prefix"] + p["other"]]}


def t_qdlatlon(p):
    pre = p["prefix"][:1]
    base = bool(p["flags"] & 1)
    return {"args": [arr(pre, "latitude"), arr(pre, "angle"), arr(pre, "radius"), arr(pre, "epoch"), lit(APEX), lit(base)], "out": [pre] * (7 if base else 2)}


def t_qdwrap(p):
    pre = p["prefix"][:1]
    return {"args": [arr(pre, "latitude"), arr(pre, "angle"), arr(pre, "radius"), arr(pre, "epoch"), lit(APEX)], "out": [pre] * 2}


def t_qdbase(p):
    return dict(t_qdwrap(p), out=[p["prefix"][:1]] * 7)


def t_mlt(p):
    pre = p["prefix"][:1]
    return {"args": [arr(pre, "angle"), arr(pre, "time")], "out": [pre]}


def t_subsol(p):
    pre = p["prefix"][:1]
    return {"args": [arr(pre, "time")], "out": [pre] * 2}


def t_sunpos(p):
    some = [p["prefix"]] * 5
    if p["flags"] & 1:
        some = [p["prefix"] if i == p["flags"] % 5 else [] for i in range(5)]
    return {"args": [arr(some[0], "time"), arr(some[1], "latitude"), arr(some[2], "angle"), arr(some[3], "radius"), arr(some[4], "scale")], "out": [p["prefix"] + [5]]}


def t_sunpos7(p):
    return {"args": t_sunpos(p)["args"] + [arr(p["prefix"], "scale"), arr(p["prefix"], "scale")], "out": [p["prefix"] + [5]]}


def t_time(p):
    return {"args": [arr(p["prefix"], "time")], "out": [p["prefix"]]}


def t_year(p):
    return {"args": [arr(p["prefix"], "epoch")], "out": [p["prefix"]]}


FUNCS = {
    "vrot_sph2cart": (pm.vrot_sph2cart, t_vrot("", 2)[1]), "vrot_cart2sph": (pm.vrot_cart2sph, t_vrot("", 2)[1]),
    "vrot_sph2geod": (pm.vrot_sph2geod, t_vrot("", 1)[1]), "legendre": (pm.legendre, t_legendre), "loncossin": (pm.loncossin, t_loncossin),
    "relradpow": (pm.relradpow, t_relradpow), "spharpot": (pm.spharpot, t_spharpot), "sphargrd": (pm.sphargrd, t_sphargrd),
    "sheval": (pm.sheval, t_sheval), "shevaltemp": (pm.shevaltemp, t_shevaltemp), "sheval2dfs": (pm.sheval2dfs, t_sheval2dfs),
    "convert": (pm.convert, t_convert), "bisect": (pm.bisect, t_bisect), "interp": (pm.interp, t_interp), "fourier2d": (pm.fourier2d, t_fourier2d),
    "eval_qdlatlon": (qd.eval_qdlatlon, t_qdlatlon), "eval_mlt": (qd.eval_mlt, t_mlt), "eval_subsol": (qd.eval_subsol, t_subsol),
    "quasi-dipole": (em.eval_qdlatlon, t_qdwrap), "quasi-dipole bases": (em.eval_qdlatlon_with_base_vectors, t_qdbase),
    "sunpos": (sp.sunpos, t_sunpos), "sunpos_original": (sp.sunpos_original, t_sunpos7),
    "decimal_year_to_mjd2000": (tc.decimal_year_to_mjd2000, t_year), "mjd2000_to_decimal_year": (tc.mjd2000_to_decimal_year, t_time),
    "mjd2000_to_year_fraction": (tc.mjd2000_to_year_fraction, t_time),
}
# arguments given by keyword are accepted under these names
HEAVY = ["shevaltemp", "sheval2dfs", "sheval", "spharpot", "sphargrd", "interp", "fourier2d", "eval_qdlatlon"]

_RANGES = {"vector": (-1e4, 1e4), "angle": (-400, 400), "latitude": (-90, 90), "radius": (6000, 9000), "scale": (-2, 2),
           "time": (-2000, 9000), "epoch": (1990, 2030), "any": (-100, 100), "position": (-90, 9000)}


# ---------------------------------------------------------------------------
# objects which are not numbers

class BadArray:
    def __array__(self, *args, **kwargs):
        raise RuntimeError("no array")


class BadFloat:
    def __float__(self):
        raise RuntimeError("no float")

    def __index__(self):
        raise RuntimeError("no index")


class BadBool:
    def __bool__(self):
        raise RuntimeError("no bool")


class BadSequence:
    def __len__(self):
        return 3

    def __getitem__(self, idx):
        if idx > 1:
            raise RuntimeError("no item")
        return 1.0


class GoodSequence:
    def __len__(self):
        return 3

    def __getitem__(self, idx):
        if idx > 2:
            raise IndexError(idx)
        return float(idx + 1)


def _matrix(shape, **kw):
    return np.ones(shape, **kw)


OBJECTS = {
    "None": lambda: None, "text": lambda: "text", "number text": lambda: "1", "bytes": lambda: b"\x00\xff", "object": object, "complex": lambda: 1 + 2j,
    "complex array": lambda: _matrix((2, 3), dtype="complex"), "ragged": lambda: [[1.0, 2.0], [1.0]], "deep": lambda: [[[[[1.0]]]]],
    "set": lambda: {1, 2}, "dict": lambda: {"a": 1}, "generator": lambda: (i for i in range(3)), "object array": lambda: np.array([1.0, None, "a"], dtype=object),
    "objects of numbers": lambda: np.array([1.0, 2.0, 3.0], dtype=object), "strings": lambda: np.array(["1", "2", "3"]), "dates": lambda: np.array(["2000-01-01"], dtype="M8[D]"),
    "structured": lambda: np.zeros(3, dtype=[("a", "f8"), ("b", "i4")]), "empty list": lambda: [], "empty tuple": lambda: (), "list of lists": lambda: [[]],
    "huge": lambda: 10 ** 400, "big": lambda: 2 ** 63, "int overflow": lambda: 2 ** 31, "negative overflow": lambda: -2 ** 31 - 1, "type": lambda: int,
    "bad array": BadArray, "bad float": BadFloat, "bad bool": BadBool, "bad sequence": BadSequence, "good sequence": GoodSequence, "memory": lambda: memoryview(b"12345678"),
    "masked": lambda: np.ma.masked_array([1.0, 2.0, 3.0], [0, 1, 0]), "ambiguous": lambda: np.array([True, False]), "long double": lambda: np.ones(3, dtype="longdouble"),
    "nan": lambda: float("nan"), "inf": lambda: float("inf"), "nul text": lambda: "a\0b", "long text": lambda: "x" * 5000, "surrogate": lambda: "\udc80",
    "lambda": lambda: (lambda: None), "slice": lambda: slice(1, 2), "recursive": lambda: _recursive(),
}


def _recursive():
    out = []
    out.append(out)
    return out


# ---------------------------------------------------------------------------
# construction of the values

def fill(spec, shape, rng):
    values = spec["values"]
    if values == "given":
        base = np.array(spec["given"], dtype="int64")
        if base.shape == tuple(shape):
            return base
        return np.resize(base, shape) if base.size else np.zeros(shape)
    if values == "sorted":
        out = rng.uniform(-1000, 6000, shape)
        return np.sort(out.reshape(-1)).reshape(shape)
    return rng.uniform(*_RANGES[values], shape)


def build_array(spec, rng):
    shape = [int(v) for v in spec["array"]][-64:]
    data = fill(spec, shape, rng)
    special = spec.get("special")
    if special is not None and data.size:
        data = np.array(data, dtype="f8")
        flat = data.reshape(-1)
        where = rng.integers(0, flat.size, size=max(1, flat.size // 3))
        flat[where] = special
    if spec.get("set") is not None and data.size:
        data = np.array(data)
        data.reshape(-1)[int(rng.integers(0, data.size))] = spec["set"]
    dtype = spec["dtype"]
    if dtype == "list":
        # empty lists do not keep shapes
        return data.tolist() if data.size else data
    if dtype == "O":
        return data.astype(object)
    with np.errstate(all="ignore"):
        data = data.astype(dtype)
    layout = spec["layout"]
    if layout == "f":
        return np.array(data, order="F")
    if layout == "stride" and data.ndim:
        big = np.zeros(tuple(2 * s for s in data.shape), data.dtype)
        view = big[tuple(slice(None, None, 2) for _ in data.shape)]
        view[...] = data
        return view
    if layout == "reverse" and data.ndim:
        return np.array(data[..., ::-1])[..., ::-1]
    if layout == "broadcast" and data.ndim:
        return np.broadcast_to(data[:1], data.shape) if data.shape[0] else data
    if layout == "unaligned":
        raw = np.zeros(data.nbytes + 1, dtype="u1")[1:]
        view = raw.view(data.dtype)[:data.size].reshape(data.shape) if data.size else data
        view[...] = data
        return view
    if layout == "readonly":
        data = np.array(data)
        data.setflags(write=False)
        return data
    if layout == "subclass":
        return data.view(np.matrix) if data.ndim == 2 else data.view(np.recarray) if data.ndim else data
    return np.array(data, order="C")


def build(spec, rng):
    if "array" in spec:
        return build_array(spec, rng)
    if "sequence" in spec:
        items = [build(v, rng) for v in spec["items"]]
        return tuple(items) if spec["sequence"] == "tuple" else items
    if "object" in spec:
        return OBJECTS[spec["object"]]()
    return spec["literal"]


def arguments(case):
    rng = gen.rng(case["params"]["seed"])
    try:
        return [build(a, rng) for a in case["args"]]
    except Exception as exc:
        raise HarnessError("arguments cannot be built: %r %r" % (exc, case)) from exc


# ---------------------------------------------------------------------------
# generators

@st.composite
def params(draw, names):
    name = draw(st.sampled_from(names))
    ndim = draw(st.sampled_from([0, 1, 1, 2, 3]))
    prefix = [draw(st.sampled_from([1, 2, 3, 4, 0, 5])) for _ in range(ndim)]
    return name, {"prefix": prefix, "prefixes": [prefix[:draw(st.integers(0, ndim))] for _ in range(4)],
                  "other": [draw(st.integers(0, 3)) for _ in range(draw(st.integers(0, 2)))],
                  "n": draw(st.sampled_from([0, 1, 2, 3, 5, 13, 17])), "nterm": draw(st.integers(1, 6)), "nt": draw(st.integers(0, 4)), "n2": draw(st.integers(0, 3)),
                  "nset": draw(st.integers(1, 3)), "min1": draw(st.integers(-3, 2)), "min2": draw(st.integers(-3, 2)), "mode": draw(st.integers(1, 3)),
                  "kin": draw(st.sampled_from(KIND_VALUES)), "kout": draw(st.sampled_from(KIND_VALUES)), "flags": draw(st.integers(0, 63)), "seed": draw(gen.SEED)}


KIND_VALUES = [int(em.GEODETIC_ABOVE_WGS84), int(em.GEOCENTRIC_SPHERICAL), int(em.GEOCENTRIC_CARTESIAN)]
LAYOUTS = ["c", "f", "stride", "reverse", "broadcast", "unaligned", "readonly", "subclass"]
SAFE_DTYPES = ["f8", "f4", "f2", "i4", "i8", "i2", "i1", "u1", "u4", ">f8", ">i4", "list", "?"]
SPECIAL = [float("nan"), float("inf"), -float("inf"), 1e308, -1e308, 1e-308, 0.0, -0.0, 1e20, 9e15, 5e-324, 2147483648.0, -1e6]


def leaves(args, path=()):
    """paths of arguments, the items of sequences included"""
    out = []
    for i, item in enumerate(args):
        out.append(path + (i,))
        if "sequence" in item:
            out += leaves(item["items"], path + (i,))
    return out


def container(args, path):
    for i in path[:-1]:
        args = args[i]["items"]
    return args


@st.composite
def form_change(draw, item):
    """another representation of the same array"""
    item = dict(item)
    item["layout"] = draw(st.sampled_from(LAYOUTS))
    if item["values"] != "given":
        item["dtype"] = draw(st.sampled_from(SAFE_DTYPES))
        if draw(st.booleans()):
            item["special"] = draw(st.sampled_from(SPECIAL))
    else:
        item["dtype"] = draw(st.sampled_from(["i4", "i2", "i1", ">i4", "list"]))
    return item


@st.composite
def good_case(draw, names):
    name, p = draw(params(names))
    spec = FUNCS[name][1](p)
    args = spec["args"]
    for path in leaves(args):
        box, i = container(args, path), path[-1]
        if "array" in box[i] and draw(st.integers(0, 2)) == 0:
            box[i] = draw(form_change(box[i]))
    return {"func": name, "params": p, "args": args, "out": spec["out"], "type": spec.get("type", "f")}


@st.composite
def bad_case(draw, names):
    """one to three arguments replaced by something else"""
    name, p = draw(params(names))
    spec = FUNCS[name][1](p)
    args = spec["args"]
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        paths = leaves(args)
        if not paths:
            break
        path = paths[draw(st.integers(0, len(paths) - 1))]
        box, i = container(args, path), path[-1]
        item = box[i]
        action = draw(st.sampled_from(["object", "shape", "shape", "shape", "special", "set", "other", "drop", "repeat", "swap", "ndim"]))
        if action in ("shape", "ndim", "special", "set") and "array" not in item:
            action = "other"
        if action == "object":
            box[i] = {"object": draw(st.sampled_from(sorted(OBJECTS)))}
        elif action == "shape":
            shape = list(item["array"])
            op = draw(st.sampled_from(["resize", "resize", "append", "remove", "insert", "zero", "large"]))
            at = draw(st.integers(0, max(0, len(shape) - 1)))
            if op == "append" or not shape:
                shape = shape + [draw(st.integers(0, 4))]
            elif op == "insert":
                shape.insert(at, draw(st.integers(0, 3)))
            elif op == "remove":
                del shape[at]
            elif op == "zero":
                shape[at] = 0
            elif op == "large" and np.prod([max(s, 1) for s in shape]) < 3000:
                shape[at] += draw(st.sampled_from([7, 30, 200]))
            else:
                shape[at] = max(0, shape[at] + draw(st.sampled_from([-2, -1, 1, 2])))
            box[i] = dict(item, array=shape)
        elif action == "ndim":
            extra = draw(st.sampled_from([12, 13, 14, 15, 16, 17, 28, 30, 31, 32, 33, 58, 61, 62, 63]))
            box[i] = dict(item, array=([1] * extra + item["array"]) if len(item["array"]) + extra <= 64 else [1] * 64)
        elif action == "special":
            box[i] = dict(item, special=draw(st.sampled_from(SPECIAL)), dtype="f8")
        elif action == "set":
            box[i] = dict(item, set=draw(st.sampled_from([-1, -2, 7, 100, 46341, 2 ** 31 - 1, -2 ** 31, 65535])))
        elif action == "other":
            box[i] = lit(draw(st.sampled_from([0, 1, 2, 3, 4, -1, -7, 100, 65535, 2 ** 31 - 1, -2 ** 31, True, False, 1.5, 0.0, -1.0, 1e308, ""])))
        elif action == "drop":
            del box[i]
        elif action == "repeat":
            box.insert(i, item)
        elif action == "swap":
            j = draw(st.integers(0, len(box) - 1))
            box[i], box[j] = box[j], box[i]
    return {"func": name, "params": p, "args": args}


def limited(case):
    """degree arguments large enough to allocate gigabytes are not evaluated here"""
    if case["func"] in ("legendre", "loncossin", "relradpow") and len(case["args"]) > 1:
        value = case["args"][1]
        degree = value.get("literal", value.get("array"))
        return not (isinstance(degree, int) and degree > 3000)
    return True


# ---------------------------------------------------------------------------
# result

def call(case, args):
    return FUNCS[case["func"]][0](*args)


def parts(value):
    return list(value) if isinstance(value, (tuple, list)) else [value]


def touch(value):
    """reads all bytes of the result"""
    total = 0
    for item in parts(value):
        item = np.asarray(item)
        require(item.dtype.kind in "fi" and item.dtype.itemsize == 8, "unexpected type of the result", dtype=str(item.dtype))
        total += len(item.tobytes())
    return total


def snapshot(args):
    return [repr(a) for a in args]


@check(good_case(sorted(FUNCS)), quick=5000, thorough=150000, variant="asan",
       rule="array arguments of an unusual type, layout or with special values")
def consistent_arguments(case, ctx):
    """well-shaped arguments of any type, memory layout and values give results of the right shape"""
    args = arguments(case)
    before = snapshot(args)
    value = call(case, args)
    got = parts(value)
    require(len(got) == len(case["out"]), "wrong number of results", got=len(got), expected=len(case["out"]), case=case)
    for item, shape in zip(got, case["out"]):
        item = np.asarray(item)
        kinds = "i" if case["type"] == "i" else "f"
        require(item.dtype.kind in kinds and item.dtype.itemsize == 8, "wrong type of the result", got=str(item.dtype), case=case)
        require(list(item.shape) == list(shape), "wrong shape of the result", got=item.shape, expected=shape, case=case)
    touch(value)
    require(snapshot(args) == before, "the arguments have changed", case=case)
    ctx.label(case["func"])
    if any(case_item.get("layout", "c") != "c" or case_item.get("dtype") not in (None, "f8") or "special" in case_item
           for case_item in case["args"]):
        ctx.nontrivial()


def attempt(case, args, ctx):
    try:
        value = call(case, args)
    except MemoryError:
        ctx.label("MemoryError")
        return None
    except SystemError as exc:
        fail("an exception is reported together with a result or no exception without a result", error=repr(exc), case=case)
    except Exception as exc:  # pylint: disable=broad-except
        ctx.label(type(exc).__name__)
        require(str(exc) is not None, "no message")
        return None
    require(value is not None, "nothing returned", case=case)
    touch(value)
    return value


@check(bad_case(sorted(FUNCS)).filter(limited), quick=7000, thorough=250000, variant="asan",
       rule="the call raised an exception or returned for changed arguments")
def arbitrary_arguments(case, ctx):
    """replaced, reshaped, dropped or swapped arguments either raise or return"""
    args = arguments(case)
    value = attempt(case, args, ctx)
    ctx.nontrivial("%s %s" % (case["func"], "returns" if value is not None else "raises"))


@check(bad_case(["shevaltemp", "sheval2dfs", "sheval", "spharpot", "sphargrd", "interp", "fourier2d"]).filter(limited), quick=5000, thorough=250000, variant="asan",
       rule="the call raised an exception or returned for changed arguments")
def arbitrary_coefficients(case, ctx):
    """the same for the functions processing coefficients"""
    args = arguments(case)
    value = attempt(case, args, ctx)
    ctx.nontrivial("%s %s" % (case["func"], "returns" if value is not None else "raises"))


# ---------------------------------------------------------------------------
# inconsistent arguments are rejected

@st.composite
def fault(draw):
    name, p = draw(params(sorted(FUNCS)))
    p["prefix"] = [max(v, 1) for v in p["prefix"]]
    p["prefixes"] = [[max(v, 1) for v in q] for q in p["prefixes"]]
    p["other"] = [max(v, 1) for v in p["other"]]
    p["nt"] = max(p["nt"], 1)
    p["n"] = max(p["n"], 1)
    spec = FUNCS[name][1](p)
    return {"func": name, "params": p, "args": spec["args"], "fault": draw(st.integers(0, 1000)), "number": draw(st.integers(1, 24)), "pick": draw(st.integers(0, 1000))}


def resized(item, axis, new):
    shape = list(item["array"])
    shape[axis] = new
    return dict(item, array=shape)


def faults(case):
    """list of definitely inconsistent variants of the arguments: (label, args)"""
    name, p, args, pick = case["func"], case["params"], case["args"], case["pick"]
    out = []

    def put(label, i, item):
        new = list(args)
        new[i] = item
        out.append((label, new))

    bad_size = [v for v in (0, 1, 2, 4, 5, 6)]
    positions = {"vrot_sph2cart": 0, "vrot_cart2sph": 0, "vrot_sph2geod": 0, "sheval": 0, "shevaltemp": 1, "sheval2dfs": 2, "convert": 0}
    if name in positions:
        i = positions[name]
        put("last dimension of positions", i, resized(args[i], -1, bad_size[pick % 6]))
        put("scalar position", i, arr([], "any"))
    for fname, where in {"convert": [1, 2], "sheval": [2, 3], "shevaltemp": [3, 4], "sheval2dfs": [4, 5]}.items():
        if fname == name:
            for i in where:
                value = [v for v in (-1, 3, 4, 5, 99, 2 ** 31 - 1) if v not in KIND_VALUES][pick % 4]
                put("unknown coordinates", i, lit(value))
                put("coordinates of a wrong type", i, lit(["text", None, 1.5][pick % 3]))
    for fname, i in {"sheval": 4, "shevaltemp": 5, "sheval2dfs": 6}.items():
        if fname == name:
            put("unknown mode", i, lit([0, 4, -1, 8, 7][pick % 5]))
            put("wrong number of scales", i + (4 if name == "sheval" else 3), arr([[0, 1, 2, 4][pick % 4]], "scale"))
            put("2D scales", i + (4 if name == "sheval" else 3), arr([1, 3], "scale"))
    if name in ("legendre", "loncossin", "relradpow"):
        put("negative degree", 1, lit([-1, -2, -100, -2 ** 31][pick % 4]))
        put("degree of a wrong type", 1, lit([1.5, "1", None, 2 ** 31, 2 ** 63][pick % 5]))
    if name == "relradpow":
        put("reference radius", 2, lit([0.0, -1.0, -6371.2][pick % 3]))
    if name == "bisect":
        put("unknown side", 2, lit([2, -1, 3, 100][pick % 4]))
        put("2D nodes", 0, arr([2, 3], "any"))
    if name == "interp":
        put("unknown kind", 3, lit([v for v in range(-3, 2000) if v not in (pm.INTERP_C0, pm.INTERP_C1, pm.INTERP_C1D1)][pick]))
        put("series and nodes", 2, resized(args[2], -1, args[2]["array"][-1] + [-1, 1][pick % 2]))
        few = list(args)
        few[1], few[2] = resized(args[1], 0, 0), resized(args[2], -1, 0)
        out.append(("no nodes", few))
        if args[3]["literal"] != pm.INTERP_C0:
            few = list(args)
            few[1], few[2] = resized(args[1], 0, 1), resized(args[2], -1, 1)
            out.append(("one node", few))
    if name in ("spharpot", "sphargrd"):
        pairs = [1, 4] if name == "spharpot" else [1, 5]
        for i in pairs:
            put("pairs", i, resized(args[i], -1, [0, 1, 3, 4][pick % 4]))
        for i in range(1, 5 if name == "spharpot" else 6):
            axis = -2 if i in pairs else -1
            put("empty item of a series", i, resized(args[i], axis, 0))
    if name == "sheval":
        put("pairs", 1, resized(args[1], -1, [0, 1, 3, 4][pick % 4]))
        put("no coefficients", 1, resized(args[1], -2, 0))
        put("1D coefficients", 1, arr([ncoef(p["n"])], "any"))
    if name == "fourier2d":
        put("pairs", 2, resized(args[2], -1, [0, 1, 3, 4][pick % 4]))
        put("2D coefficients", 2, arr([2, 2], "any"))
        put("degree of a wrong type", 3, lit([1.5, "1", None, 2 ** 31][pick % 4]))
    if name in ("shevaltemp", "sheval2dfs"):
        at = 2 if name == "shevaltemp" else 3
        if name == "shevaltemp":
            sets = args[at]["items"]
            k = pick % len(sets)
            one = sets[k]["items"]

            def put_set(label, j, item):
                put(label, at, seq("list", sets[:k] + [seq("tuple", one[:j] + [item] + one[j + 1:])] + sets[k + 1:]))
            put("no set", at, seq("list", []))
            put("too many sets", at, seq("list", [sets[0]] * [17, 17, 18, 33, 200][pick % 5]))
            put("list set", at, seq("list", sets[:k] + [seq("list", one)] + sets[k + 1:]))
            put("short set", at, seq("list", sets[:k] + [seq("tuple", one[:3])] + sets[k + 1:]))
            put("long set", at, seq("list", sets[:k] + [seq("tuple", one + one[3:])] + sets[k + 1:]))
            put("tuple of sets", at, seq("tuple", sets))
            put_set("spline order", 3, lit([0, 3, -1, 100, 2 ** 31, 2 ** 32 + 2, 2 ** 64 + 2, 1 - 2 ** 32][pick % 8]))
            put_set("spline order of a wrong type", 3, lit([1.0, "1", None][pick % 3]))
            put_set("nodes and series", 0, resized(one[0], 0, one[0]["array"][0] + [-1, 1][pick % 2]))
            put_set("2D nodes", 0, arr([1, one[0]["array"][0]], "sorted"))
            put_set("terms of the series", 1, resized(one[1], 0, one[1]["array"][0] + [-1, 1][pick % 2]))
            put_set("scalar series", 1, arr([], "any"))
            put_set("1D series", 1, arr([one[1]["array"][1]], "any"))
            few = list(one)
            few[0], few[1] = resized(one[0], 0, 0), resized(one[1], 1, 0)
            put("no nodes", at, seq("list", sets[:k] + [seq("tuple", few)] + sets[k + 1:]))
            if one[3]["literal"] == 2:
                few[0], few[1] = resized(one[0], 0, 1), resized(one[1], 1, 1)
                put("one node", at, seq("list", sets[:k] + [seq("tuple", few)] + sets[k + 1:]))
                none = list(few)
                none[1], none[2] = resized(few[1], 0, 0), dict(one[2], array=[0, 2], given=[])
                put("one node and no terms", at, seq("list", sets[:k] + [seq("tuple", none)] + sets[k + 1:]))
            which, nm = 2, one[2]
        else:
            one = args[at]["items"]

            def put_set(label, j, item):
                put(label, at, seq("tuple", one[:j] + [item] + one[j + 1:]))
            put("list set", at, seq("list", one))
            put("short set", at, seq("tuple", one[:5]))
            put("long set", at, seq("tuple", one + one[5:]))
            put_set("terms of the series", 0, resized(one[0], 0, one[0]["array"][0] + [-1, 1][pick % 2]))
            put_set("pairs", 0, resized(one[0], -1, [0, 1, 3][pick % 3]))
            put_set("dimensions of the series", 0, arr(one[0]["array"][:3], "any"))
            put_set("dimensions of the series", 0, arr([1] + one[0]["array"], "any"))
            put_set("min. degree of a wrong type", 2 + pick % 2, lit([1.0, "1", None][pick % 3]))
            put_set("min. degree out of range", 2 + pick % 2, lit([2 ** 63, -2 ** 63 - 1, 2 ** 64, -2 ** 64, 2 ** 70][pick % 5]))
            put_set("scale of a wrong type", 4 + pick % 2, lit(["1", None][pick % 2]))
            which, nm = 1, one[1]
        put_set("columns of indices", which, dict(nm, array=[nm["array"][0], [0, 1, 3][pick % 3]]))
        put_set("1D indices", which, dict(nm, array=[2]))
        put_set("number of indices", which, dict(nm, array=[nm["array"][0] + [-1, 1][(pick >> 1) % 2], 2]))
        bad = [list(v) for v in nm["given"]]
        n = bad[pick % len(bad)][0]
        bad[pick % len(bad)] = [[n, n + 1], [n, -n - 1], [-1, 0], [-5, 2], [-1, 1], [n, 2 ** 31 - 1], [n, -2 ** 31], [-2 ** 31, 0]][pick % 8]
        put_set("invalid degree and order", which, dict(nm, given=bad))
        put_set("real indices", which, dict(nm, dtype="f8", set=0.5))
    if name in ("eval_qdlatlon", "eval_mlt", "quasi-dipole", "quasi-dipole bases"):
        nargs = 2 if name == "eval_mlt" else 4
        i = pick % nargs
        put("different shapes", i, arr([(p["prefix"] + [1])[0] + 1], "scale"))
        put("2D", i, arr([1, 1], "scale"))
    if name in ("eval_qdlatlon", "quasi-dipole", "quasi-dipole bases"):
        put("missing file", 4, lit(["/nonexistent/apex.txt", "", "."][pick % 3]))
        put("wrong type of the file", 4, lit([None, 1.5][pick % 2]))
        put("long name", 4, {"object": "long text"})
        put("zero byte", 4, {"object": "nul text"})
    if name == "eval_subsol":
        put("2D", 0, arr([1, 1], "time"))
    if name in ("sunpos", "sunpos_original", "vrot_sph2cart", "vrot_cart2sph", "vrot_sph2geod", "spharpot", "sphargrd", "sheval", "shevaltemp", "sheval2dfs", "fourier2d"):
        # leading dimensions are shared
        lead = {"sheval": {0: 1, 1: 2}, "shevaltemp": {0: 0, 1: 1}, "sheval2dfs": {0: 0, 1: 0, 2: 1}, "spharpot": {0: 0, 1: 2, 2: 1, 3: 1, 4: 2},
                "sphargrd": {0: 0, 1: 2, 2: 1, 3: 1, 4: 1, 5: 2}, "fourier2d": {0: 0, 1: 0}}.get(name)
        if lead is None:
            lead = {i: (1 if i == 0 and name[0] == "v" else 0) for i in range(len(args))}
        keys = sorted(lead)
        i = keys[pick % len(keys)]
        others = [j for j in keys if j != i and len(args[j]["array"]) > lead[j]]
        if others and len(args[i]["array"]) > lead[i]:
            put("different leading dimensions", i, resized(args[i], 0, args[i]["array"][0] + 1))
            if args[i]["array"][0] > 1:
                put("smaller leading dimensions", i, resized(args[i], 0, args[i]["array"][0] - 1))
        if name[0] == "v" or name.startswith("sunpos"):
            # neither a scalar nor the shape of the other arguments
            for i in keys:
                extra = len(args[i]["array"]) - lead[i]
                if extra > 1 and any(j != i and len(args[j]["array"]) - lead[j] == extra for j in keys):
                    put("missing dimension", i, dict(args[i], array=args[i]["array"][1:]))
                    put("extra dimension", i, dict(args[i], array=[1] + args[i]["array"]))
    for i, item in enumerate(args):
        if "array" in item:
            obj = ["None", "text", "object", "complex array", "ragged", "dict", "generator", "bad array", "bad sequence", "structured"][pick % 10]
            if obj != "None":
                put("not a number: " + obj, i, {"object": obj})
    put("missing argument", 0, args[0])
    out[-1] = ("missing argument", [])
    put("too many arguments", 0, args[0])
    out[-1] = ("too many arguments", args + [lit(1)] * 12)
    return out


@check(fault(), quick=5000, thorough=150000, variant="asan", rule="1-24 calls, each with one inconsistent argument")
def inconsistent_arguments(case, ctx):
    """wrong dimensions, indices, types, modes and numbers of coefficients raise"""
    items = faults(case)
    start = case["fault"] % len(items)
    for label, spec in (items[start:] + items[:start])[:case["number"]]:
        args = arguments(dict(case, args=spec))
        ctx.nontrivial("%s: %s" % (case["func"], label))
        try:
            value = call(case, args)
        except SystemError as exc:
            fail("an exception is reported together with a result or no exception without a result", error=repr(exc), fault=label, case=case)
        except Exception as exc:  # pylint: disable=broad-except
            ctx.label(type(exc).__name__)
        else:
            fail("inconsistent arguments were accepted", fault=label, args=spec, got=value, func=case["func"])


# ---------------------------------------------------------------------------
# content of the results does not depend on the content of the fresh memory

def _libc():
    return ctypes.CDLL(None, use_errno=True)


class Perturbed:
    """all fresh allocations are filled by a byte"""
    M_PERTURB = -6

    def __init__(self, value):
        self.value = value

    def __enter__(self):
        _libc().mallopt(self.M_PERTURB, self.value)

    def __exit__(self, *_):
        _libc().mallopt(self.M_PERTURB, 0)


def pollute(sizes, byte):
    """fills cached blocks of the array allocator"""
    blocks = [np.empty(s, dtype="u1") for s in sizes for _ in range(3)]
    for b in blocks:
        b.fill(byte)
    del blocks


def finite_params():
    return good_case(sorted(set(FUNCS) - {"eval_qdlatlon", "quasi-dipole", "quasi-dipole bases"}) + ["eval_qdlatlon"])


@check(finite_params(), quick=3000, thorough=60000, variant="plain", rule="non-empty result")
def fresh_memory(case, ctx):
    """no result contains left-overs of uninitialised memory"""
    args = arguments(case)
    results = []
    for byte in (0x00, 0x3f, 0xff):
        with Perturbed(byte ^ 0xff if byte else 0x55):
            sizes = sorted({max(8, int(8 * np.prod(s))) for s in case["out"]} | {8, 16, 24, 64, 128, 256, 512, 1024})
            pollute([s for s in sizes if s < 100000], byte)
            value = call(case, args)
            results.append([np.array(v) for v in parts(value)])
    size = sum(v.size for v in results[0])
    for other in results[1:]:
        for a, b in zip(results[0], other):
            same = (a == b) | ((a != a) & (b != b))
            require(np.all(same), "the result depends on the content of the memory before the call", first=a, second=b, case=case)
    if size:
        ctx.nontrivial(case["func"])


# ---------------------------------------------------------------------------
# memory

class _MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


def heap():
    func = _libc().mallinfo2
    func.restype = _MallInfo
    info = func()
    return info.uordblks + info.hblkhd


def references(objects):
    return [sys.getrefcount(o) for o in objects]


def collect(args, out, depth=4):
    for item in args:
        if isinstance(item, (list, tuple)) and depth:
            collect(item, out, depth - 1)
        if isinstance(item, np.ndarray):
            out.append(item)
            if item.base is not None:
                out.append(item.base)
            out.append(item.dtype)


@st.composite
def leak_case(draw):
    if draw(st.booleans()):
        return draw(good_case(sorted(FUNCS)))
    if draw(st.booleans()):
        case = draw(fault())
        return dict(case, faulty=True)
    return draw(bad_case(sorted(FUNCS)).filter(limited))


@check(leak_case(), quick=700, thorough=12000, variant="plain", rule="repeated call")
def no_leaks(case, ctx):
    """repeated successful and failing calls keep neither memory nor references"""
    if case.get("faulty"):
        items = faults(case)
        case = dict(case, args=items[case["fault"] % len(items)][1])
    args = arguments(case)
    if "eval_qdlatlon" == case["func"] or case["func"].startswith("quasi"):
        repeats = 12
    else:
        repeats = 60
    state = "returns"

    def run(number):
        nonlocal state
        for _ in range(number):
            try:
                value = call(case, args)
                del value
            except SystemError as exc:
                fail("inconsistent error state", error=repr(exc), case=case)
            except Exception:  # pylint: disable=broad-except
                state = "raises"
    arrays = []
    collect(args, arrays)
    run(8)
    worst = None
    for attempt_ in range(3):
        gc.collect()
        refs, blocks, used = references(arrays), sys.getallocatedblocks(), heap()
        run(repeats)
        gc.collect()
        d_refs = max([b - a for a, b in zip(refs, references(arrays))] or [0], key=abs)
        d_blocks, d_used = sys.getallocatedblocks() - blocks, heap() - used
        # a leaked object per call is at least one block or 8 bytes per call
        if abs(d_refs) < repeats // 2 and d_blocks < repeats // 2 and d_used < 8 * repeats:
            break
        worst = (d_refs, d_blocks, d_used)
    else:
        fail("memory or references are leaked", repeats=repeats, references=worst[0], blocks=worst[1], bytes=worst[2], case=case)
    ctx.nontrivial("%s %s" % (case["func"], state))


# ---------------------------------------------------------------------------
# sizes which cannot be allocated

@st.composite
def huge(draw):
    name = draw(st.sampled_from(["legendre", "loncossin", "relradpow", "nm", "nm2", "min_degree", "fourier min_degree"]))
    value = draw(st.sampled_from([65534, 65535, 65536, 46339, 46340, 46341, 2 ** 31 - 1, 2 ** 31 - 2, 2 ** 30, 2 ** 24, 10 ** 9, 92680, 92681, 92682, 131070]))
    return {"name": name, "degree": value, "sign": draw(st.sampled_from([1, -1])), "count": draw(st.sampled_from([0, 1, 1, 2])), "fast": draw(st.booleans())}


@check(huge(), quick=100, thorough=2000, variant="plain", rule="a size which cannot be allocated", isolate=False)
def huge_sizes(case, ctx):
    """degrees too large to be evaluated raise an exception; nothing is killed"""
    import resource
    pid_read, pid_write = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(pid_read)
        code = 3
        try:
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                value = huge_call(case)
                code = 0
                os.write(pid_write, repr([np.shape(v) for v in parts(value)]).encode())
            except SystemError as exc:
                code = 2
                os.write(pid_write, repr(exc).encode()[:500])
            except Exception as exc:  # pylint: disable=broad-except
                code = 1
                os.write(pid_write, repr(exc).encode()[:500])
        finally:
            os._exit(code)
    os.close(pid_write)
    with os.fdopen(pid_read, "rb") as file:
        text = file.read().decode(errors="replace")
    _, status = os.waitpid(pid, 0)
    require(os.WIFEXITED(status), "the process was killed", signal=os.WTERMSIG(status) if os.WIFSIGNALED(status) else None, case=case)
    code = os.WEXITSTATUS(status)
    require(code in (0, 1), "unexpected end", code=code, text=text, case=case)
    ctx.nontrivial("returns" if code == 0 else text.split("(")[0])


def huge_call(case):
    n, name = case["degree"], case["name"]
    if name in ("legendre", "loncossin", "relradpow"):
        x = np.full(case["count"], 45.0) if case["count"] != 2 else 45.0
        if name == "legendre":
            return pm.legendre(x, n)
        if name == "relradpow":
            return pm.relradpow(np.add(x, 7000.0), n)
        return pm.loncossin(x, n, case["fast"])
    if name == "nm":
        nm = np.array([[1, 0], [n, case["sign"] * min(n, 3)]], dtype="i4")
        return pm.shevaltemp(0.0, [1.0, 2.0, 7000.0], [(np.array([0.0, 1.0]), np.ones((2, 2)), nm, 2)])
    if name == "nm2":
        nm = np.array([[n, case["sign"] * n]], dtype="i4")
        return pm.sheval2dfs(0.0, 1.0, [1.0, 2.0, 7000.0], (np.ones((1, 1, 1, 2)), nm, 0, 0, 1.0, 1.0))
    if name == "min_degree":
        nm = np.array([[1, 0]], dtype="i4")
        return pm.sheval2dfs(0.0, 1.0, [1.0, 2.0, 7000.0], (np.ones((1, 2, 2, 2)), nm, case["sign"] * n, -case["sign"] * n, 1.0, 1.0))
    return pm.fourier2d(0.5, 0.25, np.ones((3, 2, 2)), case["sign"] * n, n)
