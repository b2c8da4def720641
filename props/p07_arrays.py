"""P07 array evaluation equals pointwise evaluation"""
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
import eoxmagmod._pymm as pm
import eoxmagmod._pytimeconv as tc
import eoxmagmod.time_util as tu
from vh import gen
from vh.shgen import KINDS, ncoef
from vh.core import check, require, require_close, require_same, require_shape, fail

# ---------------------------------------------------------------------------
# sources of values: f(rng, shape) -> array


def lat(r, s):
    return r.choice([r.uniform(-90, 90), 90.0, -90.0, 0.0], p=[.7, .1, .1, .1]) if s == () else \
        np.where(r.random(s) < .15, r.choice([90.0, -90.0, 0.0], size=s), r.uniform(-90, 90, s))


def lon(r, s):
    return np.where(r.random(s) < .1, r.choice([180.0, -180.0, 0.0, 360.0], size=s), r.uniform(-400, 400, s))


def rad(r, s):
    return r.uniform(6000, 9000, s)


def vec(r, s):
    return r.normal(size=s + (3,)) * 1e4


def position(kind):
    def make(r, s):
        if kind == 2:
            return r.normal(size=s + (3,)) * 5000 + 500.0
        third = r.uniform(-100, 3000, s) if kind == 0 else rad(r, s)
        return np.stack([np.broadcast_to(lat(r, s), s), lon(r, s), third], -1)
    return make


def uniform(lo, hi):
    return lambda r, s: r.uniform(lo, hi, s)


def stepped(lo, hi, step):
    """values far enough from each other: QD epochs are resolved to one day"""
    return lambda r, s: lo + step * r.integers(0, int((hi - lo) / step), size=s)


def normal(*item):
    return lambda r, s: r.normal(size=s + item) * 10


LEADING, SCALAR, SAME = "leading", "scalar", "same"


def f_convert(r):
    a, b = r.integers(0, 3, 2)
    return SAME, [(1, position(a))], lambda x: pm.convert(x, KINDS[a], KINDS[b]), (1,)


def f_vrot_sph2geod(r):
    return SCALAR, [(1, vec), (0, uniform(-1, 1))], pm.vrot_sph2geod, (1,)


def f_vrot_sph2cart(r):
    return SCALAR, [(1, vec), (0, lat), (0, lon)], pm.vrot_sph2cart, (1,)


def f_vrot_cart2sph(r):
    return SCALAR, [(1, vec), (0, lat), (0, lon)], pm.vrot_cart2sph, (1,)


def f_vrotate(r):
    a, b = r.integers(0, 3, 2)
    if a == b:
        b = (a + 1) % 3
    return SAME, [(1, vec), (1, position(a)), (1, position(b))], lambda v, x, y: em.vrotate(v, x, y, KINDS[a], KINDS[b]), (1,)


def f_vnorm(r):
    return SAME, [(1, vec)], em.vnorm, (0,)


def f_vincdecnorm(r):
    return SAME, [(1, vec)], em.vincdecnorm, (0, 0, 0)


def f_legendre(r):
    n = int(r.integers(0, 25))
    return SAME, [(0, lat)], lambda x: pm.legendre(x, n), (1, 1)


def f_loncossin(r):
    n, fast = int(r.integers(0, 12)), bool(r.integers(0, 2))
    return SAME, [(0, lon)], lambda x: pm.loncossin(x, n, fast), (2,)


def f_relradpow(r):
    n, internal = int(r.integers(0, 12)), bool(r.integers(0, 2))
    return SAME, [(0, rad)], lambda x: pm.relradpow(x, n, is_internal=internal), (1,)


def f_spharpot(r):
    n = int(r.integers(0, 5))
    deg = int(r.integers(-1, 6))
    return LEADING, [(0, rad), (2, normal(ncoef(n), 2)), (1, normal(ncoef(n))), (1, normal(n + 1)), (2, normal(n + 1, 2))], \
        lambda *a: pm.spharpot(*a, degree=deg), (0,)


def f_sphargrd(r):
    n = int(r.integers(0, 5))
    deg, internal = int(r.integers(-1, 6)), bool(r.integers(0, 2))
    return LEADING, [(0, lat), (2, normal(ncoef(n), 2)), (1, normal(ncoef(n))), (1, normal(ncoef(n))), (1, normal(n + 1)), (2, normal(n + 1, 2))], \
        lambda *a: pm.sphargrd(*a, degree=deg, is_internal=internal), (1,)


def modes(r):
    mode = int(r.integers(1, 4))
    return mode, {1: (0,), 2: (1,), 3: (0, 1)}[mode]


def f_sheval(r):
    n = int(r.integers(0, 6)) if r.random() < .8 else 18
    a, b = r.integers(0, 3, 2)
    mode, out = modes(r)
    kw = {"is_internal": bool(r.integers(0, 2)), "scale_gradient": [1.0, 2.0, -1.0], "scale_potential": 0.5}
    return LEADING, [(1, position(a)), (2, normal(ncoef(n), 2))], \
        lambda x, c: pm.sheval(x, c, KINDS[a], KINDS[b], mode, **kw), out


def f_shevaltemp(r):
    nm = np.array([(1, 0), (1, 1), (1, -1), (2, 0), (4, -3)], dtype="int32")
    times = np.array([-5.0, 0.0, 3.0, 10.0])
    sets = [(times, r.normal(size=(5, 4)) * 100, nm, 2), (times[1:], r.normal(size=(2, 3)) * 100, nm[1:3], 1)]
    a, b = r.integers(0, 3, 2)
    mode, out = modes(r)
    return LEADING, [(0, uniform(-7, 12)), (1, position(a))], \
        lambda t, x: pm.shevaltemp(t, x, sets, KINDS[a], KINDS[b], mode), out


def f_sheval2dfs(r):
    nm = np.array([(1, 0), (1, 1), (1, -1), (3, 2)], dtype="int32")
    cset = (r.normal(size=(4, 3, 4, 2)) * 10, nm, -1, -2, 0.01, 0.2)
    a, b = r.integers(0, 3, 2)
    mode, out = modes(r)
    return LEADING, [(0, uniform(-50, 400)), (0, uniform(0, 24)), (1, position(a))], \
        lambda t, u, x: pm.sheval2dfs(t, u, x, cset, KINDS[a], KINDS[b], mode), out


def f_fourier2d(r):
    ab = r.normal(size=(2, 3, 4, 2))
    return SAME, [(0, uniform(-50, 400)), (0, uniform(0, 24))], lambda t, u: pm.fourier2d(t, u, ab, -1, -2, 0.1, 0.2), (1,)


def f_interp(r):
    nodes = np.cumsum(r.uniform(1, 3, 5)) - 5
    coef = r.normal(size=(2, 3, 5))
    kind = [pm.INTERP_C0, pm.INTERP_C1, pm.INTERP_C1D1][r.integers(0, 3)]
    ext = bool(r.integers(0, 2))
    return SAME, [(0, uniform(-6, 12))], lambda t: pm.interp(t, nodes, coef, kind, ext), (2,)


def f_bisect(r):
    nodes = np.sort(r.integers(-10, 10, int(r.integers(0, 9)))).astype(float)
    side = [pm.BISECT_SIDE_LEFT, pm.BISECT_SIDE_RIGHT][r.integers(0, 2)]
    return SAME, [(0, lambda r, s: r.integers(-12, 12, s) * 0.5)], lambda x: pm.bisect(nodes, x, side), (0,)


def f_timeconv(r):
    name = ["decimal_year_to_mjd2000", "mjd2000_to_decimal_year", "mjd2000_to_year_fraction",
            "decimal_year_to_mjd2000_simple", "mjd2000_to_decimal_year_simple", "mjd2000_to_year_fraction_simple"][r.integers(0, 6)]
    values = uniform(1900, 2100) if name.startswith("dec") else uniform(-40000, 40000)
    return SAME, [(0, values)], getattr(tu, name), (0,)


def f_sunpos(r):
    return SCALAR, [(0, uniform(4000, 40000)), (0, lat), (0, lon), (0, rad), (0, uniform(0, 80))], \
        (em.sunpos if r.integers(0, 2) else em.sunpos_original), (0,) * 5


def f_eval_qdlatlon(r):
    args = [(0, lat), (0, lon), (0, uniform(6400, 9000)), (0, stepped(1985, 2028, 0.5))]
    if r.integers(0, 2):
        return SAME, args, em.eval_qdlatlon, (0,) * 2
    return SAME, args, em.eval_qdlatlon_with_base_vectors, (0,) * 7


def f_eval_mlt(r):
    return SAME, [(0, uniform(-180, 180)), (0, stepped(-7000, 9000, 97.31))], em.eval_mlt, (0,)


def f_eval_subsol(r):
    return SAME, [(0, uniform(-20000, 30000))], em.eval_subsol, (0, 0)


def f_convert_to_dipole(r):
    a = r.integers(0, 3)
    pole = float(lat(r, ())), float(r.uniform(-180, 180))
    return SAME, [(1, position(a))], lambda x: em.convert_to_dipole(x, *pole, KINDS[a]), (1,)


def f_vrot_from_dipole(r):
    b = r.integers(0, 3)
    pole = float(lat(r, ())), float(r.uniform(-180, 180))
    args = [(1, vec), (0, lat), (0, lon)]
    if b == 2:
        return SCALAR, args, lambda v, x, y: em.vrot_from_dipole(v, *pole, x, y), (1,)
    return SCALAR, args + [(0, lat), (0, lon)], lambda v, x, y, p, q: em.vrot_from_dipole(v, *pole, x, y, p, q, KINDS[b]), (1,)


def f_sheval_dipole(r):
    n = int(r.integers(0, 5))
    a, b = r.integers(0, 3, 2)
    coef = r.normal(size=(ncoef(n), 2))
    pole = float(r.uniform(-90, 90)), float(r.uniform(-180, 180))
    mode, out = modes(r)
    return SAME, [(1, position(a))], lambda x: em.sheval_dipole(x, coef, *pole, KINDS[a], KINDS[b], mode, scale_gradient=[1.0, -1.0, 2.0]), out


def f_mut(r):
    pole = float(r.uniform(60, 89)), float(r.uniform(-180, 180))
    return SAME, [(0, uniform(4000, 30000))], lambda t: em.mjd2000_to_magnetic_universal_time(t, *pole), (0,)


FUNCS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("f_")}
NO_LIST = {"mut"}          # numpy arithmetic on its arguments: arrays only, by design
ONE_DIM = {"eval_qdlatlon", "eval_mlt", "eval_subsol"}
NO_F4 = {"mut", "timeconv", "vrotate", "vnorm"}     # partly calculated by numpy in the type of the inputs
INTEGRAL = ("i4", "i8")
LAYOUTS = ["C", "C", "F", "reversed", "strided", "transposed", "broadcast", "list", "f4", "i4", "i8", "swapped", "unaligned", "readonly"]


COARSE = {("eval_qdlatlon", 3), ("eval_mlt", 1)}      # epochs are resolved to one day


def densify(r, flat, item, step):
    """a track or a time series of close elements, jumping now and then"""
    for j in range(1, len(flat)):
        if r.random() < .15:
            continue
        close = flat[j - 1] + step * r.uniform(-1, 1, size=flat[j].shape) * np.maximum(1.0, np.abs(flat[j - 1]) * 1e-2)
        if item:
            # some of the components kept, others fully different
            kind = r.integers(0, 4, size=flat[j].shape)
            close = np.where(kind == 0, flat[j - 1], np.where(kind == 1, flat[j], close))
        flat[j] = close


@st.composite
def cases(draw):
    name = draw(st.sampled_from(sorted(FUNCS)))
    shape = draw(st.sampled_from([[], [1], [2], [3], [5], [2, 3], [3, 1], [2, 1, 2], [0], [2, 0], [0, 3], [4], [1, 1], [9], [40], [1, 2, 1, 3], [2, 1, 1, 1, 2, 1], [1] * 9 + [2]]))
    return {"func": name, "seed": draw(gen.SEED), "shape": shape,
            "ranks": [draw(st.sampled_from([0, 1, 2, 3] if len(shape) < 4 else [0, 1, 2, 3, 4, 6, 10])) for _ in range(6)],
            "layouts": [draw(st.sampled_from(LAYOUTS)) for _ in range(6)],
            "axes": [draw(st.integers(0, 3)) for _ in range(6)],
            "repeat": draw(st.booleans()),
            # neighbouring elements which are (almost) the same in some of the arguments
            "dense": [draw(st.one_of(st.none(), st.none(), st.integers(-13, -2))) for _ in range(6)] if draw(st.booleans()) else [None] * 6,
            "nan": draw(st.integers(0, 9)) == 0}


def lay_out(a, layout, axis):
    """the same values in another layout or type; returns (passed object, values)"""
    if layout in INTEGRAL:
        a = np.rint(a)
    if layout == "broadcast" and a.ndim and a.shape[axis % a.ndim] > 0:
        k = axis % a.ndim
        one = np.take(a, [0], axis=k)
        res = np.broadcast_to(one, a.shape)
        return res, np.array(res)
    if layout == "F":
        return np.array(a, order="F"), a
    if layout == "list":
        return a.tolist(), a
    if layout == "f4":
        a = a.astype("f4")
        return a, a.astype("f8")
    if layout in INTEGRAL:
        return a.astype(layout), a
    if layout == "swapped":
        return a.astype(">f8"), a
    if layout == "unaligned":
        buf = np.zeros(a.size * 8 + 1, dtype="u1")
        view = buf[1:].view("f8").reshape(a.shape)
        view[...] = a
        return view, a
    if layout == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b, a
    if a.ndim == 0:
        return a, a
    k = axis % a.ndim
    if layout == "reversed":
        return np.flip(np.flip(a, k).copy(), k), a
    if layout == "strided":
        shape = list(a.shape)
        shape[k] = shape[k] * 2 + 1
        big = np.full(shape, 1e30)
        sel = [slice(None)] * a.ndim
        sel[k] = slice(1, None, 2)
        view = big[tuple(sel)]
        view[...] = a
        return view, a
    if layout == "transposed":
        return a.T.copy().T, a
    return a, a


@check(cases(), quick=30000, thorough=800000,
       rule="each vectorised function with arrays of 0-10 dimensions, memory layouts, number types, partial leading dimensions, repeated and NaN elements; non-trivial with more than one element")
def pointwise(case, ctx):
    r = gen.rng(case["seed"])
    name, shape = case["func"], tuple(case["shape"])
    mode, args, func, outs = FUNCS[name](r)
    if name in ONE_DIM:
        shape = shape[:1]
    passed, values, leads = [], [], []
    full = int(r.integers(0, len(args)))
    for i, (item, make) in enumerate(args):
        if mode == SAME or i == full or (mode == SCALAR and item):
            lead = shape
        elif mode == SCALAR:
            lead = shape if case["ranks"][i] > 1 else ()
        else:
            lead = shape[:case["ranks"][i]]
        if mode == SCALAR and item and i != full:
            lead = shape
        a = np.array(make(r, lead), dtype=float)
        flat = a.reshape((-1,) + a.shape[len(lead):]) if a.size else a
        if case["repeat"] and len(lead) and len(flat) > 1 and a.size:
            # repeat an item, wholly or one of its components
            j = int(r.integers(1, len(flat)))
            i_from = j - 1 if r.random() < .7 else int(r.integers(0, j))
            if item == 1 and r.random() < .7:
                k = int(r.integers(0, flat.shape[1]))
                flat[j, k] = flat[i_from, k]
            else:
                flat[j] = flat[i_from]
        if case["dense"][i] is not None and len(lead) and len(flat) > 1 and a.size and (name, i) not in COARSE:
            densify(r, flat, item, 10.0 ** case["dense"][i])
            ctx.label("dense")
        layout = case["layouts"][i]
        if (name in NO_LIST and layout == "list") or (name in NO_F4 and layout == "f4"):
            layout = "C"
        if layout == "list" and a.size == 0:
            layout = "C"
        if case["nan"] and layout not in INTEGRAL and len(lead) and len(flat) > 1 and a.size and i == 0:
            flat[int(r.integers(0, len(flat)))] = np.nan
            ctx.label("with NaN")
        if layout == "broadcast" and not lead:
            layout = "C"        # components of one item are not interchangeable
        axis = case["axes"][i] % max(len(lead), 1) if layout == "broadcast" else case["axes"][i]
        obj, val = lay_out(a, layout, axis)
        if layout != "C":
            ctx.label(layout)
        passed.append(obj)
        values.append(val)
        leads.append(lead)
    backup = [np.array(p) for p in passed]
    count = int(np.prod(shape))
    if count > 1:
        ctx.nontrivial(name)
    if count == 0:
        ctx.label("empty")
    with np.errstate(all="ignore"):
        try:
            result = func(*passed)
        except Exception as exc:
            fail("%s: %s %s" % (name, type(exc).__name__, exc), case=case, shapes=[np.shape(p) for p in passed])
    for p, b in zip(passed, backup):
        require_same(p, b, name + " modified its input", case=case)
    results = result if len(outs) > 1 else (result,)
    require(len(results) == len(outs), name + " returned a wrong number of arrays", case=case)
    for res, out in zip(results, outs):
        require(np.shape(res)[:len(shape)] == shape and np.ndim(res) == len(shape) + out,
                name + " returned a wrong shape", got=np.shape(res), expected=shape, case=case)
    for idx in np.ndindex(*shape):
        single = [v[idx[:len(lead)]] for v, lead in zip(values, leads)]
        with np.errstate(all="ignore"):
            alone = func(*single)
        alone = alone if len(outs) > 1 else (alone,)
        for res, one in zip(results, alone):
            one = np.asarray(one)
            finite = one[np.isfinite(one)]
            tol = 1e-13 * (np.max(np.abs(finite)) if finite.size else 0.0)
            require_close(np.asarray(res)[idx], one, tol, name + ": element differs from its own evaluation", position=idx, case=case)


SIZES = [65, 129, 257, 300, 511, 513, 1000, 1023, 1025, 2049, 4097, 10001, 16385, 32769, 65537]


@st.composite
def large_cases(draw):
    return {"func": draw(st.sampled_from(sorted(FUNCS))), "seed": draw(gen.SEED), "size": draw(st.one_of(st.sampled_from(SIZES), st.integers(100, 3000))),
            "shape": draw(st.sampled_from(["n", "n", "1n", "n1", "2n", "n2"])), "parts": draw(st.integers(2, 9)),
            "ranks": [draw(st.integers(0, 2)) for _ in range(6)], "dense": draw(st.sampled_from([None, None, -9, -4]))}


@check(large_cases(), quick=900, thorough=30000,
       rule="each vectorised function with arrays of 65-65537 (131074) elements compared with its evaluation by parts and of sampled elements; non-trivial with more than 256 elements")
def large_arrays(case, ctx):
    """large arrays are evaluated as their parts"""
    r = gen.rng(case["seed"])
    name, size = case["func"], case["size"]
    mode, args, func, outs = FUNCS[name](r)
    shape = (size,) if name in ONE_DIM else {"n": (size,), "1n": (1, size), "n1": (size, 1), "2n": (2, size), "n2": (size, 2)}[case["shape"]]
    axis = shape.index(size)
    full = int(r.integers(0, len(args)))
    values, leads = [], []
    for i, (item, make) in enumerate(args):
        if mode == SAME or i == full or (mode == SCALAR and (item or case["ranks"][i])):
            lead = shape
        else:
            lead = () if mode == SCALAR else shape[:case["ranks"][i]]
        a = np.array(make(r, lead), dtype=float)
        if case["dense"] is not None and lead and (name, i) not in COARSE:
            flat = a.reshape((-1,) + a.shape[len(lead):])
            step = np.where(r.random(flat.shape) < 0.7, 10.0 ** case["dense"] * r.uniform(-1, 1, size=flat.shape), 0.0)
            flat[1::2] = (flat[0::2] + step[0::2] * np.maximum(1.0, np.abs(flat[0::2]) * 1e-2))[:len(flat[1::2])]
        values.append(a)
        leads.append(lead)
    if size > 256:
        ctx.nontrivial(name)

    def call(pick):
        with np.errstate(all="ignore"):
            result = func(*[pick(v, lead) for v, lead in zip(values, leads)])
        return [np.asarray(v) for v in (result if len(outs) > 1 else (result,))]

    whole = call(lambda v, lead: v)
    for res, out in zip(whole, outs):
        require(res.shape[:len(shape)] == shape and res.ndim == len(shape) + out, name + " returned a wrong shape", got=res.shape, expected=shape, case=case)

    def compare(got, alone, where):
        for res, one in zip(got, alone):
            finite = np.abs(one[np.isfinite(one)])
            require_close(res, one, 1e-13 * (finite.max() if finite.size else 0.0), name + ": an element of a large array differs", where=where, case=case)

    edges = [0, *sorted(int(v) for v in r.integers(1, size, size=case["parts"] - 1)), size]
    for first, last in zip(edges[:-1], edges[1:]):
        if first < last:
            part = (slice(None),) * axis + (slice(first, last),)
            compare([v[part] for v in whole], call(lambda v, lead: v[part[:len(lead)]]), [first, last])
    picked = {0, size - 1, *(k for k in (63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 65535, 65536) if k < size), *(int(v) for v in r.integers(0, size, size=8))}
    for k in sorted(picked):
        index = tuple(k if i == axis else int(r.integers(0, n)) for i, n in enumerate(shape))
        compare([v[index] for v in whole], call(lambda v, lead: v[index[:len(lead)]]), list(index))
