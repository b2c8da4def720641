"""Models sharing coefficients and requests of calls, used by the checks of histories and schedules"""
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from eoxmagmod import _pymm, data as shipped, time_util as tu, dipole_coords
from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel, DipoleSphericalHarmomicGeomagneticModel
from eoxmagmod.magnetic_model.model_composed import ComposedGeomagneticModel
from eoxmagmod.magnetic_model.model_mio import DipoleMIOGeomagneticModel, MIOPrimaryGeomagneticModel
from eoxmagmod.magnetic_model.coefficients import CombinedSHCoefficients, ComposedSHCoefficients
from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO
from eoxmagmod.magnetic_model.loader_shc import load_coeff_shc
from eoxmagmod.magnetic_model.loader_wmm import load_coeff_wmm
from eoxmagmod.magnetic_model.loader_igrf import load_coeff_igrf
from vh import gen, modelgen as mg
from vh.shgen import KINDS, ncoef

SHIPPED = {"igrf14": lambda: em.load_model_shc(shipped.IGRF14, interpolate_in_decimal_years=True), "wmm": lambda: em.load_model_wmm(shipped.WMM_2015),
           "igrf11": lambda: em.load_model_igrf(shipped.IGRF11), "sifm": lambda: em.load_model_shc(shipped.SIFM),
           "chaos": lambda: em.load_model_shc_combined(shipped.CHAOS_CORE_LATEST, shipped.CHAOS_CORE_PREDICTION_LATEST)}
APEX = ["APEX_2015", "APEX_2020", "APEX_2025", "APEX_2030"]
_SHARED = {}


def shared(name):
    """shipped models live as long as the process"""
    if name not in _SHARED:
        _SHARED[name] = SHIPPED[name]()
    return _SHARED[name]


class World:
    """models sharing coefficients"""

    def __init__(self, spec, folder):
        self.folder = folder
        leaves = [mg.Leaf(s) for s in spec["leaves"]]
        a, b = leaves[0].obj, leaves[1].obj
        mio = spec["mio"]
        pole = tuple(mio["pole"])
        values = mg.mio_values(mio)
        inner = SparseSHCoefficientsMIO(np.array(mio["nm"]), values, mio["ps"], is_internal=True)
        outer = SparseSHCoefficientsMIO(np.array(mio["nm"]), mg.mio_values(mio, 1), mio["ps"], is_internal=False)
        self.coeffs = {"a": a, "b": b, "mio": inner}
        for name, cls in (("both", CombinedSHCoefficients), ("chain", ComposedSHCoefficients)):
            try:
                self.coeffs[name] = cls(a, b)
            except ValueError:
                pass
        geo_a, geo_b = SphericalHarmomicGeomagneticModel(a), SphericalHarmomicGeomagneticModel(b)
        dip_a = DipoleSphericalHarmomicGeomagneticModel(a, pole)
        mio_in, mio_out = DipoleMIOGeomagneticModel(inner, pole), DipoleMIOGeomagneticModel(outer, pole)
        primary = MIOPrimaryGeomagneticModel(mio_out, mio_in)
        inside = ComposedGeomagneticModel()
        inside.push(geo_a, -1.0)
        inside.push(dip_a, 2.0, max_degree=2)
        total = ComposedGeomagneticModel()
        total.push(geo_a)
        total.push(inside, 0.5)
        total.push(geo_b, min_degree=1)
        total.push(primary, 0.1, f107=90.0)
        self.models = {"geo_a": geo_a, "geo_b": geo_b, "dip_a": dip_a, "mio": mio_in, "primary": primary, "inside": inside, "total": total}
        for name in ("both", "chain"):
            if name in self.coeffs:
                self.models[name] = SphericalHarmomicGeomagneticModel(self.coeffs[name])

    def model(self, name):
        return self.models[name] if name in self.models else shared(name) if name in SHIPPED else self.models["geo_a"]


LOCAL = ["geo_a", "geo_b", "dip_a", "mio", "primary", "inside", "total", "chain", "both"]
TIMES = st.one_of(gen.finite(-1000, 8000), st.sampled_from([0.0, 5000.0, 5479.0, -4000.0, 9000.0, float("nan")]))


@st.composite
def options(draw):
    out = {}
    if draw(st.integers(0, 2)) == 0:
        out["scale"] = draw(st.sampled_from([2.0, -1.0, 0.0, [1.0, 2.0, 3.0]]))
    for key in ("min_degree", "max_degree"):
        if draw(st.integers(0, 3)) == 0:
            out[key] = draw(st.integers(0, 5))
    for key, value in (("f107", 120.0), ("lat_sol", 11.0), ("lon_sol", -40.0)):
        if draw(st.integers(0, 4)) == 0:
            out[key] = value
    return out


SHAPE = st.sampled_from([[], [], [1], [4], [2, 3], [0]])
BASE = {"seed": gen.SEED.map(lambda v: v % 100000), "shape": SHAPE}
KIN = {"kin": st.integers(0, 2), "kout": st.integers(0, 2)}
STYLE = {"style": st.sampled_from(["plain", "plain", "list", "strided", "fortran", "readonly"])}
PLAIN = ["convert", "vrotate", "legendre", "loncossin", "relradpow", "sheval", "shevaltemp", "spharpot", "qd", "qdvec", "mlt", "subsol", "sunpos", "sunpos_original", "times", "mut",
         "dipole", "sheval_dipole", "interp", "fourier", "bisect", "bad", "mut_sol", "from_dipole", "rotation", "vrot", "vnorm", "sphargrd", "sheval2dfs", "sheval_scaled"]
REQUESTS = st.one_of(
    st.fixed_dictionaries({"op": st.just("eval"), "model": st.sampled_from(LOCAL + LOCAL + sorted(SHIPPED)), "time": TIMES, "options": options(), "many": st.booleans(), "spread": st.booleans(), **BASE, **KIN, **STYLE}),
    st.fixed_dictionaries({"op": st.just("eval"), "model": st.sampled_from(LOCAL), "time": TIMES, "options": options(), "many": st.booleans(), "spread": st.booleans(), **BASE, **KIN, **STYLE}),
    st.fixed_dictionaries({"op": st.just("coeff"), "set": st.sampled_from(["a", "b", "both", "chain"]), "time": TIMES, "options": options(), **BASE}),
    st.fixed_dictionaries({"op": st.just("trace"), "model": st.sampled_from(["geo_a", "dip_a", "inside", "igrf14", "both"]), "time": TIMES, "options": options(), **BASE, **KIN}),
    st.fixed_dictionaries({"op": st.just("info"), "model": st.sampled_from(LOCAL + sorted(SHIPPED))}),
    st.fixed_dictionaries({"op": st.just("load"), "format": st.sampled_from(["shc", "wmm", "igrf"]), "content": st.integers(0, 20), "time": TIMES, **BASE}),
    st.fixed_dictionaries({"op": st.just("recombine"), "how": st.sampled_from(["combined", "composed", "model"]), "time": TIMES, "scale": st.sampled_from([1.0, -3.0]), **BASE}),
    *[st.fixed_dictionaries({"op": st.sampled_from(ops), "time": TIMES, "apex": st.sampled_from(APEX), **BASE, **KIN, **STYLE})
      for ops in (PLAIN, PLAIN, ["qd", "qdvec", "mlt", "subsol"], ["qd", "qdvec"])],
)


def points(rnd, shape, kind):
    lat, lon = rnd.uniform(-90, 90, shape), rnd.uniform(-180, 180, shape)
    if kind == 2:
        rad = rnd.uniform(6000, 9000, shape)
        return np.stack([rad * np.cos(np.radians(lat)) * np.cos(np.radians(lon)), rad * np.cos(np.radians(lat)) * np.sin(np.radians(lon)), rad * np.sin(np.radians(lat))], -1)
    return np.stack([lat, lon, rnd.uniform(0, 1000, shape) if kind == 0 else rnd.uniform(6300, 9000, shape)], -1)


def spread(rnd, time, shape, width=300.0):
    return time + rnd.uniform(-width, width, shape) if shape else time


def perform(world, req):
    """(function, positional arguments, keyword arguments) of the request"""
    op, rnd = req["op"], gen.rng(req.get("seed", 0))
    shape = tuple(req.get("shape", []))
    lay = lambda v: styled(v, req.get("style", "plain"))
    if op == "eval":
        kw = {k: np.array(v) if isinstance(v, list) else v for k, v in req["options"].items()}
        pos = points(rnd, shape, req["kin"])
        time = spread(rnd, req["time"], shape) if req["many"] else req["time"]
        if req.get("spread") and shape:
            # parameters given for each of the times
            kw.update({k: lay(spread(rnd, kw[k], shape, 10.0)) for k in ("f107", "lat_sol", "lon_sol") if k in kw})
        kw.update(input_coordinate_system=KINDS[req["kin"]], output_coordinate_system=KINDS[req["kout"]])
        return world.model(req["model"]).eval, [lay(time) if shape and req["many"] else time, lay(pos)], kw
    if op == "coeff":
        kw = {k: v for k, v in req["options"].items() if k.endswith("degree")}
        return world.coeffs.get(req["set"], world.coeffs["a"]), [spread(rnd, req["time"], shape)], kw
    if op == "trace":
        opts = {k: v for k, v in req["options"].items() if k.endswith("degree")}
        return em.trace_field_line, [world.model(req["model"]), req["time"], points(rnd, (), req["kin"]), KINDS[req["kin"]], KINDS[req["kout"]]], {"trace_options": {"max_steps": 5}, "model_options": opts}
    if op == "info":
        model = world.model(req["model"])

        def info():
            out = [np.array([float(v) for v in model.validity]), sorted(model.parameters), type(model).__name__]
            for name in ("degree", "min_degree"):
                if not isinstance(model, ComposedGeomagneticModel):
                    out.append(int(getattr(model, name)))
            return out
        return info, [], {}
    if op == "load":
        path = os.path.join(world.folder, "file." + req["format"])
        values = gen.rng(req["content"]).normal(size=(8, 2)).round(3) * 1000
        if req["format"] == "shc":
            rows = ["1 2 2 2 1", "2000.0 2020.0"] + ["%d %d %r %r" % (n, m, *map(float, v)) for (n, m), v in zip([(1, 0), (1, 1), (1, -1), (2, 0), (2, 1), (2, -1), (2, 2), (2, -2)], values)]
        elif req["format"] == "wmm":
            rows = [" 2015.0 WMM 12/15/2014"] + ["%d %d %r %r %r %r" % (n, m, *map(float, values[i].tolist() + values[i + 1].tolist())) for i, (n, m) in enumerate([(1, 0), (1, 1), (2, 0), (2, 1), (2, 2)])]
        else:
            rows = ["c/s deg ord IGRF SV", "g/h n m 2000.0 2000-05"] + ["%s %d %d %r %r" % (l, n, m, *map(float, v)) for (l, n, m), v in zip([("g", 1, 0), ("g", 1, 1), ("h", 1, 1), ("g", 2, 0)], values)]
        loader = {"shc": load_coeff_shc, "wmm": load_coeff_wmm, "igrf": load_coeff_igrf}[req["format"]]

        def load():
            with open(path, "w") as out:
                out.write("\n".join(rows) + "\n")
            coeff = loader(path)
            time = coeff.validity[0] + (coeff.validity[1] - coeff.validity[0]) * 0.3
            return [coeff(time), float(coeff.validity[0])]
        return load, [], {}
    if op == "recombine":
        pos, time = points(rnd, (3,), 1), spread(rnd, req["time"], (3,))

        def recombine():
            if req["how"] == "combined":
                return CombinedSHCoefficients(world.coeffs["a"], world.coeffs["b"])(time)
            if req["how"] == "composed":
                return ComposedSHCoefficients(world.coeffs["b"], world.coeffs["a"])(time)
            model = ComposedGeomagneticModel(world.models["geo_a"])
            model.push(world.models["total"], req["scale"], max_degree=3)
            model.push(world.models["inside"])
            return model.eval(time, pos, scale=2.0)
        return recombine, [], {}
    return plain(world, req, op, rnd, shape, lay)


def plain(world, req, op, rnd, shape, lay):
    time = req["time"] if np.isfinite(req["time"]) else 100.0
    kin, kout = req["kin"], req["kout"]
    pos = points(rnd, shape, kin)
    degree = 3 + req["seed"] % 4
    coef = rnd.normal(size=(ncoef(degree), 2)) * 100
    systems = [KINDS[kin], KINDS[kout]]
    if op == "convert":
        return em.convert, [lay(pos)] + systems, {}
    if op == "vrotate":
        return em.vrotate, [lay(rnd.normal(size=shape + (3,))), lay(points(rnd, shape, 1)), lay(points(rnd, shape, 1)), KINDS[1], KINDS[req["kout"]]], {}
    if op == "legendre":
        return em.legendre, [lay(pos[..., 0] * 0.001), degree], {}
    if op == "loncossin":
        return em.loncossin, [lay(pos[..., 1] * 0.01), degree], {}
    if op == "relradpow":
        return em.relradpow, [lay(7000.0 + rnd.uniform(0, 100, shape)), degree], {}
    if op == "sheval":
        return em.sheval, [lay(pos), lay(coef)] + systems + [[em.GRADIENT, em.POTENTIAL, em.POTENTIAL_AND_GRADIENT][req["seed"] % 3]], {"is_internal": bool(req["seed"] % 2)}
    if op == "shevaltemp":
        nm = np.array([[1, 0], [1, 1], [2, -1], [degree, 0]], dtype="int32")
        return _pymm.shevaltemp, [lay(spread(rnd, time, shape)), lay(pos), [(np.array([0.0, 1000.0, 3000.0]), lay(rnd.normal(size=(4, 3))), nm, 2)]] + systems, {"mode": em.GRADIENT}
    if op == "spharpot":
        lat = 10.0 + req["seed"] % 50
        p, _ = em.legendre(lat, degree)
        return em.spharpot, [7000.0, lay(coef), p, em.relradpow(7000.0, degree), em.loncossin(20.0, degree)], {"degree": degree}
    if op in ("qd", "qdvec"):
        years = 1996.0 + rnd.uniform(0, 18, shape[:1])
        pos = points(rnd, shape[:1], 1)
        func = em.eval_qdlatlon if op == "qd" else em.eval_qdlatlon_with_base_vectors
        args = [np.array(v) if shape else float(v) for v in (pos[..., 0], pos[..., 1], pos[..., 2], years)]
        return func, args + [getattr(shipped, req["apex"])], {}
    if op == "mlt":
        pos = points(rnd, shape[:1], 1)
        return em.eval_mlt, [np.array(pos[..., 1]) if shape else float(pos[..., 1]), spread(rnd, time, shape[:1])], {}
    if op == "subsol":
        return em.eval_subsol, [spread(rnd, time, shape[:1])], {}
    if op == "sunpos":
        return em.sunpos, [lay(spread(rnd, time, shape)) if shape else time, lay(pos[..., 0] * 0.001), lay(pos[..., 1] * 0.001)], {}
    if op == "sunpos_original":
        return em.sunpos_original, [lay(spread(rnd, time, shape)) if shape else time, lay(pos[..., 0] * 0.001), lay(pos[..., 1] * 0.001)], {}
    if op == "times":
        func = [em.mjd2000_to_decimal_year, em.mjd2000_to_year_fraction, em.decimal_year_to_mjd2000, tu.mjd2000_to_decimal_year_simple, tu.decimal_year_to_mjd2000_simple][req["seed"] % 5]
        return func, [lay(spread(rnd, time, shape)) if shape else time], {}
    if op == "mut":
        return em.mjd2000_to_magnetic_universal_time, [lay(spread(rnd, time, shape)) if shape else time, 80.0, -72.0], {}
    arr = lambda v: np.asarray(lay(v))
    if op == "mut_sol":
        return em.mjd2000_to_magnetic_universal_time, [arr(spread(rnd, time, shape)) if shape else time, 80.0, -72.0], {
            "lat_sol": arr(spread(rnd, 10.0, shape, 13.0)) if shape else 10.0, "lon_sol": arr(spread(rnd, 10.0, shape)) if shape else 10.0}
    if op == "from_dipole":
        other = points(rnd, shape, 1)
        return em.vrot_from_dipole, [arr(rnd.normal(size=shape + (3,))), 80.0, -72.0, arr(pos[..., 0] * 0.01), arr(pos[..., 1] * 0.01), arr(other[..., 0]), arr(other[..., 1]), KINDS[kout]], {}
    if op == "rotation":
        return em.get_dipole_rotation_matrix, [80.0 - req["seed"] % 3, -72.0], {}
    if op == "vrot":
        name = ["vrot_sph2geod", "vrot_sph2cart", "vrot_cart2sph"][req["seed"] % 3]
        angles = [lay(rnd.uniform(-80, 80, shape)) if shape else 33.0 for _ in range(1 if name == "vrot_sph2geod" else 2)]
        return getattr(em, name), [lay(rnd.normal(size=shape + (3,))), *angles], {}
    if op == "vnorm":
        return [em.vnorm, em.vincdecnorm][req["seed"] % 2], [lay(rnd.normal(size=shape + (3,)))], {}
    if op == "sphargrd":
        p, dp = em.legendre(10.0 + req["seed"] % 50, degree)
        return em.sphargrd, [10.0 + req["seed"] % 50, lay(coef), p, dp, em.relradpow(7000.0, degree), em.loncossin(20.0, degree)], {"degree": degree}
    if op == "sheval2dfs":
        nm = np.array([[1, 0], [1, 1], [2, -1]], dtype="int32")
        times = [lay(rnd.uniform(0, 1, shape)) if shape else 0.3, lay(rnd.uniform(0, 24, shape)) if shape else 5.0]
        return _pymm.sheval2dfs, [*times, lay(pos), (lay(rnd.normal(size=(3, 3, 4, 2))), nm, -1, -2, 2 * np.pi, np.pi / 12)] + systems, {"mode": em.GRADIENT, "scale_gradient": np.array([1.0, -2.0, 0.5])}
    if op == "sheval_scaled":
        return em.sheval, [lay(pos), lay(coef)] + systems, {"mode": em.POTENTIAL_AND_GRADIENT, "scale_gradient": lay(np.array([1.0, -2.0, 0.5])), "scale_potential": 3.0}
    if op == "dipole":
        return em.convert_to_dipole, [lay(pos), 80.0, -72.0, KINDS[kin]], {}
    if op == "sheval_dipole":
        return em.sheval_dipole, [lay(pos), lay(coef), 80.0, -72.0] + systems + [em.GRADIENT], {}
    if op == "interp":
        return _pymm.interp, [lay(spread(rnd, time, shape)) if shape else time, np.array([0.0, 1000.0, 3000.0]), lay(rnd.normal(size=(2, 3)))], {}
    if op == "fourier":
        return _pymm.fourier2d, [lay(spread(rnd, 0.5, shape)) if shape else 0.5, lay(spread(rnd, 5.0, shape)) if shape else 5.0, lay(rnd.normal(size=(2, 3, 3, 2))), -1, -1], {}
    if op == "bisect":
        return _pymm.bisect, [np.sort(rnd.normal(size=5)) * 100, lay(spread(rnd, 0.0, shape)) if shape else 0.0], {}
    if op == "bad":
        return [(em.sheval, [lay(pos), coef[:2]], {"degree": 9}), (em.convert, [lay(pos), 77, 1], {}), (world.models["geo_a"].eval, [time, np.zeros(2)], {}),
                (em.eval_qdlatlon, [1.0, 2.0, 7000.0, 2010.0, "/nonexistent/apex.txt"], {}), (world.models["total"].eval, [np.zeros(3), np.zeros((4, 3))], {}),
                (em.load_model_shc, ["/nonexistent/file.shc"], {})][req["seed"] % 6]
    raise KeyError(op)


def styled(array, style):
    if style == "readonly":
        out = np.array(array)
        out.setflags(write=False)
        return out
    return mg.layout(np.asarray(array), style)


def frozen(value):
    """contents which can be compared"""
    if isinstance(value, (list, tuple)):
        return [type(value).__name__] + [frozen(v) for v in value]
    if isinstance(value, dict):
        return {k: frozen(v) for k, v in value.items()}
    if isinstance(value, (np.ndarray, np.generic, float, int)):
        array = np.asarray(value)
        return (array.shape, array.dtype.str, np.where(np.isnan(array), np.nan, array).tobytes() if array.dtype.kind == "f" else array.tobytes())
    if value is None or isinstance(value, (str, bool, bytes)):
        return value
    return type(value).__name__


def scribble(value):
    """overwrite the returned arrays, they belong to the caller"""
    if isinstance(value, (list, tuple)):
        for v in value:
            scribble(v)
    elif isinstance(value, np.ndarray) and value.flags.writeable and value.dtype.kind in "fi":
        value[...] = -77


def run(world, req):
    func, args, kw = perform(world, req)
    before = frozen([args, kw])
    state = np.geterr(), os.getcwd(), em.EARTH_RADIUS, [int(v) for v in KINDS], dict(os.environ)
    try:
        out = func(*args, **kw)
        result = frozen(out)
    except Exception as error:  # pylint: disable=broad-except
        out, result = None, ["exception", type(error).__name__]
    intact = frozen([args, kw]) == before
    same = state == (np.geterr(), os.getcwd(), em.EARTH_RADIUS, [int(v) for v in KINDS], dict(os.environ))
    scribble(out)
    return result, intact, same


def alone(payload):
    """the request evaluated the first in the process"""
    spec, req = payload
    with tempfile.TemporaryDirectory(dir=os.environ.get("VH_SCRATCH")) as folder:
        return run(World(spec, folder), req)[0]


SPAN = (-1000.0, 8000.0)
LEAVES = st.one_of(st.lists(mg.leaf_spec(max_degree=4, span=SPAN), min_size=2, max_size=2),
                   st.tuples(mg.leaf_spec(max_degree=4, span=SPAN, kinds=("mjd",), validity=False), mg.leaf_spec(max_degree=4, span=SPAN, kinds=("dy", "mjd"), validity=False)).map(list))
WORLDS = st.fixed_dictionaries({"leaves": LEAVES, "mio": mg.mio_spec(max_degree=3)})


@st.composite
def twins(draw, max_size=4):
    """the same function or model called with different arguments"""
    ops = draw(st.sampled_from(["eval", "eval", "eval", "coeff", "trace", "qd", "any"]))
    first = draw(REQUESTS.filter(lambda r: ops == "any" or r["op"] == ops))
    if ops == "eval" and draw(st.booleans()):
        first["model"] = draw(st.sampled_from(["both", "both", "chain", "primary", "total"]))
    out = [first]
    for _ in range(draw(st.integers(1, max_size - 1))):
        other = dict(first, time=draw(TIMES)) if "time" in first else dict(first)
        for key, values in (("options", options()), ("kin", st.integers(0, 2)), ("kout", st.integers(0, 2)), ("shape", SHAPE), ("seed", BASE["seed"]), ("many", st.booleans()), ("apex", st.sampled_from(APEX)), ("content", st.integers(0, 20))):
            if key in first and draw(st.booleans()):
                other[key] = draw(values)
        out.append(other)
    return out


def show(value):
    if isinstance(value, tuple) and len(value) == 3 and isinstance(value[2], bytes):
        return np.frombuffer(value[2], dtype=value[1]).tolist()[:20]
    if isinstance(value, list):
        return [show(v) for v in value]
    return value
