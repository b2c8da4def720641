"""P23 tracing of field lines"""
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from eoxmagmod import trace_field_line
from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel, DipoleSphericalHarmomicGeomagneticModel
from eoxmagmod.magnetic_model.model_composed import ComposedGeomagneticModel
from eoxmagmod.magnetic_model.coefficients import SparseSHCoefficientsConstant
from vh import gen, ref, modelgen as mg
from vh.shgen import KINDS
from vh.core import check, require, require_shape, require_close, require_same

RE = 6371.2
DEFAULTS = {"step": 100.0, "max_steps": 500, "min_radius": 0.9977 * RE, "max_radius": 1e6 * RE}


@st.composite
def line_options(draw, many=False):
    out = {}
    if draw(st.integers(0, 5)):
        out["max_steps"] = draw(st.one_of(st.integers(0, 40), st.sampled_from([1, 2, 100])))
    if draw(st.booleans()):
        out["step"] = draw(st.one_of(gen.finite(1, 600), st.sampled_from([50, 100, 1.0, 300.0])))
    if draw(st.booleans()):
        out["min_radius"] = draw(st.one_of(gen.finite(2500, 9000), st.sampled_from([6371.2, 6371, 5000])))
    if draw(st.booleans()):
        out["max_radius"] = draw(st.one_of(gen.finite(5000, 50000), st.sampled_from([10000, 6371.2 * 3])))
    return out


@st.composite
def line_cases(draw):
    kin = draw(st.integers(0, 2))
    count = draw(st.sampled_from([1, 1, 1, 2]))
    return {"parts": [{"spec": draw(mg.leaf_spec(max_degree=5, validity=False)), "internal": draw(st.sampled_from([True, True, True, False])),
                       "pole": draw(st.sampled_from([None, None, None, [80.08, -72.22], [10.0, 30.0]])), "scale": draw(st.sampled_from([1.0, 1.0, -1.0, 0.5]))} for _ in range(count)],
            "kin": kin, "kout": draw(st.integers(0, 2)), "point": draw(gen.positions(kin, rmin=4000.0, rmax=30000.0, hmin=-2000.0, hmax=20000.0)),
            "time": draw(gen.finite(0, 1)), "options": draw(line_options()), "main": draw(st.booleans()),
            "model_options": draw(st.sampled_from([None, None, {}, {"scale": -2.0}, {"scale": 1e-3}, {"max_degree": 1}, {"min_degree": 2}, {"scale": 0.0},
                                                   {"input_coordinate_system": 0}, {"output_coordinate_system": 1, "max_degree": 3}])),
            "style": draw(st.sampled_from(["list", "tuple", "array"]))}


def build(case):
    """model, time and function giving a bound of the size of the field"""
    leaves, models = [], []
    for i, part in enumerate(case["parts"]):
        leaf = mg.Leaf(part["spec"], part["internal"])
        leaves.append((leaf, abs(part["scale"]), part["internal"]))
        coeff = leaf.obj
        models.append(SphericalHarmomicGeomagneticModel(coeff) if part["pole"] is None else DipoleSphericalHarmomicGeomagneticModel(coeff, tuple(part["pole"])))
    start = max([v[0].validity[0] for v in leaves] + [-3000.0])
    end = min([v[0].validity[1] for v in leaves] + [8000.0])
    if end < start:
        return None
    time = start + case["time"] * (end - start)
    if len(models) == 1:
        model = models[0]
        leaves = [(leaves[0][0], 1.0, leaves[0][2])]
    else:
        model = ComposedGeomagneticModel()
        for item, part in zip(models, case["parts"]):
            model.push(item, part["scale"])
    options = case["model_options"] or {}
    factor = abs(options.get("scale", 1.0))

    def size(radius):
        total = 0.0
        for leaf, scale, internal in leaves:
            for (n, _), (v, a) in leaf.at(time)[-1].items():
                x = RE / radius
                total = total + abs(scale) * factor * float(a) * (n + 1) ** 2 * (x ** (n + 2) if internal else x ** (1 - n))
        return total
    return model, min(max(time, start), end), size


def trace(case, model, time, kin, kout, point):
    kw = {}
    if kin != 1 or case["main"]:
        kw["input_coordinate_system"] = KINDS[kin]
    if kout != 1 or case["main"]:
        kw["output_coordinate_system"] = KINDS[kout]
    if case["options"] or case["main"]:
        kw["trace_options"] = dict(case["options"])
    if case["model_options"] is not None:
        kw["model_options"] = dict(case["model_options"])
    arg = {"list": list, "tuple": tuple, "array": np.array}[case["style"]](point)
    copies = {k: dict(v) for k, v in kw.items() if isinstance(v, dict)}
    before = np.copy(arg)
    coords, field = trace_field_line(model, time, arg, **kw)
    require_same(np.copy(arg), before, "the point is modified")
    for k, v in copies.items():
        require(kw[k] == v, "the options are modified", got=kw[k], expected=v)
    return coords, field


def locate(cart, start):
    """index of the point in the line"""
    dist = np.sqrt(np.sum((cart - start) ** 2, axis=-1))
    return int(np.argmin(dist)), float(np.min(dist))


@check(line_cases(), quick=4000, thorough=60000,
       rule="models of degree up to 5 (internal, external, dipole frame, composed), any point, frames, tracing and model options; non-trivial when the line has more than 3 points and a direction")
def line(case, ctx):
    built = build(case)
    if built is None:
        return
    model, time, size = built
    options = dict(DEFAULTS, **case["options"])
    kin, kout = case["kin"], case["kout"]
    coords, field = trace(case, model, time, kin, kout, case["point"])
    require(coords.ndim == 2 and coords.shape[1] == 3 and coords.shape == field.shape, "wrong extents of the results", got=[coords.shape, field.shape])
    require(np.all(np.isfinite(coords)), "points of the line are not finite", case=case)
    cart = np.array(em.convert(coords, KINDS[kout], em.GEOCENTRIC_CARTESIAN))
    start = np.asarray(ref.to_cart(np.array(case["point"]), kin), dtype=float)
    rounding = 2e-12 * np.linalg.norm(start) + 1e-8 * (kin == 0 or kout == 0)
    # field with the line
    kw = dict(case["model_options"] or {})
    kw["input_coordinate_system"] = kw["output_coordinate_system"] = KINDS[kout]
    expected = model.eval(np.full(len(coords), time), coords, **kw)
    kw["input_coordinate_system"] = kw["output_coordinate_system"] = em.GEOCENTRIC_CARTESIAN
    vectors = model.eval(np.full(len(coords), time), cart, **kw)
    radius = np.sqrt(np.sum(cart * cart, axis=-1))
    scales = size(radius) + np.zeros(len(coords))
    require_close(field, expected, 2e-11 * scales[:, None] + 1e-280, "the field is not the field of the model", case=case)
    # steps
    norm = np.sqrt(np.sum(vectors * vectors, axis=-1))
    steady = norm == 0
    lengths = options["step"] * radius / RE
    with np.errstate(all="ignore"):
        unit = np.where(steady[:, None], 0.0, vectors / norm[:, None])
        error = np.where(steady, 0.0, lengths * (1e-10 + 2e-11 * scales / norm)) + 2e-8 * (1 + radius / RE)
    doubtful = norm < 1e-9 * scales
    at, dist = locate(cart, start)
    if not steady.any():
        require(dist <= rounding, "the line does not pass through the point", distance=dist, case=case)
        # candidates of the index: the closest point unless the steps are small
        near = np.flatnonzero(np.sqrt(np.sum((cart - start) ** 2, axis=-1)) <= rounding)
    else:
        near = np.arange(len(cart))
    problems = None
    for at in near:
        problems = describe(cart, radius, unit, lengths, error, steady | doubtful, int(at), options)
        if problems is None:
            break
    require(problems is None, problems, case=case, points=len(cart))
    if len(cart) > 3 and not steady.any():
        ctx.nontrivial("reached a bound" if len(cart) < 2 * options["max_steps"] + 1 else "reached the limit of steps")


def describe(cart, radius, unit, lengths, error, skip, at, options):
    """None or the problem of the line started from the point of the index"""
    for sign, side in ((1, range(at, len(cart))), (-1, range(at, -1, -1))):
        side = list(side)
        steps = len(side) - 1
        if steps > options["max_steps"]:
            return "more steps than allowed"
        for i, j in zip(side, side[1:]):
            if skip[i]:
                continue
            miss = np.linalg.norm(cart[j] - cart[i] - sign * lengths[i] * unit[i])
            if not miss <= error[i]:
                return "step %d of %d does not follow the field: off by %g km (tolerance %g)" % (sign * (abs(j - at)), steps, miss, error[i])
        eps = 1e-12 * radius + 2e-8
        for j in side[1:-1]:
            if radius[j] < options["min_radius"] - eps[j] or radius[j] > options["max_radius"] + eps[j]:
                return "the line continues out of the bounds at %g km" % radius[j]
        if steps < options["max_steps"]:
            if steps == 0:
                return "no step in one of the directions"
            j = side[-1]
            if options["min_radius"] + eps[j] < radius[j] < options["max_radius"] - eps[j]:
                return "the line ends between the bounds at %g km after %d steps" % (radius[j], steps)
    return None


@check(st.tuples(line_cases(), st.integers(0, 2), st.integers(0, 2)), quick=1600, thorough=30000,
       rule="the same point given in another system and the same line in another output system; non-trivial when the systems differ")
def systems(case, ctx):
    case, kin, kout = case
    built = build(case)
    if built is None:
        return
    model, time, size = built
    coords, field = trace(case, model, time, case["kin"], case["kout"], case["point"])
    cart, vectors = trace(case, model, time, case["kin"], 2, case["point"])
    other, rotated = trace(case, model, time, case["kin"], kout, case["point"])
    if kout != case["kout"]:
        ctx.nontrivial()
    for points, vec, kind in ((coords, field, case["kout"]), (other, rotated, kout)):
        require_shape(points, cart.shape, "number of points")
        require_same(points, em.convert(cart, em.GEOCENTRIC_CARTESIAN, KINDS[kind]), "the line depends on the output system", kind=kind, case=case)
        norm = np.sqrt(np.sum(vectors ** 2, axis=-1))
        require_close(np.sqrt(np.sum(vec ** 2, axis=-1)), norm, 1e-13 * norm, "the field depends on the output system", case=case)
    # the same starting point in another input system and short lines
    short = dict(case, options=dict(case["options"], max_steps=min(case["options"].get("max_steps", 2), 2)))
    first, _ = trace(short, model, time, case["kin"], 2, case["point"])
    again, _ = trace(short, model, time, kin, 2, np.asarray(em.convert(np.array(case["point"], dtype=float), KINDS[case["kin"]], KINDS[kin])).tolist())
    middle = first[len(first) // 2]
    radius = float(np.linalg.norm(middle))
    norms = np.linalg.norm(model.eval(np.full(len(first), time), first, **dict(case["model_options"] or {}, input_coordinate_system=em.GEOCENTRIC_CARTESIAN, output_coordinate_system=em.GEOCENTRIC_CARTESIAN)), axis=-1)
    bulk = size(np.linalg.norm(first, axis=-1)) + np.zeros(len(first))
    options = dict(DEFAULTS, **short["options"])
    radii = np.linalg.norm(first, axis=-1)
    edge = min(np.min(np.abs(radii - options["min_radius"])), np.min(np.abs(radii - options["max_radius"])))
    if np.any(norms < 1e-4 * bulk) or edge < 1e-3:
        ctx.label("sensitive line")
        return
    require(again.shape == first.shape, "number of points for another input system", got=again.shape, expected=first.shape, case=case)
    require_close(again, first, 1e-4 * (1 + radius / RE), "the line depends on the input system", kinds=[case["kin"], kin], case=case)


@check(st.tuples(gen.finite(-65, 65), gen.finite(-180, 180), gen.finite(6800, 30000), gen.finite(10, 200), st.integers(0, 60), st.tuples(gen.finite(-90, 90), gen.finite(-180, 180))),
       quick=1600, thorough=30000, rule="tilted dipoles against the analytic field line r / cos(lat)^2 = const and constant magnetic longitude; non-trivial with 10 or more steps")
def analytic_dipole(case, ctx):
    lat, lon, radius, step, count, pole = case
    axes = mg.pole_frame(*pole).astype(float)
    # g10, g11, h11 of the dipole of the north pole: the field points southwards at the axis
    moment = 30000.0 * axes[2]
    coeff = SparseSHCoefficientsConstant([(1, 0), (1, 1), (1, -1)], [-moment[2], -moment[0], -moment[1]])
    model = SphericalHarmomicGeomagneticModel(coeff)
    start = axes.T @ np.array(gen.cart_from(lat, lon, radius))
    coords, field = trace_field_line(model, 0.0, start, em.GEOCENTRIC_CARTESIAN, em.GEOCENTRIC_CARTESIAN, {"step": step, "max_steps": count, "min_radius": 3000.0})
    if count >= 10:
        ctx.nontrivial()
    mag = coords @ axes.T
    r = np.linalg.norm(mag, axis=-1)
    slat = mag[:, 2] / r
    at, dist = locate(coords, start)
    require(dist <= 1e-8, "the line does not pass through the point")
    h = step / RE
    for side in (range(at, len(coords)), range(at, -1, -1)):
        bound = 1e-9
        for i, j in zip(side, side[1:]):
            c2 = min(1 - slat[i] ** 2, 1 - slat[j] ** 2)
            if c2 < 0.06:
                break
            bound += 6 * h * h / c2
            drift = np.log(r[j] / (1 - slat[j] ** 2)) - np.log(r[at] / (1 - slat[at] ** 2))
            require(abs(drift) <= bound, "the line leaves the shell of the dipole", drift=drift, bound=bound, step=j - at, case=case)
            cross = mag[j, 0] * mag[at, 1] - mag[j, 1] * mag[at, 0]
            require(abs(cross) <= 1e-9 * np.hypot(*mag[j, :2]) * np.hypot(*mag[at, :2]), "the line leaves the meridional plane", case=case)
    # northwards along the line: points are ordered in the direction of the field
    move = np.diff(coords, axis=0)
    along = np.sum(move * field[:-1], axis=-1) / np.linalg.norm(move, axis=-1) / np.linalg.norm(field[:-1], axis=-1)
    require(np.all(along > 0.5), "points are not ordered along the field", got=along.min() if len(along) else None, case=case)

    low = abs(lat) < 1e-3
    if low and len(coords) > at + 1:
        require(np.dot(coords[at + 1] - coords[at], axes[2]) > 0, "the line of the dipole should head to the north pole", case=case)
