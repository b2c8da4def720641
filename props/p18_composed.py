"""P18 composed models"""
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel, DipoleSphericalHarmomicGeomagneticModel
from eoxmagmod.magnetic_model.model_composed import ComposedGeomagneticModel
from eoxmagmod.magnetic_model.model_mio import DipoleMIOGeomagneticModel, MIOPrimaryGeomagneticModel
from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO
from vh import gen, ref, modelgen as mg
from vh.shgen import KINDS, RANGE
from vh.core import check, require, require_shape, require_close, require_same

LIMITS = {"min_degree": st.integers(0, 4), "max_degree": st.integers(0, 6)}


@st.composite
def presets(draw, mio):
    out = {}
    for key, value in LIMITS.items():
        if draw(st.integers(0, 4)) == 0:
            out[key] = draw(value)
    if mio and draw(st.booleans()):
        out["f107"] = draw(gen.finite(60, 250))
    if mio and draw(st.integers(0, 3)) == 0:
        out["lat_sol"], out["lon_sol"] = draw(gen.finite(-23, 23)), draw(gen.finite(-180, 180))
    return out


@st.composite
def part(draw, depth):
    kind = draw(st.sampled_from(["sh", "sh", "sh", "dipole", "mio", "primary"] + ["composed"] * (depth > 0)))
    out = {"kind": kind}
    if kind == "composed":
        out["parts"] = draw(st.lists(part(depth - 1), max_size=3))
    elif kind in ("mio", "primary"):
        out["spec"] = draw(mg.mio_spec(max_degree=3))
    else:
        out["spec"] = draw(mg.leaf_spec(max_degree=5, span=(-1000.0, 8000.0)))
        out["internal"] = draw(st.sampled_from([True, True, False]))
        if kind == "dipole":
            out["pole"] = draw(mg.POLES)
        if out["spec"]["kind"] != "const" and draw(st.booleans()):
            wide = [-4000.0, 12000.0] if out["spec"]["kind"] == "mjd" else [1990.0, 2030.0]
            out["spec"]["validity"] = wide
    if draw(st.integers(0, 3)) > 0:
        out["scale"] = draw(st.sampled_from([1.0, -1.0, 0.0, 2, 0.25, 1e-3, -7.5]))
        out["presets"] = draw(presets(kind in ("mio", "primary", "composed")))
    return out


@st.composite
def cases(draw):
    kin = draw(st.integers(0, 2))
    options = draw(presets(True))
    if draw(st.booleans()):
        options["scale"] = draw(st.sampled_from([1.0, -1.0, 0.5, 0, 3]))
    parts = draw(st.lists(part(2), max_size=4))
    shared = [0.0, 3000.0, 9000.0]
    plain = [p for p in parts if p["kind"] in ("sh", "dipole") and p["spec"]["kind"] in ("const", "mjd")]
    if len(plain) > 1 and draw(st.booleans()):
        # validities which share hardly more than an instant, or just miss each other
        at, common = draw(gen.finite(0, 7000)), draw(st.sampled_from([0.0, 0.0, 1e-8, 1e-4, 0.5, -1e-8, -1e-4]))
        one, two = plain[0]["spec"], plain[1]["spec"]
        one["validity"], two["validity"] = [at - 2000, at + common], [at, at + 3000]
        shared = [at, at + common / 2, at + common, at - 1e-3, at + common + 1e-3]
    return {"parts": parts, "kin": kin, "kout": draw(st.integers(0, 2)), "options": options, "seed": draw(gen.SEED),
            "times": draw(st.lists(st.one_of(gen.finite(-500, 7500), gen.finite(0, 7000), st.sampled_from(shared), st.sampled_from(shared)), min_size=1, max_size=3)),
            "points": draw(st.lists(gen.positions(kin, **RANGE), min_size=1, max_size=3)),
            "shapes": draw(mg.shapes), "styles": draw(st.tuples(*[st.sampled_from(["plain", "list", "strided", "fortran"])] * 2))}


def mio_model(spec, internal=True, salt=0):
    coef = SparseSHCoefficientsMIO(np.array(spec["nm"]), mg.mio_values(spec, salt), spec["ps"], is_internal=internal)
    kw = {} if spec["wolf"] is None else {"wolf_ratio": spec["wolf"]}
    return DipoleMIOGeomagneticModel(coef, tuple(spec["pole"]), **kw)


def build(item):
    """model and the flat list of (simple model, scale, presets)"""
    kind = item["kind"]
    if kind == "composed":
        model, flat = compose(item["parts"])
        return model, flat
    if kind == "mio":
        model = mio_model(item["spec"])
    elif kind == "primary":
        model = MIOPrimaryGeomagneticModel(mio_model(item["spec"], False), mio_model(item["spec"], True, 1))
    else:
        leaf = mg.Leaf(item["spec"], item["internal"])
        model = SphericalHarmomicGeomagneticModel(leaf.obj) if kind == "sh" else DipoleSphericalHarmomicGeomagneticModel(leaf.obj, tuple(item["pole"]))
    return model, [(model, 1.0, {})]


def compose(parts):
    built = [build(p) for p in parts]
    flat = []
    plain = [k for k, p in enumerate(parts) if "scale" not in p]
    if plain == list(range(len(plain))):
        # leading models without scales are given to the constructor
        model = ComposedGeomagneticModel(*[built[k][0] for k in plain])
        rest = range(len(plain), len(parts))
    else:
        model = ComposedGeomagneticModel()
        rest = range(len(parts))
    for k in rest:
        if "scale" in parts[k]:
            model.push(built[k][0], parts[k]["scale"], **parts[k]["presets"])
        else:
            model.push(built[k][0])
    for item, (_, subs) in zip(parts, built):
        scale, preset = item.get("scale", 1.0), item.get("presets", {})
        for sub, s, p in subs:
            # the innermost presets have the priority
            flat.append((sub, s * scale, dict(preset, **p)))
    return model, flat


def parameters(parts):
    names = {"time", "location"}
    for p in parts:
        if p["kind"] in ("mio", "primary"):
            names |= {"f107", "subsolar_point"}
        elif p["kind"] == "composed":
            names |= parameters(p["parts"])
    return names


@check(cases(), quick=3500, thorough=200000,
       rule="compositions of 0-4 models (geographic, dipole, ionospheric, nested compositions), scales, preset and requested options, frames, broadcast times and positions; non-trivial when at least two parts give a nonzero field")
def scaled_sum(case, ctx):
    model, flat = compose(case["parts"])
    validity = [max([-np.inf] + [float(m.validity[0]) for m, _, _ in flat]), min([np.inf] + [float(m.validity[1]) for m, _, _ in flat])]
    if validity[0] <= validity[1]:
        require_same([float(v) for v in model.validity], validity, "wrong validity", case=case)
    else:
        ctx.label("never valid")
        require_same([float(v) for v in model.validity], [-np.inf, -np.inf], "a validity of models which are never valid together", case=case)
    names = list(model.parameters)
    require(len(names) == len(set(names)) and set(names) == parameters(case["parts"]), "wrong parameters", got=names, case=case)
    tshape, lshape = [tuple(s) for s in case["shapes"]]
    times = mg.fill(case["times"], tshape, case["seed"])
    points = mg.fill(case["points"], lshape, case["seed"] + 1).reshape(lshape + (3,))
    shape, index = mg.pairs(tshape, lshape)
    targ = mg.layout(times, case["styles"][0]) if tshape and 0 not in tshape else times
    parg = mg.layout(points, case["styles"][1]) if 0 not in lshape else points
    kin, kout = KINDS[case["kin"]], KINDS[case["kout"]]
    options = dict(case["options"])
    copies = np.copy(targ), np.copy(parg), dict(options)
    kw = {}
    if case["kin"] != 1 or case["seed"] % 2:
        kw["input_coordinate_system"] = kin
    if case["kout"] != 1 or case["seed"] % 2:
        kw["output_coordinate_system"] = kout
    res = model.eval(targ, parg, **kw, **options)
    require_same(targ, copies[0], "times modified")
    require_same(parg, copies[1], "positions modified")
    require(options == copies[2], "options modified")
    require_shape(res, shape + (3,))
    for i, j, k in index:
        t, p = float(times[j]), points[k].tolist()
        one = model.eval(t, p, kin, kout, **options)
        require_shape(one, (3,))
        if not validity[0] <= t <= validity[1]:
            ctx.label("out of validity")
            require(np.all(np.isnan(res[i])) and np.all(np.isnan(one)), "a value out of validity", time=t, validity=validity, got=[res[i], one], case=case)
            continue
        factor = 1.0 if options.get("scale") is None else options["scale"]
        total, size, count = np.zeros(3), 0.0, 0
        for sub, scale, preset in flat:
            args = dict(options)
            args.pop("scale", None)
            args.update(preset)
            vec = sub.eval(t, p, input_coordinate_system=kin, output_coordinate_system=kout, **args)
            total = total + scale * vec
            size += abs(scale) * np.linalg.norm(vec)
            count += bool(np.any(vec) and scale)
        if count > 1:
            ctx.nontrivial("%d parts" % count)
        # positions are converted to the spherical coordinates
        lon = abs(np.radians(p[1])) if case["kin"] < 2 else np.pi
        sph = [float(v) for v in ref.convert(np.array(p), case["kin"], 1)]
        tol = 1e-14 * size * (20 + lon) * 8 + 1e-300
        polar = 1.0 / max(np.radians(90 - abs(sph[0])), 1e-8)
        if case["kout"] != 2:
            # direction of the east next to the poles
            tol += 1e-15 * size * min(polar, 1e8)
        require_close(res[i], factor * total, abs(factor) * tol, "not the sum of the models", time=t, point=p, case=case)
        require_close(one, factor * total, abs(factor) * tol, "not the sum of the models (single)", time=t, point=p, case=case)


@check(st.tuples(st.lists(gen.finite(-500, 7500), min_size=1, max_size=3), mg.shapes, gen.SEED, st.integers(0, 2), st.integers(0, 2), st.booleans()),
       quick=1500, thorough=20000, rule="empty compositions at times (some not-a-number) and positions of any extents; non-trivial with array arguments")
def empty_composition(case, ctx):
    times, (tshape, lshape), seed, kin, kout, nans = case
    times = mg.fill(times, tuple(tshape), seed)
    if nans and times.ndim:
        times = np.where(gen.rng(seed).random(times.shape) < 0.4, np.nan, times)
    lat, lon = gen.rng(seed + 1).uniform(-85, 85, size=(2,) + tuple(lshape))
    points = np.stack([lat, lon, np.full(lat.shape, 7000.0)], -1)
    if kin == 2:
        points = points[..., [2, 1, 0]]
    shape, index = mg.pairs(tuple(tshape), tuple(lshape))
    if index and shape:
        ctx.nontrivial()
    model = ComposedGeomagneticModel()
    res = model.eval(times, points, KINDS[kin], KINDS[kout], scale=2.0)
    require_shape(res, shape + (3,))
    for i, j, k in index:
        require_same(np.abs(res[i]), np.full(3, np.nan if np.isnan(times[j]) else 0.0), "field of no model is not zero", case=case)
    require_same(model.validity, [-np.inf, np.inf], "validity")
    require(set(model.parameters) == {"time", "location"}, "parameters", got=model.parameters)


@st.composite
def large_cases(draw):
    kin = draw(st.integers(0, 2))
    parts = draw(st.lists(part(1), min_size=1, max_size=3))
    return {"parts": parts, "kin": kin, "kout": draw(st.integers(0, 2)), "seed": draw(gen.SEED),
            "size": draw(st.one_of(st.integers(50, 800), st.sampled_from([127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4097]))),
            "what": draw(st.sampled_from(["track", "track", "times", "positions", "grid"])), "order": draw(st.sampled_from(["random", "sorted", "reversed", "dense"])),
            "crossing": draw(st.booleans()), "f107": draw(st.booleans()), "scale": draw(st.sampled_from([None, 2.0, -0.5]))}


@check(large_cases(), quick=450, thorough=20000,
       rule="compositions of 1-3 models along tracks, at series of times, at many positions, and on grids of 50-4097 elements, validities crossed, F10.7 arrays: the whole against its parts and sampled single evaluations; non-trivial with more than 100 elements of a nonzero field")
def large_arrays(case, ctx):
    """a long track is evaluated as its parts and its points"""
    model, flat = compose(case["parts"])
    r = gen.rng(case["seed"])
    size, kin, what = case["size"], case["kin"], case["what"]
    low, high = [float(v) for v in model.validity]
    low, high = max(low, -500.0), min(high, 7500.0)
    if not low < high:
        low, high = 0.0, 3000.0
    if case["crossing"]:
        low, high = low - 0.3 * (high - low), high + 0.3 * (high - low)
    times = r.uniform(low, high, size=size)
    if case["order"] in ("sorted", "reversed"):
        times = np.sort(times)[::1 if case["order"] == "sorted" else -1]
    elif case["order"] == "dense":
        times = times[0] + np.arange(size) / 86400.0
    lat, lon, rad = np.degrees(np.arcsin(r.uniform(-0.99, 0.99, size=size))), r.uniform(-180, 180, size=size), r.uniform(6400, 7500, size=size)
    if case["order"] == "dense":
        lat, lon, rad = np.clip(lat[0] + np.cumsum(r.uniform(-0.1, 0.1, size=size)), -88, 88), lon[0] + np.cumsum(r.uniform(-0.1, 0.1, size=size)), np.full(size, rad[0])
    points = np.stack([lat, lon, rad if kin == 1 else rad - 6371.2], -1)
    if kin == 2:
        points = em.convert(np.stack([lat, lon, rad], -1), em.GEOCENTRIC_SPHERICAL, em.GEOCENTRIC_CARTESIAN)
    if what == "times":
        points = points[0]
    elif what == "positions":
        times = times[0]
    elif what == "grid":
        # positions repeated for 2 times each
        times = np.stack([times, times[::-1]], -1)
        points = points[:, None, :] + np.zeros((size, 2, 3))
    options = {} if case["scale"] is None else {"scale": case["scale"]}
    solar = None
    if case["f107"]:
        solar = r.uniform(60, 250, size=np.shape(times))

    def run(pick):
        kw = dict(options)
        if solar is not None:
            kw["f107"] = pick(solar) if np.ndim(solar) else float(solar)
        t = pick(times) if np.ndim(times) else times
        p = pick(points) if points.ndim > 1 else points
        return model.eval(t, p, KINDS[kin], KINDS[case["kout"]], **kw)

    whole = run(lambda v: v)
    shape = (size, 2) if what == "grid" else (size,)
    require_shape(whole, shape + (3,))
    finite = np.abs(whole[np.isfinite(whole)])
    top = float(finite.max()) if finite.size else 0.0
    if size > 100 and top:
        ctx.nontrivial(what)
    times_full = np.broadcast_to(times, shape)
    low, high = [float(v) for v in model.validity]
    inside = (low <= times_full) & (times_full <= high)
    require_same(np.isnan(whole).all(-1), ~inside, "values do not follow the validity", case=case)
    cut = sorted({0, size, *(int(v) for v in r.integers(1, size, size=int(r.integers(1, 5))))})
    for a, b in zip(cut[:-1], cut[1:]):
        require_close(whole[a:b], run(lambda v: v[a:b]), 1e-11 * top, "a part of an array differs", part=[a, b], case=case)
    picked = sorted({0, size - 1, *(v for v in (255, 256, 512, 1024, 4096) if v < size), *(int(v) for v in r.integers(0, size, size=5))})
    for k in picked:
        where = (k, int(r.integers(0, 2))) if what == "grid" else (k,)
        one = run(lambda v: v[where] if v.ndim > 0 else v)
        require_close(whole[where], one, 1e-11 * top, "an element of an array differs", where=where, case=case)
