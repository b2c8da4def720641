"""P19 ionospheric models"""
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from eoxmagmod.magnetic_model.model_mio import DipoleMIOGeomagneticModel, MIOPrimaryGeomagneticModel
from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO
from eoxmagmod.magnetic_model.loader_mio import load_model_swarm_mio_internal, load_model_swarm_mio_external
from eoxmagmod import time_util as tu
from vh import gen, ref, sun, files, modelgen as mg
from vh.shgen import KINDS, dense, expected_at
from vh.core import check, require, require_shape, require_close, require_same, angle_diff

RADIUS = 6371.2


@st.composite
def model_specs(draw):
    """a model given directly or by a file"""
    if draw(st.integers(0, 2)) == 0:
        spec = draw(files.mio_file_spec())
        return {"file": spec, "which": draw(st.sampled_from(["internal", "above", "below", "primary", "primary"]))}
    spec = draw(mg.mio_spec())
    out = {"mio": spec, "which": draw(st.sampled_from(["internal", "below", "primary", "primary"])), "height": draw(st.sampled_from([None, 110.0, 90.0, 400.0])),
           "simple": draw(st.integers(0, 4)) == 0}
    if draw(st.booleans()):
        out["validity"] = sorted(draw(st.lists(st.integers(3700, 9000).map(float), min_size=2, max_size=2, unique=True)))
    if out["which"] == "primary":
        # both expansions are independent
        out["other"] = draw(mg.mio_spec())
        out["other"]["pole"] = spec["pole"]
        if draw(st.booleans()):
            # validities of the expansions may differ and they do not have to overlap
            start, end = out.get("validity", [-np.inf, np.inf])
            other = sorted(draw(st.lists(st.integers(3700, 9000).map(float), min_size=2, max_size=2, unique=True)))
            if other[0] <= end and start <= other[1] or draw(st.integers(0, 3)) == 0:
                out["other_validity"] = other
    return out


class Part:
    def __init__(self, nm, values, ps, internal, pole, wolf, validity=(-np.inf, np.inf), simple=False):
        self.nm, self.values, self.ps, self.internal, self.pole, self.wolf, self.validity, self.simple = nm, values, ps, internal, pole, wolf, validity, simple
        self.degree = max(n for n, m in nm)
        self.min_degree = min(n for n, m in nm)

    def field(self, t, sun_at, p, kin, kout, options):
        """field and its error"""
        lo, hi = options.get("min_degree", -1), options.get("max_degree", -1)
        lat_sol, lon_sol, err = sun_at
        axes = mg.pole_frame(*self.pole)
        la, lo_ = (np.radians(ref.LD(v)) for v in (lat_sol, lon_sol))
        s = axes @ np.array([np.cos(la) * np.cos(lo_), np.cos(la) * np.sin(lo_), np.sin(la)])
        dist = float(np.hypot(s[0], s[1]))
        if dist < 1e-6:
            return None
        # noon when the Sun is at the meridian of the zero dipole longitude
        mut = 12 - float(np.degrees(np.arctan2(s[1], s[0]))) / 15
        mut_error = (err + 1e-13 * (10 + abs(lon_sol) + abs(self.pole[1]))) / dist / 15
        fraction = float((mg.simple_year(t) % 1) if self.simple else mg.decimal_year(t) % 1)
        ferr = 4e-12 * max(abs(v) for v in [self.ps[2], self.ps[3], 1])
        val, tol, amp = mg.fourier_sum(self.values, self.ps[0], self.ps[2], fraction, mut, mut_error)
        tol = tol + ferr * amp
        keep = [i for i, (n, m) in enumerate(self.nm) if (lo < 0 or n >= lo) and (hi < 0 or n <= hi)]
        nm = [self.nm[i] for i in keep]
        coef, mags, errs = (dense(self.degree, nm, [v[i] for i in keep]) for v in (val, amp, tol))
        cart = axes @ ref.to_cart(np.array(p), kin)
        point = [float(v) for v in cart]
        _, g, _, gtol = expected_at(coef, self.degree, point, 2, 2, self.internal, amp=mags)
        _, _, _, gs = ref.synth(errs, self.degree, ref.convert(np.array(point), 2, 1), self.internal)
        out = ref.convert(np.array(p), kin, kout)
        vec = ref.frame(out, kout) @ (axes.T @ (-g).astype(ref.LD))
        lon_err = abs(np.radians(float(p[1]))) if kin < 2 else 0.0
        err = 8 * (gtol * (4 + lon_err) + gs) + 4e-15 * np.linalg.norm(g) * (4 + lon_err + self.degree)
        polar = 90 - abs(float(out[0])) if kout < 2 else 90
        if polar < 1e-6:
            err += 1e-15 * np.linalg.norm(g) / max(np.radians(polar), 1e-8)
        return vec.astype(float), float(err)


class Model:
    """the model and its parts"""

    def __init__(self, spec):
        self.height = 110.0
        self.below = self.above = None
        if "file" in spec:
            self._from_file(spec)
        else:
            self._direct(spec)
        self.parts = [v for v in (self.below, self.above) if v]
        starts, ends = zip(*(v.validity for v in self.parts))
        self.validity = max(starts), min(ends)

    def _from_file(self, spec):
        data = spec["file"]
        qs, gh = files.mio_file_values(data)
        lat, lon = 90.0 - data["colat"], data["lon"]
        args = [[tuple(v) for v in data["nm"]]], [data["ps"]]
        common = {"pole": (lat, lon), "wolf": data["wolf"]}
        n = np.array(data["nm"])[:, 0]
        factor = -(n / (n + 1.0)) * (1.0 + data["height"] / RADIUS) ** (2 * n + 1)
        nm, ps = args[0][0], args[1][0]
        which = spec["which"]
        self.height = data["height"]
        if which == "internal":
            self.above = Part(nm, gh, ps, True, **common)
        if which in ("above", "primary"):
            self.above = Part(nm, qs * factor[:, None, None, None], ps, True, **common)
        if which in ("below", "primary"):
            self.below = Part(nm, qs, ps, False, **common)
        with tempfile.TemporaryDirectory(dir=os.environ.get("VH_SCRATCH")) as path:
            name = os.path.join(path, "mio.txt")
            with open(name, "w", newline="") as out:
                out.write(files.mio_text(data))
            if which == "internal":
                self.model = load_model_swarm_mio_internal(name)
            elif which == "primary":
                self.model = load_model_swarm_mio_external(name)
            else:
                self.model = load_model_swarm_mio_external(name, which == "above")

    def _direct(self, spec):
        def create(mio, internal, validity):
            kw, mkw = {}, {}
            if validity:
                kw = {"validity_start": validity[0], "validity_end": validity[1]}
            validity = tuple(validity or (-np.inf, np.inf))
            if spec["simple"]:
                kw["mjd2000_to_year_fraction"] = tu.mjd2000_to_year_fraction_simple
            if mio["wolf"] is not None:
                mkw["wolf_ratio"] = mio["wolf"]
            values = mg.mio_values(mio)
            coef = SparseSHCoefficientsMIO(np.array(mio["nm"]), values.copy(), mio["ps"], is_internal=internal, **kw)
            part = Part([tuple(v) for v in mio["nm"]], values, mio["ps"], internal, mio["pole"], 0.01485 if mio["wolf"] is None else mio["wolf"], validity, spec["simple"])
            return DipoleMIOGeomagneticModel(coef, tuple(mio["pole"]), **mkw), part

        if spec["which"] == "primary":
            below, self.below = create(spec["mio"], False, spec.get("validity"))
            above, self.above = create(spec["other"], True, spec.get("other_validity") or spec.get("validity"))
            kw = {} if spec["height"] is None else {"height": spec["height"]}
            self.height = kw.get("height", 110.0)
            self.model = MIOPrimaryGeomagneticModel(below, above, **kw)
        elif spec["which"] == "below":
            self.model, self.below = create(spec["mio"], False, spec.get("validity"))
        else:
            self.model, self.above = create(spec["mio"], True, spec.get("validity"))

    def part_of(self, p, kin):
        if len(self.parts) == 1:
            return self.parts[0]
        radius = float(ref.convert(np.array(p), kin, 1)[2])
        limit = self.height + RADIUS
        if kin != 1 and abs(radius - limit) < 1e-6:
            return None
        return self.below if radius <= limit else self.above


F107 = st.one_of(gen.finite(60, 300), gen.finite(-300, 1000), st.sampled_from([0.0, 100.0]))


@st.composite
def cases(draw):
    spec = draw(model_specs())
    kin = draw(st.integers(0, 2))
    height = spec["file"]["height"] if "file" in spec else (spec["height"] or 110.0)
    sheet = height + RADIUS

    def near_sheet(lat, lon, rad):
        return [lat, lon, rad] if kin == 1 else [float(v) for v in ref.convert(np.array([lat, lon, rad]), 1, kin)]

    close = st.builds(near_sheet, gen.finite(-89, 89), gen.finite(-180, 180), st.sampled_from([sheet, sheet - 1e-3, sheet + 1e-3, sheet - 30, sheet + 30, sheet + 300, 6371.2]))
    exact = st.builds(lambda lat, lon, up: [lat, lon, float(np.nextafter(sheet, 1e9)) if up else sheet], gen.finite(-89, 89), gen.finite(-180, 180), st.booleans())
    point = st.one_of(gen.positions(kin, rmin=6000.0, rmax=8000.0, hmin=-100.0, hmax=1500.0), close, *([exact] if kin == 1 else []))
    times = st.one_of(gen.finite(3653, 11000), st.integers(3653, 11000).map(float), st.sampled_from((spec.get("validity") or [5000.0, 5114.0, 5479.0]) + spec.get("other_validity", [])))
    nf = st.sampled_from(["none", "scalar", "time", "full", "leading"])
    return {"model": spec, "kin": kin, "kout": draw(st.integers(0, 2)), "times": draw(st.lists(times, min_size=1, max_size=3)),
            "points": draw(st.lists(point, min_size=1, max_size=3)), "shapes": draw(mg.shapes), "seed": draw(gen.SEED),
            "f107": draw(st.lists(F107, min_size=2, max_size=3)), "nan_f107": draw(st.integers(0, 3)) == 0, "f107_extent": draw(nf), "sun_extent": draw(nf), "sun_part": draw(st.sampled_from([None] * 5 + ["lat_sol", "lon_sol"])),
            "suns": draw(st.lists(st.tuples(gen.finite(-23.5, 23.5), gen.finite(-200, 360)), min_size=2, max_size=3)),
            "options": {k: v for k, v in (("min_degree", draw(st.sampled_from([None, None, 1, 2]))), ("max_degree", draw(st.sampled_from([None, None, 0, 1, 3]))),
                                          ("scale", draw(st.sampled_from([None, None, 1.0, -2.0, 0.5])))) if v is not None},
            "styles": draw(st.tuples(*[st.sampled_from(["plain", "list", "strided", "fortran"])] * 2))}


def extent_of(name, tshape, shape):
    return {"none": None, "scalar": (), "time": tshape if len(tshape) <= len(shape) else shape, "full": shape, "leading": shape[:1]}[name]


@check(cases(), quick=3500, thorough=200000,
       rule="models given directly or by generated files (internal, external below/above, primary), times, positions on both sides of and at the sheet in the three systems, F10.7 and given or own sub-solar points of any extents, degrees and scales, broadcasting; non-trivial with a nonzero field")
def mio_field(case, ctx):
    model = Model(case["model"])
    start, end = [float(v) for v in model.model.validity]
    if model.validity[0] > model.validity[1]:
        ctx.label("never valid")
        require(start > end, "a model which is never valid has a validity", got=[start, end], case=case)
    else:
        require_same([start, end], model.validity, "wrong validity", case=case)
    degrees = [max(p.degree for p in model.parts), min(p.min_degree for p in model.parts)]
    require([model.model.degree, model.model.min_degree] == degrees, "wrong degrees", got=[model.model.degree, model.model.min_degree], expected=degrees)
    require(set(model.model.parameters) == {"time", "location", "f107", "subsolar_point"}, "wrong parameters")
    tshape, lshape = [tuple(s) for s in case["shapes"]]
    seed = case["seed"]
    times = mg.fill(case["times"], tshape, seed)
    points = mg.fill(case["points"], lshape, seed + 1).reshape(lshape + (3,))
    shape, index = mg.pairs(tshape, lshape)
    options = dict(case["options"])
    f107 = sun_lat = sun_lon = None
    ext = extent_of(case["f107_extent"], tshape, shape)
    if ext is not None:
        f107 = mg.fill(case["f107"], ext, seed + 2)
        if case["nan_f107"]:
            f107 = np.where(gen.rng(seed).random(ext) < 0.4, np.nan, f107)
        options["f107"] = float(f107) if ext == () else f107
    ext = extent_of(case["sun_extent"], tshape, shape)
    if ext is not None:
        suns = mg.fill(case["suns"], ext, seed + 3)
        sun_lat, sun_lon = suns[..., 0], suns[..., 1]
        options["lat_sol"], options["lon_sol"] = (float(v) if ext == () else v for v in (sun_lat, sun_lon))
        if case["sun_part"]:
            # not complete, replaced by the Sun model
            ctx.label("incomplete position of the Sun")
            del options[case["sun_part"]]
            sun_lat = sun_lon = None
    targ = mg.layout(times, case["styles"][0]) if tshape and 0 not in tshape else times
    parg = mg.layout(points, case["styles"][1]) if 0 not in lshape else points
    kin, kout = case["kin"], case["kout"]
    copies = np.copy(targ), np.copy(parg), {k: np.copy(v) for k, v in options.items()}
    kw = {}
    if kin != 1 or seed % 2:
        kw["input_coordinate_system"] = KINDS[kin]
    if kout != 1 or seed % 2:
        kw["output_coordinate_system"] = KINDS[kout]
    res = model.model.eval(targ, parg, **kw, **options)
    require_same(targ, copies[0], "times modified")
    require_same(parg, copies[1], "positions modified")
    require(sorted(options) == sorted(copies[2]), "options modified")
    for k, v in copies[2].items():
        require_same(options[k], v, "options modified", name=k)
    require_shape(res, shape + (3,))
    scale = case["options"].get("scale", 1.0)
    for i, j, k in index:
        t, p = float(times[j]), points[k].tolist()
        value = None if f107 is None else float(f107[i[:f107.ndim]])
        single = {k2: v for k2, v in case["options"].items()}
        if value is not None:
            single["f107"] = value
        if sun_lat is None:
            dec, _, gha = (float(np.degrees(v)) for v in sun.grena5(t, 0.0))
            sun_at = dec, float(angle_diff(-gha, 0.0)), 2e-7
        else:
            at = i[:sun_lat.ndim]
            sun_at = float(sun_lat[at]), float(sun_lon[at]), 0.0
            single["lat_sol"], single["lon_sol"] = sun_at[:2]
        one = model.model.eval(t, p, **kw, **single)
        require_shape(one, (3,))
        part = model.part_of(p, kin)
        valid = model.validity[0] <= t <= model.validity[1]
        if not valid and any(v.validity[0] <= t <= v.validity[1] for v in ([part] if part else model.parts)):
            # the expansion of this side of the sheet is valid, but the model as a whole is not
            ctx.label("partly valid")
            continue
        if not valid or (value is not None and np.isnan(value)):
            ctx.label("out of validity" if not valid else "unknown F10.7")
            require(np.all(np.isnan(res[i])) and np.all(np.isnan(one)), "a value out of validity or without F10.7", time=t, f107=value, got=[res[i], one], case=case)
            continue
        if part is None:
            continue
        expected = part.field(t, sun_at, p, kin, kout, case["options"])
        if expected is None:
            continue
        vec, tol = expected
        factor = scale * (1.0 if value is None else 1.0 + part.wolf * value)
        if np.any(vec):
            ctx.nontrivial("external" if not part.internal else "internal")
        require_close(res[i], factor * vec, abs(factor) * tol, "wrong field", time=t, point=p, f107=value, sun=sun_at, case=case)
        require_close(one, factor * vec, abs(factor) * tol, "wrong field (single)", time=t, point=p, f107=value, sun=sun_at, case=case)
        require_close(res[i], one, 1e-2 * abs(factor) * tol + 2e-13 * float(np.abs(one).max()) + 1e-12 * abs(factor) * float(np.abs(vec).max()), "differs from the single evaluation", time=t, point=p, case=case)


@st.composite
def sheet_cases(draw):
    return {"file": draw(files.mio_file_spec()), "time": draw(gen.finite(3653, 11000)), "f107": draw(F107),
            "points": draw(st.lists(st.tuples(gen.finite(-89.9, 89.9), gen.finite(-180, 180)), min_size=1, max_size=4))}


@check(sheet_cases(), quick=1500, thorough=80000,
       rule="primary fields of generated files on both sides of the sheet; the radial component is continuous and the horizontal one jumps; non-trivial with a nonzero field")
def continuity(case, ctx):
    model = Model({"file": case["file"], "which": "primary"}).model
    sheet = case["file"]["height"] + RADIUS
    below = np.array([[lat, lon, sheet] for lat, lon in case["points"]])
    above = below.copy()
    above[:, 2] = np.nextafter(sheet, 1e9)
    kw = {"f107": case["f107"]}
    a, b = model.eval(case["time"], below, **kw), model.eval(case["time"], above, **kw)
    size = np.abs(a).max()
    values = files.mio_file_values(case["file"])[0]
    bound = float(np.sum(np.hypot(values[..., 0], values[..., 1]).sum((-1, -2)) * np.array([2 * n * n for n, _ in case["file"]["nm"]])))
    top = max(n for n, _ in case["file"]["nm"])
    bound *= (1 + case["file"]["height"] / RADIUS) ** top * (1 + abs(case["file"]["wolf"] * case["f107"]))
    if size > 1e-3:
        ctx.nontrivial()
    require_close(a[:, 2], b[:, 2], 1e-12 * bound, "radial field not continuous at the sheet", case=case)
    # evaluations of a mixed array
    mixed = np.concatenate([below, above, below])
    both = model.eval(case["time"], mixed, **kw)
    require_close(both, np.concatenate([a, b, a]), 1e-12 * bound, "array of mixed positions", case=case)
    wolf = case["file"]["wolf"]
    base = model.eval(case["time"], below)
    require_close(a, base * (1 + wolf * case["f107"]), 1e-13 * bound, "not scaled by F10.7", case=case)


@st.composite
def coefficient_cases(draw):
    forms = st.sampled_from(["plain", "list", "f4", "int", "strided"])
    shape = draw(st.sampled_from([[], [1], [3], [2, 2], [0]]))
    size = int(np.prod(shape))
    times = draw(st.lists(st.one_of(st.integers(-4000, 11000), gen.finite(-4000, 11000)), min_size=size, max_size=size))
    muts = draw(st.lists(st.one_of(st.integers(0, 24), gen.finite(-5, 30)), min_size=size, max_size=size))
    limit = st.sampled_from([None, None, -1, 0, 1, 2, 3, 9])
    return {"mio": draw(mg.mio_spec(max_degree=12)), "shape": shape, "times": times, "muts": muts, "forms": [draw(forms), draw(forms)],
            "index": draw(st.sampled_from(["i8", "i4", "i2", "i1"])), "lo": draw(limit), "hi": draw(limit), "simple": draw(st.booleans())}


def in_form(values, shape, form):
    a = np.reshape(np.array(values, dtype="f8"), shape)
    if form == "int":
        return np.rint(a).astype("i8")
    if form == "f4":
        return a.astype("f4")
    if form == "list":
        return a.tolist()
    if form == "strided":
        return np.stack([a, a + 1], axis=-1)[..., 0]
    return a


@check(coefficient_cases(), quick=2500, thorough=80000,
       rule="sparse coefficients of a Fourier series at scalar and array times and magnetic universal times given in any form, limits of the degree; non-trivial when some coefficient is selected")
def coefficients(case, ctx):
    """coefficients are sums of their Fourier series"""
    mio = case["mio"]
    nm = [tuple(v) for v in mio["nm"]]
    values = mg.mio_values(mio)
    kw = {"mjd2000_to_year_fraction": tu.mjd2000_to_year_fraction_simple} if case["simple"] else {}
    coef = SparseSHCoefficientsMIO(np.array(nm, dtype=case["index"]), values.copy(), mio["ps"], **kw)
    require(coef.degree == max(n for n, _ in nm) and coef.min_degree == min(n for n, _ in nm), "wrong degree", case=case)
    lo, hi = case["lo"], case["hi"]
    options = {k: v for k, v in (("min_degree", lo), ("max_degree", hi)) if v is not None}
    lo, hi = (-1 if v is None else v for v in (lo, hi))
    forms = list(case["forms"])
    if case["simple"] and forms[0] == "f4":
        # numpy arithmetic in the type of the times
        forms[0] = "plain"
    t, u = (in_form(case[k], case["shape"], f) for k, f in zip(("times", "muts"), forms))
    got, degree = coef(t, u, **options)
    keep = [i for i, (n, _) in enumerate(nm) if (lo < 0 or n >= lo) and (hi < 0 or n <= hi)]
    if keep:
        ctx.nontrivial("array" if case["shape"] else "scalar")
    require(degree == max([nm[i][0] for i in keep], default=0), "wrong degree of the selected coefficients", got=degree, case=case)
    t, u = np.asarray(t, dtype="f8"), np.asarray(u, dtype="f8")
    require_shape(got, (*t.shape, (degree + 1) * (degree + 2) // 2, 2))
    for k in np.ndindex(t.shape):
        fraction = float((mg.simple_year(t[k]) % 1) if case["simple"] else mg.decimal_year(t[k]) % 1)
        val, tol, amp = mg.fourier_sum(values[keep], mio["ps"][0], mio["ps"][2], fraction, u[k])
        tol = tol + 4e-12 * max(abs(mio["ps"][2]), abs(mio["ps"][3]), 1) * amp
        expected, errs = (dense(degree, [nm[i] for i in keep], v) for v in (val, tol))
        require_close(got[k], expected.astype(float), errs.astype(float), "wrong coefficients", time=t[k], case=case)
