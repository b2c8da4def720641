"""P30 the shipped models, loaded by the public loaders, describe one and the same Earth"""
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from eoxmagmod import data
from vh import gen, modelgen as mg
from vh.core import check, require, require_close

S, G, C = em.GEOCENTRIC_SPHERICAL, em.GEODETIC_ABOVE_WGS84, em.GEOCENTRIC_CARTESIAN
KINDS = [S, G, C]
_MODELS = {}


def day(year):
    return float(mg.from_year(year))


def build(name):
    if name.startswith("IGRF"):
        if name == "IGRF11":
            return em.load_model_igrf(data.IGRF11)
        if name.endswith("dy"):
            return em.load_model_shc(getattr(data, name[:-2]), interpolate_in_decimal_years=True)
        return em.load_model_shc(getattr(data, name))
    return {
        "CHAOS7": lambda: em.load_model_shc(data.CHAOS7_CORE_X18, data.CHAOS7_CORE_X18_PREDICTION),
        "CHAOS8": lambda: em.load_model_shc(data.CHAOS8_CORE_V1, data.CHAOS8_CORE_V1_PREDICTION),
        "CHAOS7 latest": lambda: em.load_model_shc(data.CHAOS7_CORE_PREDICTION_LATEST, data.CHAOS7_CORE_LATEST),
        "CHAOS8 latest": lambda: em.load_model_shc(data.CHAOS_CORE_LATEST, data.CHAOS_CORE_PREDICTION_LATEST),
        "CHAOS7 full": lambda: em.load_model_shc_combined(data.CHAOS7_CORE_X18, data.CHAOS7_STATIC),
        "CHAOS8 full": lambda: em.load_model_shc_combined(data.CHAOS8_STATIC, data.CHAOS8_CORE_V1),
        "WMM": lambda: em.load_model_wmm(data.WMM_2015),
        "SIFM": lambda: em.load_model_shc(data.SIFM),
        "CHAOS7 static": lambda: em.load_model_shc(data.CHAOS7_STATIC),
        "CHAOS8 static": lambda: em.load_model_shc(data.CHAOS_STATIC_LATEST),
        "LCS1": lambda: em.load_model_shc(data.LCS1),
        "MF7": lambda: em.load_model_shc(data.MF7),
    }[name]()


def model(name):
    if name not in _MODELS:
        _MODELS[name] = build(name)
    return _MODELS[name]


def positions(seed, count, low, high):
    """uniformly distributed positions, spherical coordinates"""
    rng = gen.rng(seed)
    lat = np.degrees(np.arcsin(rng.uniform(-1, 1, count)))
    return np.stack([lat, rng.uniform(-180, 180, count), rng.uniform(low, high, count)], -1)


def field(name, times, points, kin, kout, **options):
    """field in spherical frames, whatever the coordinate systems used"""
    where = em.convert(points, S, kin)
    out = model(name).eval(times, where, input_coordinate_system=kin, output_coordinate_system=kout, **options)
    return em.vrotate(out, em.convert(points, S, kout), points, kout, S)


# (models, years of the comparison, largest difference in nT at the surface and above); the
# snapshots which are definitive do not change in later releases
SAME = [("IGRF11", "IGRF12dy", 1900, 2005), ("IGRF11", "IGRF13dy", 1900, 2005), ("IGRF11", "IGRF14dy", 1900, 2005),
        ("IGRF12dy", "IGRF13dy", 1900, 2010), ("IGRF12", "IGRF14", 1900, 2010), ("IGRF13", "IGRF14", 1900, 2015), ("IGRF13dy", "IGRF14dy", 1900, 2015),
        ("CHAOS7", "CHAOS7 latest", 1997.2, 2025.0), ("CHAOS8", "CHAOS8 latest", 1997.2, 2025.5)]
CLOSE = [("IGRF11", "IGRF14", 1900, 2005, 1.0), ("IGRF12", "IGRF12dy", 1900, 2020, 1.0), ("IGRF14", "IGRF14dy", 1900, 2030, 1.0),
         ("IGRF13", "IGRF14", 2015, 2020, 20), ("IGRF12", "IGRF14", 2010, 2015, 40), ("IGRF11", "IGRF14", 2005, 2010, 25), ("IGRF13", "IGRF14", 2020, 2025, 400),
         ("IGRF12", "CHAOS8", 1997.2, 2015, 150), ("IGRF14", "CHAOS7", 1997.2, 2025.0, 150), ("IGRF14", "CHAOS8", 1997.2, 2025.5, 150),
         ("CHAOS7", "CHAOS8", 1997.2, 2025.0, 50), ("IGRF14", "WMM", 2015, 2020, 180), ("WMM", "CHAOS7", 2015, 2020, 180), ("CHAOS8", "WMM", 2015, 2020, 180),
         ("IGRF13", "SIFM", 2013.6, 2015.4, 120), ("SIFM", "IGRF14", 2013.6, 2015.4, 120), ("CHAOS7", "SIFM", 2013.6, 2015.4, 50), ("SIFM", "CHAOS8", 2013.6, 2015.4, 60)]
STATIC = [("CHAOS7 static", "CHAOS8 static", 185, 6371.2, 30), ("CHAOS7 static", "LCS1", 185, 6371.2, 10), ("LCS1", "CHAOS8 static", 185, 6371.2, 25),
          ("CHAOS7 static", "MF7", 60, 6371.2, 60), ("MF7", "CHAOS8 static", 60, 6371.2, 60), ("LCS1", "MF7", 60, 6371.2, 60),
          ("SIFM", "LCS1", 60, 6371.2, 80), ("CHAOS7 static", "SIFM", 60, 6371.2, 80), ("CHAOS8 full", "LCS1", 120, 6371.2, 25), ("MF7", "CHAOS7 full", 130, 6771.2, 10),
          ("MF7", "LCS1", 130, 6771.2, 10), ("SIFM", "MF7", 65, 6771.2, 10), ("CHAOS7 full", "CHAOS8 full", 185, 6371.2, 30)]


def times_of(first, last, parts, snap):
    years = [first + p * (last - first) for p in parts]
    if snap:
        years = [min(max(5.0 * round(y / 5), first), last) for y in years]
    low, high = day(first), day(last)
    return [min(max(day(y), low), high) for y in years]


CASES = {"parts": st.lists(gen.finite(0, 1), min_size=1, max_size=4), "snap": st.booleans(), "single": st.booleans(), "seed": gen.SEED,
         "kinds": st.tuples(*[st.integers(0, 2)] * 4), "top": st.sampled_from([6371.2, 6400.0, 6900.0, 20000.0])}


def two_models(case, low, **options):
    """fields of both models at the same random positions"""
    first, second, start, end = case["pair"][:4]
    times = times_of(start, end, case["parts"], case["snap"])
    points = positions(case["seed"], len(times), low, max(low, case["top"]))
    k = [KINDS[i] for i in case["kinds"]]
    if case["single"]:
        times, points = times[0], points[0]
    args = np.array(times), points
    return field(first, *args, k[0], k[1], **options), field(second, *args, k[2], k[3], **options)


@check(st.fixed_dictionaries({"pair": st.sampled_from(SAME), **CASES}), quick=500, thorough=20000,
       rule="pairs of releases, times covered by snapshots which have been final in both, random positions at the surface and above; non-trivial off the snapshots")
def same_field(case, ctx):
    """definitive fields are the same in all releases"""
    a, b = two_models(case, 6371.2)
    ctx.nontrivial(case["pair"][0]) if not case["snap"] else None
    require_close(a, b, 1e-5, "the same field differs between releases", models=case["pair"][:2])


@check(st.fixed_dictionaries({"pair": st.sampled_from(CLOSE), **CASES}), quick=600, thorough=30000,
       rule="pairs of models of the core field, times in both validities, random positions at the surface and above, degrees up to 12; non-trivial for models of different origin")
def similar_field(case, ctx):
    """models of the core field agree within their accuracy"""
    a, b = two_models(case, 6371.2, max_degree=12)
    first, second, *_, limit = case["pair"]
    ctx.nontrivial(f"{first}-{second}") if first[:4] != second[:4] else None
    require_close(a, b, float(limit), "models of the same core field differ", models=[first, second])
    size = em.vnorm(a)
    require(bool(np.all((size < 72000))), "the core field is too strong", got=size)
    if case["top"] == 6371.2:
        require(bool(np.all(size > 20000)), "the core field is too weak", got=size)


@check(st.fixed_dictionaries({"pair": st.sampled_from(STATIC), **CASES, "low": st.sampled_from([21, 21, 22, 30])}), quick=500, thorough=20000,
       rule="pairs of models of the lithospheric field alone or combined with the core field, random positions, degrees from 21; non-trivial for models of different origin")
def similar_crust(case, ctx):
    """models of the lithospheric field agree within their accuracy"""
    first, second, degree, low, limit = case["pair"]
    case = dict(case, pair=(first, second, 2014.0, 2015.4))
    a, b = two_models(case, low, min_degree=case["low"], max_degree=degree)
    ctx.nontrivial(f"{first}-{second}") if first[:4] != second[:4] else None
    require_close(a, b, float(limit), "models of the lithospheric field differ", models=[first, second])


FAMILIES = [("IGRF_LATEST", ["IGRF12", "IGRF13", "IGRF14"]), ("CHAOS_CORE_LATEST", ["CHAOS7_CORE_X18", "CHAOS8_CORE_V1"]),
            ("CHAOS_CORE_PREDICTION_LATEST", ["CHAOS7_CORE_X18_PREDICTION", "CHAOS8_CORE_V1_PREDICTION"])]
FOLLOWS = [("CHAOS7_CORE_X18", "CHAOS7_CORE_X18_PREDICTION"), ("CHAOS8_CORE_V1", "CHAOS8_CORE_V1_PREDICTION"), ("CHAOS_CORE_LATEST", "CHAOS_CORE_PREDICTION_LATEST"),
           ("CHAOS7_CORE_LATEST", "CHAOS7_CORE_PREDICTION_LATEST"), ("CHAOS8_CORE_LATEST", "CHAOS8_CORE_PREDICTION_LATEST")]


# what the first non-empty line of the files say
TITLES = {"CHAOS7_CORE_X18": "CHAOS-7.18 core", "CHAOS7_CORE_X18_PREDICTION": "extrapolated CHAOS-7.18 core", "CHAOS7_CORE_LATEST": "CHAOS-7.18 core",
          "CHAOS7_CORE_PREDICTION_LATEST": "extrapolated CHAOS-7.18 core", "CHAOS7_STATIC": "CHAOS-7 crustal", "CHAOS8_CORE_V1": "CHAOS-8.1 core",
          "CHAOS8_CORE_V1_PREDICTION": "extrapolated CHAOS-8.1 core", "CHAOS8_STATIC": "CHAOS-8.1 lithospheric", "CHAOS8_IONOSPHERE": "CHAOS-8.1 ionospheric",
          "CHAOS8_CORE_LATEST": "CHAOS-8.1 core", "CHAOS8_CORE_PREDICTION_LATEST": "extrapolated CHAOS-8.1 core", "CHAOS_CORE_LATEST": "CHAOS-8.1 core",
          "CHAOS_CORE_PREDICTION_LATEST": "extrapolated CHAOS-8.1 core", "CHAOS_STATIC_LATEST": "CHAOS-8.1 lithospheric", "CHAOS_IONOSPHERE_LATEST": "CHAOS-8.1 ionospheric",
          "IGRF11": "11th Generation", "IGRF12": "IGRF 12", "IGRF13": "IGRF 13", "IGRF14": "IGRF 14", "IGRF_LATEST": "IGRF 14", "SIFM": "SIFM", "LCS1": "LCS-1", "MF7": "MF7",
          "WMM_2015": "WMM-2015v2"}
APEX = {"APEX_2015": (1995, 2015), "APEX_2020": (1980, 2020), "APEX_2025": (1980, 2025), "APEX_2030": (1980, 2030), "APEX_LATEST": (1980, 2030)}


@check(st.sampled_from(sorted(TITLES) + sorted(APEX)), quick=60, thorough=120, rule="names of the shipped files and the titles (epochs) of the files; all cases count")
def names(case, ctx):
    """the names select the files of the releases they stand for"""
    ctx.nontrivial()
    with open(getattr(data, case), encoding="utf-8") as file:
        text = file.read(4000)
    if case in TITLES:
        require(TITLES[case] in text.strip().split("\n")[0], "the name selects another file", name=case, got=text[:100])
        require(("extrapolated" in text.split("\n")[0]) == ("PREDICTION" in case), "the name selects another file", name=case, got=text[:100])
    else:
        count = int(text.split()[0])
        epochs = [float(v) for v in text.split()[5:5 + count]]
        require((epochs[0], epochs[-1]) == APEX[case], "the name selects another file", name=case, got=epochs)


def by_name(name):
    if (name, 0) not in _MODELS:
        _MODELS[name, 0] = em.load_model_shc(getattr(data, name))
    return _MODELS[name, 0]


@check(st.fixed_dictionaries({"family": st.sampled_from(FAMILIES), "follow": st.sampled_from(FOLLOWS), "part": gen.finite(0, 1), "seed": gen.SEED}), quick=200, thorough=5000,
       rule="names of the latest releases against all releases, predictions against the models they follow; all cases count")
def latest(case, ctx):
    """latest names select the newest release and predictions continue their models"""
    name, releases = case["family"]
    point = positions(case["seed"], 1, 6371.2, 6371.2)[0]
    options = dict(input_coordinate_system=S, output_coordinate_system=S)
    newest = max((by_name(r) for r in releases), key=lambda m: float(m.validity[1]))
    low, high = (float(v) for v in newest.validity)
    time = low + case["part"] * (high - low)
    ctx.nontrivial(name)
    require_close(by_name(name).eval(time, point, **options), newest.eval(time, point, **options), 0.0, "the latest name is not of the newest release", name=name)
    core, prediction = (by_name(v) for v in case["follow"])
    require(float(core.validity[1]) == float(prediction.validity[0]), "the prediction does not follow the model", got=[core.validity, prediction.validity])
    require_close(core.eval(core.validity[1], point, **options), prediction.eval(prediction.validity[0], point, **options), 0.5,
                  "the prediction does not continue the model", names=case["follow"])


@check(st.fixed_dictionaries({"year": gen.finite(1980.0, 2029.9), "seed": gen.SEED, "kinds": st.tuples(*[st.integers(0, 2)] * 2), "step": st.sampled_from([10.0, 20.0, 20.0])}),
       quick=64, thorough=1500, rule="field lines of the IGRF traced from random positions 100-1500 km above the surface; non-trivial when the apex is at least 300 km above the end of the line")
def field_lines(case, ctx):
    """quasi-dipole coordinates are constant along the traced field lines, the latitude gives the apex height"""
    point = positions(case["seed"], 1, 6471.2, 7871.2)[0]
    lat, lon = em.eval_qdlatlon(*point, case["year"])
    if abs(lat) > 65:
        return
    kin, kout = (KINDS[i] for i in case["kinds"])
    line, _ = em.trace_field_line(model("IGRF14"), day(case["year"]), em.convert(point, S, kin), kin, kout,
                                  trace_options={"step": case["step"], "max_steps": 4000, "min_radius": 6471.0})
    line = np.asarray(line)
    height = em.convert(line, kout, G)[:, 2]
    if len(line) < 5 or not 1 < np.argmax(height) < len(line) - 2:
        return
    if height.max() > min(height[0], height[-1]) + 300:
        ctx.nontrivial()
    index = np.linspace(0, len(line) - 1, 9).astype(int)
    where = em.convert(line[index], kout, S)
    qd_lat, qd_lon = em.eval_qdlatlon(where[:, 0], where[:, 1], where[:, 2], np.full(9, case["year"]))
    expected = np.degrees(np.arccos(np.sqrt(np.clip((6371.009 + height[index]) / (6371.009 + height.max()), 0, 1))))
    require_close(np.abs(qd_lat), expected, 1.2, "the quasi-dipole latitudes do not give the apex of the line", year=case["year"], line=where)
    difference = ((qd_lon - lon + 180) % 360 - 180) * np.cos(np.radians(qd_lat))
    require_close(difference, np.zeros(9), 1.2, "the quasi-dipole longitudes change along the line", year=case["year"], line=where)


@check(st.fixed_dictionaries({"year": gen.finite(1980.0, 2029.9), "seed": gen.SEED, "kinds": st.tuples(*[st.integers(0, 2)] * 2), "distance": st.sampled_from([10.0, 20.0])}),
       quick=500, thorough=20000, rule="random positions 10-500 km above the surface; non-trivial in quasi-dipole latitudes below 65 deg., where the apex height is compared")
def field_direction(case, ctx):
    """quasi-dipole coordinates follow the direction of the modelled field"""
    point = positions(case["seed"], 1, 6381.0, 6871.2)[0]
    kin, kout = (KINDS[i] for i in case["kinds"])
    year = np.full(3, case["year"])
    options = dict(input_coordinate_system=kin, output_coordinate_system=kout)
    vector = model("IGRF14").eval(day(case["year"]), em.convert(point, S, kin), **options)
    vector = np.asarray(em.vrotate(vector, em.convert(point, S, kout), point, kout, S))
    inclination, _, size = em.vincdecnorm(vector)
    require_close(size, em.vnorm(vector), 1e-6, "wrong intensity")
    cart = em.convert(point, S, C)
    unit = np.asarray(em.vrotate(vector, point, cart, S, C)) / float(size)
    line = cart + case["distance"] * np.array([-1, 0, 1])[:, None] * unit
    where, height = em.convert(line, C, S), em.convert(line, C, G)[:, 2]
    lat, lon = em.eval_qdlatlon(where[:, 0], where[:, 1], where[:, 2], year)
    require(bool((inclination > 0) == (lat[1] > 0)) or abs(lat[1]) < 0.5, "the hemispheres differ", inclination=float(inclination), latitude=float(lat[1]))
    change = ((lon - lon[1] + 180) % 360 - 180) * np.cos(np.radians(lat))
    require_close(change, np.zeros(3), 0.02, "the quasi-dipole longitude changes along the field", year=case["year"], point=point)
    if abs(lat[1]) < 65:
        ctx.nontrivial()
        apex = (6371.009 + height) / np.cos(np.radians(lat)) ** 2
        require_close(apex / apex[1], np.ones(3), 1e-3, "the apex height changes along the field", year=case["year"], point=point)
