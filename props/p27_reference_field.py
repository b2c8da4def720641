"""P27 the reference field and the apex tracing of the qdipole library, and the generation of its coefficient files"""
import math
import os
import numpy as np
from hypothesis import strategies as st
import eoxmagmod.data as data
from vh import gen, apex, geomag, qdlib
from vh.core import HarnessError, check, require, require_close

SCRATCH = os.environ.get("VH_SCRATCH", "/tmp")
UNIT = 1e-9 * geomag.RE * 1e3           # nT * Earth radius in T m
GAUSS = 1e-5


def f32(value):
    return float(np.float32(value))


def coefficients(date):
    return geomag.igrf(data.IGRF14).at(date)


def dipole(coef):
    """colatitude and longitude of the north pole of the centred dipole and the potential at the pole"""
    g, h, z = coef[0, 1, 1], coef[1, 1, 1], coef[0, 1, 0]
    size = math.sqrt(g * g + h * h + z * z)
    return math.degrees(math.acos(-z / size)), math.degrees(math.atan2(-h, -g)), size * UNIT


DATES = st.one_of(gen.finite(1900, 2032).map(f32), gen.finite(1995, 2032).map(f32), st.integers(380, 406).map(lambda v: v * 5.0), st.sampled_from([1900.0, 2000.0, 2020.0, 2025.0, 2030.0]))
LATS = gen.latitudes().map(f32)
LONS = gen.longitudes(wrap=False).map(f32)
HEIGHTS = st.one_of(st.sampled_from([0.0, 110.0, 450.0]), gen.finite(-100, 3000).map(f32), gen.finite(-2000, 60000).map(f32))


@st.composite
def positions(draw):
    """geocentric position in Earth radii"""
    lat, lon = math.radians(draw(LATS)), math.radians(draw(LONS))
    r = draw(st.one_of(st.just(1.0), gen.finite(0.6, 2.0), gen.finite(0.6, 10.0)))
    return [f32(r * math.cos(lat) * math.cos(lon)), f32(r * math.cos(lat) * math.sin(lon)), f32(r * math.sin(lat))]


@st.composite
def field_ops(draw):
    date = None
    dates = draw(st.lists(DATES, min_size=1, max_size=3))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(["date", "date", "date", "geodetic", "geodetic", "cartesian", "cartesian", "potential", "potential", "pole", "apex", "mlt"]))
        if date is None:
            kind = "date" if kind not in ("apex", "mlt") else kind
        if kind == "date":
            date = draw(st.sampled_from(dates))
            ops.append([kind, date])
        elif kind == "geodetic":
            ops.append([kind, draw(LATS), draw(LONS), draw(HEIGHTS)])
        elif kind in ("cartesian", "potential"):
            ops.append([kind] + draw(positions()))
        elif kind == "apex":
            date = draw(st.sampled_from(dates))
            ops.append([kind, date, draw(LATS), draw(LONS), max(0.0, draw(HEIGHTS))])
        elif kind == "mlt":
            date = draw(st.sampled_from(dates))
            ops.append([kind, (date - 2000.0) * 365.25])
        else:
            ops.append([kind])
    kind = draw(st.sampled_from(["geodetic", "cartesian", "potential"]))
    if kind == "geodetic":
        ops.append([kind, draw(LATS), draw(LONS), draw(HEIGHTS)])
    else:
        ops.append([kind] + draw(positions()))
    return ops


def local_field(coef, lat, lon, alt):
    """north, east, down and the size of the field (Gauss), and the potential (T m)"""
    la, lo = math.radians(lat), math.radians(lon)
    pot, field = geomag.evaluate(coef, geomag.geodetic_to_cart(lat, lon, alt) / geomag.RE)
    north = np.array([-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)])
    east = np.array([-math.sin(lo), math.cos(lo), 0])
    up = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    b = field * GAUSS
    return [b @ north, b @ east, -(b @ up)], np.linalg.norm(b), pot * UNIT


def spread(coef, r):
    """bound of the size of the field (nT): sum of the sizes of the degrees"""
    degrees = np.arange(1, coef.shape[1])
    size = np.sqrt((coef ** 2).sum(axis=(0, 2)))[1:]
    return float(np.sum((degrees + 1) ** 1.5 * size * r ** -(degrees + 2.0)))


@check(field_ops(), quick=6000, thorough=400000,
       rule="sequences of selections of a date (repeating dates), evaluations of the field and the potential, of the pole, and of calls which select a date inside; non-trivial for more than one date selected")
def field(case, ctx):
    """FELDG and DYPOL are those of the IGRF at the date selected last, whatever was called before"""
    date = None
    if sum(op[0] in ("date", "apex", "mlt") for op in case) > 1:
        ctx.nontrivial()
    for number, op in enumerate(case):
        kind = op[0]
        info = {"operation": number, "op": op, "history": case}
        if kind == "date":
            date = op[1]
            qdlib.call("cofrm", date)
        elif kind == "apex":
            date = op[1]
            res = qdlib.call("apex", *op[1:], *[qdlib.F] * 8)
            coef = coefficients(date)
            check_field(coef, op[2:], res[4:7], res[3], 1 / GAUSS, info)
            r = np.linalg.norm(geomag.geodetic_to_cart(*op[2:])) / geomag.RE
            require_close(res[7], local_field(coef, *op[2:])[2], 2e-6 * spread(coef, r) * r * UNIT, "wrong potential by APEX", **info)
        elif kind == "mlt":
            # magnetic local time selects the date of the coefficients inside
            mlt = qdlib.call("eval_mlt", qdlib.Out("d", 1), np.array([10.0]), np.array([op[1]]), 1)[0]
            require(-1e-3 <= mlt <= 24.001, "wrong range of the magnetic local time", mlt=mlt, **info)
            date = f32(2000.0 + op[1] / 365.25)
        elif kind == "pole":
            colat, lon, pot = qdlib.call("dypol", *[qdlib.F] * 3)
            expected = dipole(coefficients(date))
            require_close(colat, expected[0], 2e-4, "wrong colatitude of the dipole", date=date, **info)
            require_close((lon - expected[1] + 180) % 360 - 180, 0, 2e-3, "wrong longitude of the dipole", date=date, **info)
            require_close(pot, expected[2], 2e-6 * expected[2], "wrong potential at the pole of the dipole", date=date, **info)
        elif kind == "geodetic":
            res = qdlib.call("feldg", 1, *op[1:], *[qdlib.F] * 4)
            check_field(coefficients(date), op[1:], res[:3], res[3], 1.0, dict(info, date=date))
        else:
            coef = coefficients(date)
            r = math.sqrt(sum(v * v for v in op[1:]))
            pot, vec = geomag.evaluate(coef, op[1:])
            size = spread(coef, r)
            ctx.label(kind)
            if kind == "cartesian":
                res = qdlib.call("feldg", 2, *op[1:], *[qdlib.F] * 4)
                require_close(res[:3], vec * GAUSS, 1.5e-6 * size * GAUSS, "wrong cartesian field", date=date, **info)
                require_close(res[3], np.linalg.norm(vec) * GAUSS, 1.5e-6 * size * GAUSS, "wrong size of the field", date=date, **info)
            else:
                res = qdlib.call("feldg", 3, *op[1:], *[qdlib.F] * 4)
                require_close(res[3], pot * UNIT, 1.5e-6 * size * r * UNIT, "wrong potential", date=date, **info)


def check_field(coef, pos, got, got_size, scale, info):
    expected, size, _ = local_field(coef, *pos)
    r = np.linalg.norm(geomag.geodetic_to_cart(*pos)) / geomag.RE
    tol = 2e-6 * spread(coef, r) * GAUSS * scale
    require_close(got, np.array(expected) * scale, tol, "wrong field", **info)
    require_close(got_size, size * scale, tol, "wrong size of the field", **info)


@check(st.tuples(LATS, LONS, HEIGHTS.filter(lambda h: h >= -1000)), quick=6000, thorough=400000,
       rule="geodetic positions converted to the geocentric coordinates and back; always non-trivial")
def convert(case, ctx):
    """CONVRT and GD2CART equal the exact conversion on the ellipsoid and are mutually inverse"""
    lat, lon, alt = case
    ctx.nontrivial()
    x, y, z = (float(v) for v in geomag.geodetic_to_cart(lat, lon, alt))
    rho, r = math.hypot(x, y), math.sqrt(x * x + y * y + z * z)
    gclat = math.degrees(math.atan2(z, rho))
    tol = 4e-7 * (r + 1e4)
    tolx = 2 * tol
    anglex = math.degrees(tolx / r) + 1.5e-5
    got = qdlib.call("convrt", 1, lat, alt, qdlib.F, qdlib.F)
    require_close(got[0], rho, tolx, "wrong distance from the axis", case=case)
    require_close(got[1], z, tol, "wrong distance from the equatorial plane", case=case)
    got2 = qdlib.call("convrt", 2, lat, alt, qdlib.F, qdlib.F)
    require_close(got2[0], gclat, anglex, "wrong geocentric latitude", case=case)
    require_close(got2[1], r, tol, "wrong geocentric distance", case=case)
    got3 = qdlib.call("gd2cart", lat, lon, alt, qdlib.F, qdlib.F, qdlib.F)
    require_close(got3, [x, y, z], tolx * 1.5, "wrong cartesian coordinates", case=case)
    # inverse conversions of the exact position
    back = qdlib.call("convrt", 3, qdlib.F, qdlib.F, rho, z)
    require_close(back[1], alt, 4 * tol, "wrong height from the cylindrical coordinates", case=case)
    require_close(back[0], lat, anglex + 4e-5, "wrong latitude from the cylindrical coordinates", case=case)
    back = qdlib.call("convrt", 4, qdlib.F, qdlib.F, gclat, r)
    require_close(back[1], alt, 4 * tol, "wrong height from the spherical coordinates", case=case)
    require_close(back[0], lat, 4e-5, "wrong latitude from the spherical coordinates", case=case)


def apex_tolerance(a):
    """relative tolerance of the apex radius: the library follows the line by coarse steps in single precision"""
    steps = [(1.0, 3e-5), (1.2, 3e-5), (1.5, 1e-4), (2.0, 1e-3), (3.0, 4e-3), (5.0, 8e-3), (20.0, 1.5e-2), (60.0, 3e-2)]
    return float(np.interp(a, [s[0] for s in steps], [s[1] for s in steps]))


@check(st.tuples(DATES, LATS, LONS, st.one_of(st.sampled_from([0.0, 110.0, 400.0, 2000.0]), gen.finite(0, 20000).map(f32))), quick=1000, thorough=60000,
       rule="apex coordinates of positions compared with the field line traced in double precision; non-trivial if the line closes within 40 radii")
def tracing(case, ctx):
    """APEX finds the highest point of the field line of the IGRF"""
    date, lat, lon, alt = case
    coef = coefficients(date)
    res = qdlib.call("apex", date, lat, lon, alt, *[qdlib.F] * 8)
    a, alat, alon = res[:3]
    try:
        ref = geomag.apex(coef, lat, lon, alt)
    except geomag.Lost:
        require(a > 15, "a line going far away has a near apex", case=case, got=res[:3])
        return
    if ref[0] > 40:
        require(a > 15, "a line going far away has a near apex", case=case, got=res[:3])
        return
    ctx.nontrivial()
    rel = apex_tolerance(ref[0])
    require_close(a, ref[0], rel * ref[0], "wrong apex radius", case=case)
    # the latitude is that of the radius
    low, high = max(1.0, a * (1 - 4e-7)), a * (1 + 4e-7)
    lat_low, lat_high = (math.degrees(math.acos(math.sqrt(1 / v))) for v in (low, high))
    require(lat_low - 1e-4 <= abs(alat) <= lat_high + 1e-4, "the apex latitude does not match the apex radius", case=case, got=res[:3], expected=(lat_low, lat_high))
    start = local_field(coef, lat, lon, alt)
    if abs(start[0][2]) > 1e-5 * start[1]:
        require(alat * ref[1] >= 0 or abs(alat) < 1e-3, "wrong hemisphere of the apex latitude", case=case, got=res[:3], expected=ref)
    # east of the apex is the direction of the line there only in the dipole
    lon_tol = 4e-3 + 8 * rel
    require_close((alon - ref[2] + 180) % 360 - 180, 0, lon_tol, "wrong apex longitude", case=case, got_all=res[:3], reference=ref)
    ctx.label("apex %s" % ("below 1.5" if ref[0] < 1.5 else "below 3" if ref[0] < 3 else "below 10" if ref[0] < 10 else "far"))


FILES = [(data.APEX_2015, 1995, 2015), (data.APEX_2020, 1980, 2020), (data.APEX_2025, 1980, 2025), (data.APEX_2030, 1980, 2030)]


def unit(lat, lon):
    la, lo = math.radians(lat), math.radians(lon)
    return np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])


def quasi_dipole(coef, lat, lon, alt):
    """quasi-dipole latitude and longitude by the definition (Richmond, 1995)"""
    a, alat, alon = geomag.apex(coef, lat, lon, alt)
    height = max(geomag.REQ * (a - 1), alt)
    return math.copysign(math.degrees(math.acos(min(1.0, math.sqrt((apex.RE + alt) / (apex.RE + height))))), alat), alon


@check(st.tuples(st.integers(0, 3), st.lists(st.tuples(gen.finite(0, 1), LATS, LONS, gen.finite(0, 3000).map(f32)), min_size=1, max_size=20)), quick=120, thorough=6000,
       rule="quasi-dipole coordinates by the shipped files compared with the traced field lines; non-trivial for more than one position")
def files(case, ctx):
    """the shipped coefficients are those of the quasi-dipole coordinates of the IGRF"""
    number, rows = case
    path, first, last = FILES[number]
    if len(rows) > 1:
        ctx.nontrivial()
    errors = []
    for part, lat, lon, alt in rows:
        date = f32(first + part * (last - first))
        try:
            expected = quasi_dipole(coefficients(date), lat, lon, alt)
        except geomag.Lost:
            continue
        qdlib.load(path, date)
        res = qdlib.g2q(lat, lon, alt, 0)
        error = math.degrees(np.linalg.norm(unit(*expected) - unit(res["qlat"], res["qlon"])))
        errors.append(error)
        require(error <= 1.5, "the coefficients do not give the quasi-dipole coordinates", file=os.path.basename(path), date=date, position=(lat, lon, alt),
                got=(res["qlat"], res["qlon"]), expected=expected, error=error)
    if len(errors) > 10:
        require(np.median(errors) <= 0.4, "the coefficients do not give the quasi-dipole coordinates", file=os.path.basename(path), errors=errors)


@st.composite
def generations(draw):
    nmax = draw(st.integers(1, 3))
    epochs = sorted(draw(st.lists(gen.finite(1900, 2030).map(f32), min_size=1, max_size=2, unique=True)))
    return {"nmax": nmax, "mmax": draw(st.integers(1, nmax + 1)), "lmax": draw(st.integers(0, 2)), "epochs": epochs}


def fit(nmax, mmax, lmax, epoch):
    """coefficients [lmax + 1, terms, 3] of both directions"""
    k = apex.nterm(nmax, mmax)
    res = np.zeros((2, lmax + 1, k, 3))
    # the lowest terms rotate the position to the dipole
    colat, lon, _ = dipole(coefficients(epoch))
    cb, sb = math.cos(math.radians(colat)), math.sin(math.radians(colat))
    cl, sl = math.cos(math.radians(lon)), math.sin(math.radians(lon))
    rotation = np.array([[cb * cl, cb * sl, -sb], [-sl, cl, 0], [sb * cl, sb * sl, cb]])
    first = [nmax + 1, nmax + 2, 1]         # harmonics of x, y and z
    norm = np.array([math.sqrt(4 / 3), math.sqrt(4 / 3), math.sqrt(2 / 3)])
    res[0, 0, first] = (rotation * norm).T
    res[1, 0, first] = (rotation.T * norm).T
    if not lmax:
        return res
    rows = [[], []]
    values = [[], []]
    weights = []
    nlon, nlat, nalt = 4 * mmax, 4 * nmax, 4 * lmax
    for i in range(nlat):
        lat = f32(180.0 / nlat * (i + 0.5) - 90)
        for j in range(nlon):
            lon = f32(360.0 / nlon * j - 180)
            pos = unit(lat, lon)
            here = apex.harmonics(nmax, mmax, lat, lon)[0]
            for h in range(1, nalt + 1):
                rho = h / nalt
                alt = apex.RE / rho - apex.RE
                a, alat, alon = qdlib.call("apex", epoch, lat, lon, alt, *[qdlib.F] * 8)[:3]
                cosq = min(1.0, math.sqrt((apex.RE + alt) / (apex.RE + apex.REQ * (a - 1))))
                qlat = math.copysign(math.degrees(math.acos(cosq)), alat)
                qpos = unit(qlat, alon)
                there = apex.harmonics(nmax, mmax, qlat, alon)[0]
                powers = rho ** np.arange(1, lmax + 1)
                for n, (har, src, dst, rot) in enumerate(((here, pos, qpos, rotation), (there, qpos, pos, rotation.T))):
                    rows[n].append(np.outer(powers, har).ravel())
                    values[n].append(dst - rot @ src)
                weights.append(math.sqrt(math.cos(math.radians(lat))))
    weights = np.array(weights)[:, None]
    for n in range(2):
        sol = np.linalg.lstsq(np.array(rows[n]) * weights, np.array(values[n]) * weights, rcond=None)[0]
        res[n, 1:] = sol.reshape((lmax, k, 3))
    return res


@check(generations(), quick=150, thorough=6000,
       rule="files generated by MAKEAPXSH for small degrees compared with the least squares fit of the apex coordinates; non-trivial for coefficients varying with the height")
def generation(case, ctx):
    """MAKEAPXSH fits the apex coordinates by the expansion, in both directions, and writes a file which loads"""
    nmax, mmax, lmax, epochs = case["nmax"], case["mmax"], case["lmax"], case["epochs"]
    path = os.path.join(SCRATCH, "gen.txt")
    if len(path) > 128:
        raise HarnessError("the scratch directory has a too long name")
    grid = np.zeros(31, dtype="float32")
    grid[:len(epochs)] = epochs
    if os.path.exists(path):
        os.remove(path)
    qdlib.call("makeapxsh", (path, 128), grid, len(epochs), lmax, mmax, nmax)
    exp = apex.load.__wrapped__(path)
    mmax = min(mmax, nmax)
    require((exp.nmax, exp.mmax, exp.lmax) == (nmax, mmax, lmax), "wrong dimensions of the file", case=case, got=(exp.nmax, exp.mmax, exp.lmax))
    require(np.array_equal(np.asarray(exp.epochs, dtype="float32"), np.asarray(epochs, dtype="float32")), "wrong epochs of the file", case=case, got=list(exp.epochs))
    if lmax:
        ctx.nontrivial()
    for i, epoch in enumerate(epochs):
        expected = fit(nmax, mmax, lmax, epoch)
        for j, name in enumerate(("quasi-dipole", "geodetic")):
            got = (exp.coeff if j == 0 else exp.inverse)[i]
            tol = 1e-4
            require_close(got, expected[j], tol, "wrong coefficients of the %s coordinates" % name, case=case, epoch=epoch)
