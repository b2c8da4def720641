"""P13 sub-solar point, magnetic local and universal time"""
import math
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from vh import gen, ref, sun, igrf14
from vh.core import check, require, require_shape, require_close, require_same, angle_diff

SUBSOL = (-145731.0, 36890.0)       # 1601 to 2100
MLT = (-36525.0, 36890.0)           # 1900 to 2100
SEC = 1 / 86400.0


def _times(lo, hi):
    whole = st.integers(int(lo) + 1, int(hi) - 1)
    years = st.integers(0, int((hi - lo) / 365.2425)).map(lambda k: float(math.ceil(lo) + round(k * 365.2425)))
    return st.one_of(gen.finite(lo, hi, exclude_max=True), whole.map(float), whole.map(lambda d: d - 1e-9), whole.map(lambda d: d - 1e-5),
                     st.builds(lambda d, s: d + s * SEC, whole, st.sampled_from([1, 59, 60, 3599, 3600, 43200, 86340, 86399, 59.9999, 86399.9999])),
                     st.builds(lambda y, d: min(max(y + d, lo), hi - 1e-6), years, st.sampled_from([0.0, -1.0, 1.0, 0.5, -0.5, -2.0, 1e-8])),
                     st.sampled_from([0.0, -1.0, -1e-9, -0.5, 59.0, 60.0, 366.0, 365.0, lo, hi - 1, hi - 1e-7]))


@check(st.lists(_times(*SUBSOL), min_size=1, max_size=4), quick=4000, thorough=500000,
       rule="times 1601-2100, whole days, seconds and year bounds included; true position of the Sun within 0.03 degrees; non-trivial inside of a day")
def subsolar_point(case, ctx):
    times = np.array(case)
    lat, lon = em.eval_subsol(times)
    require_shape(lat, times.shape)
    require_shape(lon, times.shape)
    for t, la, lo in zip(case, lat, lon):
        if t != math.floor(t):
            ctx.nontrivial("before 2000" if t < 0 else "after 2000")
        dec, _, gha, _ = sun.meeus(t, 0)
        require_close(la, dec, 0.03, "the Sun is not in the zenith (latitude)", time=t)
        require_close(angle_diff(lo, -gha), 0.0, 0.03, "the Sun is not in the zenith (longitude)", time=t, value=lo)
        require(-180 <= lo <= 180, "longitude out of range", time=t, value=lo)
        one = em.eval_subsol(t)
        require_same(one, (la, lo), "differs from the single evaluation", time=t)


def dipole_longitude(lat, lon, lat_pole, lon_pole):
    """longitude around the pole from the meridian opposite to the geographic north pole"""
    p = np.radians(np.asarray([lat, lon, lat_pole, lon_pole], dtype=ref.LD))
    la, dl = p[0], p[1] - p[3]
    x = np.cos(la) * np.cos(dl) * np.sin(p[2]) - np.sin(la) * np.cos(p[2])
    y = np.cos(la) * np.sin(dl)
    return float(np.degrees(np.arctan2(y, x))), float(np.hypot(x, y))


@st.composite
def mlt_cases(draw):
    n = draw(st.integers(1, 5))
    times = [draw(_times(*MLT)) for _ in range(n)]
    kind = draw(st.integers(0, 3))
    if kind == 0:       # slowly growing times
        times = [min(times[0] + k * draw(gen.finite(0, 1.5)), 36889.0) for k in range(n)]
    elif kind == 1:
        times = [times[0]] * n
    return {"times": times, "lons": [draw(st.one_of(gen.finite(-180, 180), st.sampled_from([0.0, 180.0, -180.0, 90.0, 359.0, 360.0, -270.0])))
                                     for _ in range(n)]}


@check(mlt_cases(), quick=4000, thorough=500000,
       rule="times 1900-2100 (same, close and distant ones in a batch) and quasi-dipole longitudes; dipole pole of IGRF-14; non-trivial with more than one element")
def magnetic_local_time(case, ctx):
    times, lons = np.array(case["times"]), np.array(case["lons"])
    if len(times) > 1:
        ctx.nontrivial()
    mlt = em.eval_mlt(lons, times)
    require_shape(mlt, times.shape)
    sub = em.eval_subsol(times)
    for t, q, value, la, lo in zip(case["times"], case["lons"], mlt, *sub):
        require(0 <= value <= 24, "magnetic local time out of range", time=t, qdlon=q, value=value)
        year = 2000 + t / 365.25
        pole = igrf14.pole(year)
        for lat, lon, tol in [(la, lo, 2e-4), (sun.meeus(t, 0)[0], -sun.meeus(t, 0)[2], 6e-3)]:
            phi, _ = dipole_longitude(lat, lon, *pole)
            require_close(angle_diff(value, 12 + (q - phi) / 15, 24.0), 0.0, tol, "wrong magnetic local time", time=t, qdlon=q, value=value, batch=case)
        one = float(em.eval_mlt(q, t))
        require_close(angle_diff(value, one, 24.0), 0.0, 1e-4, "differs from the single evaluation", time=t, qdlon=q, batch=case)
        # magnetic universal time of the same pole
        mut = float(em.mjd2000_to_magnetic_universal_time(np.array(t), *pole))
        if t >= -36525:
            require_close(angle_diff(value, mut + q / 15, 24.0), 0.0, 6e-3, "disagrees with the magnetic universal time", time=t, qdlon=q, mut=mut)


POLES = st.one_of(st.tuples(gen.finite(60, 90), gen.finite(-180, 180)), st.tuples(gen.latitudes(), gen.longitudes()),
                  st.sampled_from([(80.08, -72.22), (90.0, 0.0), (78.5, -69.9)]))


@st.composite
def mut_cases(draw):
    return {"times": draw(st.lists(_times(*MLT), min_size=1, max_size=3)), "pole": draw(POLES),
            "sun": draw(st.one_of(st.none(), st.tuples(gen.finite(-23.5, 23.5), gen.longitudes()), st.tuples(gen.latitudes(), gen.longitudes()))),
            "given": draw(st.sampled_from(["both", "both", "lat_sol", "lon_sol"])),
            "scalar": draw(st.booleans())}


@check(mut_cases(), quick=4000, thorough=500000,
       rule="times, poles, own or given sub-solar point; non-trivial when the pole differs from the geographic one")
def magnetic_universal_time(case, ctx):
    times = np.array(case["times"])
    lat_ngp, lon_ngp = case["pole"]
    if case["scalar"]:
        times = times[:1].reshape(())
    kw = {}
    decl, _, hang, _, _ = em.sunpos(times, 0.0, 0.0, 0.0)
    lats, lons = decl, -hang
    if case["sun"] and case["given"] != "both":
        # an incomplete sub-solar point is not used
        ctx.label("incomplete")
        kw = {case["given"]: case["sun"][case["given"] == "lon_sol"]}
        case = dict(case, sun=None)
    elif case["sun"]:
        kw = {"lat_sol": case["sun"][0], "lon_sol": case["sun"][1]}
        lats, lons = (np.full(times.shape, v) for v in case["sun"])
    else:
        for t, la, lo in zip(times.flat, lats.flat, lons.flat):
            dec, _, gha, _ = sun.meeus(t, 0)
            require_close([la, angle_diff(lo, -gha)], [dec, 0.0], 0.03, "wrong sub-solar point", time=t)
    mut = em.mjd2000_to_magnetic_universal_time(times, lat_ngp, lon_ngp, **kw)
    if case["sun"] is None:
        require(np.shape(mut) == times.shape, "wrong shape", case=case, got=np.shape(mut))
    for la, lo, value in zip(lats.flat, lons.flat, np.broadcast_to(mut, times.shape).flat):
        phi, dist = dipole_longitude(la, lo, lat_ngp, lon_ngp)
        if abs(lat_ngp) < 90 and dist > 1e-8:
            ctx.nontrivial("given" if case["sun"] else "own")
        require(0 <= value <= 24, "magnetic universal time out of range", value=value, case=case)
        tol = 1e-13 * (10 + abs(lo) + abs(lon_ngp)) / max(dist, 1e-8)
        if dist > 1e-8:
            require_close(angle_diff(value, 12 - phi / 15, 24.0), 0.0, tol, "wrong magnetic universal time", case=case, sun=[la, lo], value=value)
            # the longitude in the dipole coordinates
            dlon = float(em.convert_to_dipole([la, lo, 1.0], lat_ngp, lon_ngp, em.GEOCENTRIC_SPHERICAL)[1])
            require_close(angle_diff(15 * value, 180 - dlon), 0.0, 100 * tol, "disagrees with the dipole coordinates", case=case, sun=[la, lo], dipole_longitude=dlon)


BAD = [math.nan, math.inf, -math.inf, 1e300, -1e300, 36890.0, 36890.5, 1e7, -1e7, -145732.0, -200000.0, 2.2e9, -2.2e9]


@st.composite
def domain_cases(draw):
    n = draw(st.integers(2, 6))
    return {"times": [draw(st.one_of(_times(*MLT), st.sampled_from(BAD), _times(*SUBSOL))) for _ in range(n)],
            "lons": [draw(st.one_of(gen.finite(-180, 180), st.sampled_from([math.nan, 1e6]))) for _ in range(n)]}


@check(domain_cases(), quick=3000, thorough=200000, isolate=True,
       rule="batches with times and longitudes out of the domain among valid ones; non-trivial when both are present")
def out_of_domain(case, ctx):
    times, lons = np.array(case["times"]), np.array(case["lons"])
    lat, lon = em.eval_subsol(times)
    mlt = em.eval_mlt(lons, times)
    valid = [SUBSOL[0] <= t < SUBSOL[1] for t in case["times"]]
    if any(valid) and not all(valid):
        ctx.nontrivial()
    for i, (t, q) in enumerate(zip(case["times"], case["lons"])):
        if valid[i]:
            require_same((lat[i], lon[i]), em.eval_subsol(t), "disturbed by the other elements", case=case)
            require(np.isfinite(lat[i]) and np.isfinite(lon[i]), "result is not a finite number", time=t)
        else:
            require(np.isnan(lat[i]) and np.isnan(lon[i]), "result of a time out of the domain", time=t, got=[lat[i], lon[i]])
        if MLT[0] <= t < MLT[1] and not np.isnan(q):
            require_close(angle_diff(mlt[i], float(em.eval_mlt(q, t)), 24.0) if abs(q) < 720 else 0.0, 0.0, 1e-4, "disturbed by the other elements", case=case)
            require(np.isfinite(mlt[i]), "result is not a finite number", time=t)
        else:
            require(np.isnan(mlt[i]), "result of a value out of the domain", time=t, qdlon=q, got=mlt[i])
