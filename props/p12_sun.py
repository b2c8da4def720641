"""P12 position of the Sun"""
import math
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from vh import gen, sun
from vh.core import check, require, require_shape, require_close, require_same, angle_diff

START, END = 3653.0, 40542.0        # 2010-01-01, 2111-01-01
AU = 149597871.0
sunpos, original = em.sunpos, em.sunpos_original
TIMES = st.one_of(gen.finite(START, END), st.integers(int(START), int(END)).map(float),
                  st.builds(lambda d, s: d + s / 86400.0, st.integers(int(START), int(END) - 1), st.integers(0, 86399)))


def season(year, quarter, offset):
    """time at (or offset from) an equinox or a solstice: the right ascension of 0, 90, 180 or 270 degrees"""
    time = 3653.0 + 365.2425 * (year - 2010) + 79.0 + 91.3 * quarter
    for _ in range(6):
        time -= angle_diff(float(np.degrees(sun.grena5(time, 0.0)[1])), 90.0 * quarter) / 0.9856
    return min(max(time + offset, START), END)


TIMES = st.one_of(TIMES, TIMES, TIMES, st.builds(season, st.integers(2010, 2110), st.integers(0, 3), st.sampled_from([0.0, 1e-9, -1e-9, 1e-7, -1e-7, 1e-6, -1e-6, 1e-5, -1e-5, 1e-4, -1e-4, 1e-2, -1e-2])))
DTT = st.one_of(st.just(0.0), gen.finite(-100, 300))
RADII = st.one_of(st.sampled_from([0.0, 6371.2, 6371.2, 6871.2]), gen.finite(1, 60000))


@check(st.tuples(TIMES, DTT), quick=10000, thorough=500000,
       rule="times 2010-2111 with offsets of the terrestrial time; truncated VSOP87 theory within 0.004 degrees and the published algorithm in extended precision; always non-trivial")
def ephemeris(case, ctx):
    time, dtt = case
    ctx.nontrivial("with dtt" if dtt else "UT")
    decl, rasc, hang, _, _ = [float(v) for v in sunpos(time, 0.0, 0.0, 0.0, dtt)]
    dec, ra, gha, _ = sun.meeus(time, dtt)
    for name, got, exp, tol in [("declination", decl, dec, 0.004), ("right ascension", rasc, ra, 0.004), ("hour angle", hang, gha, 0.004)]:
        require_close(angle_diff(got, exp), 0.0, tol, "%s differs from the true position" % name, time=time, dtt=dtt, value=got, true=exp)
    dec, ra, gha = [float(np.degrees(v)) for v in sun.grena5(time, dtt)]
    for name, got, exp, tol in [("declination", decl, dec, 1e-9), ("right ascension", rasc, ra, 1e-9), ("hour angle", hang, gha % 360.0, 1e-7)]:
        require_close(angle_diff(got, exp), 0.0, tol, "%s differs from the algorithm" % name, time=time, dtt=dtt)
    require(0.0 <= rasc <= 360.0 and abs(decl) < 23.5 and abs(hang) <= 180 + 1e-8, "out of range", values=[decl, rasc, hang], time=time)
    # the obliquity bounds the declination, the right ascension follows the time
    later = [float(v) for v in sunpos(time + 1.0, 0.0, 0.0, 0.0, dtt)]
    require(0.85 < angle_diff(later[1], rasc) < 1.2, "the right ascension does not grow by a degree a day", time=time, values=[rasc, later[1]])


@st.composite
def places(draw):
    """time and position, some at or near of the (anti-)solar point"""
    time, dtt = draw(TIMES), draw(st.sampled_from([0.0, 0.0, 67.0, -33.5]))
    kind = draw(st.integers(0, 4))
    lat, lon = draw(gen.latitudes()), draw(gen.longitudes())
    offset = None
    if kind < 2:
        offset = [kind, draw(st.sampled_from([0.0, 1e-14, 1e-12, 1e-10, 1e-8, 1e-6, 1e-4, 1e-2])), draw(gen.finite(-180, 180))]
    return {"time": time, "dtt": dtt, "lat": lat, "lon": lon, "rad": draw(RADII), "near": offset}


def place(case):
    lat, lon = case["lat"], case["lon"]
    if case["near"]:
        anti, dist, angle = case["near"]
        decl, _, hang, _, _ = [float(v) for v in sunpos(case["time"], 0.0, 0.0, 0.0, case["dtt"])]
        lat, lon = (-decl, 180.0 - hang) if anti else (decl, -hang)
        lat += dist * math.cos(math.radians(angle))
        lon += dist * math.sin(math.radians(angle))
    return lat, lon


EPS = 2.3e-16


@check(places(), quick=10000, thorough=500000,
       rule="times and positions including poles, sub- and anti-solar points and their vicinity, radius 0 to 60000 km; non-trivial when the Sun is neither in the zenith nor the nadir")
def horizontal_coordinates(case, ctx):
    time, rad, dtt = case["time"], case["rad"], case["dtt"]
    lat, lon = place(case)
    out = sunpos(time, lat, lon, rad, dtt)
    for v in out:
        require_shape(v, ())
    require(np.all(np.isfinite(out)), "result is not a finite number", got=out, position=[lat, lon, rad], time=time)
    decl, rasc, hang, azimuth, zenith = [float(v) for v in out]
    # declination and right ascension do not depend on the position
    d0, r0, h0, _, _ = [float(v) for v in sunpos(time, 0.0, 0.0, 0.0, dtt)]
    require_close([decl, rasc], [d0, r0], 1e-13 * 360, "depends on the position", case=case)
    require_close(angle_diff(hang, h0 + lon), 0.0, 1e-7, "the hour angle is not local", case=case)
    require(abs(hang) <= 180 + 1e-8 and abs(azimuth) <= 180 + 1e-8, "angle out of range", case=case, hang=hang, azimuth=azimuth)
    require(0 <= zenith <= 180 + 1e-3 + math.degrees(rad / AU), "zenith out of range", case=case, zenith=zenith)
    # direction of the Sun in the local frame
    d, h, p = (np.radians(np.longdouble(v)) for v in (decl, hang, lat))
    east = -np.cos(d) * np.sin(h)
    north = np.cos(p) * np.sin(d) - np.sin(p) * np.cos(d) * np.cos(h)
    up = np.sin(p) * np.sin(d) + np.cos(p) * np.cos(d) * np.cos(h)
    horizontal = float(np.hypot(east, north))
    exact = float(np.arctan2(horizontal, up))
    # cosines of the latitude come from the sine
    err = 8 * EPS * (1 + abs(float(h))) + 2 * EPS / max(abs(float(np.cos(p))), 1e-8)
    tol = err / max(horizontal, math.sqrt(err)) + err
    ratio = rad / AU
    topocentric = float(np.arctan2(horizontal, up - ratio))
    require_close(zenith, math.degrees(topocentric), math.degrees(tol + 2 * ratio * ratio), "wrong zenith", case=case, lat=lat, lon=lon, geocentric=math.degrees(exact))
    if horizontal > 1e-6:
        ctx.nontrivial("poles" if abs(lat) == 90 else "near the zenith or nadir" if horizontal < 1e-2 else "general")
        require_close(angle_diff(azimuth, math.degrees(np.arctan2(east, north))), 0.0, math.degrees(tol), "wrong azimuth", case=case, lat=lat, lon=lon)
    else:
        ctx.label("zenith or nadir")


@check(st.tuples(places(), gen.finite(0, 2), gen.finite(-60, 60)), quick=8000, thorough=300000,
       rule="times from 2000-03-01, positions, pressures and temperatures; non-trivial with refraction")
def original_algorithm(case, ctx):
    case, pres, temp = case
    time, rad, dtt = case["time"], case["rad"], case["dtt"]
    if case["lat"] > 0:
        time = 60.0 + (time - START) * (END - 60.0) / (END - START)
    lat, lon = place(dict(case, time=time))
    new = [float(v) for v in sunpos(time, lat, lon, rad, dtt)]
    old = [float(v) for v in original(time, lat, lon, rad, dtt, 0.0, temp)]
    require(np.all(np.isfinite(old)), "result is not a finite number", got=old, position=[lat, lon, rad], time=time)
    for name, value in (("new", new), ("original", old)):
        require(0.0 <= value[1] <= 360.0 and abs(value[0]) < 23.5 and abs(value[2]) <= 180 + 1e-7 and abs(value[3]) <= 180 + 1e-7, "out of range", algorithm=name, values=value, case=case)
    alt = math.radians(90 - new[4])
    horizontal = math.cos(alt)
    near = 3e-6 if horizontal < 1e-4 else 1e-9 / horizontal
    for i, (name, tol) in enumerate([("declination", 1e-8), ("right ascension", 1e-8), ("hour angle", 1e-7), ("azimuth", None), ("zenith", 2e-7 + near)]):
        if name == "azimuth":
            if horizontal < 1e-3:
                continue
            tol = 2e-7 / horizontal
            if abs(lat) > 89.9:
                tol += 1e-6
        require_close(angle_diff(old[i], new[i]), 0.0, tol, "%s differs from the original algorithm" % name, case=case, time=time, value=new[i], original=old[i])
    # the refraction lifts the Sun over the horizon only
    refr = [float(v) for v in original(time, lat, lon, rad, dtt, pres, temp)]
    require_same(refr[:4], old[:4], "the refraction changed other values than the zenith", case=case)
    ep = math.radians(90 - old[4])
    expected = 0.0
    if ep > 0 and pres > 0:
        ctx.nontrivial()
        expected = math.degrees(0.08422 * pres / ((273 + temp) * math.tan(ep + 0.003138 / (ep + 0.08919))))
    if abs(ep) > 1e-8:
        require_close(refr[4], old[4] - expected, 1e-9, "wrong refraction", case=case, pres=pres, temp=temp)


@check(st.tuples(st.one_of(gen.finite(-7e5, 7e5), st.integers(-150000, 150000).map(float)), gen.latitudes(), gen.longitudes(), RADII, DTT),
       quick=5000, thorough=300000, rule="any time between years 100 and 3900, position and offset; non-trivial outside of 2010-2110")
def finite_values(case, ctx):
    if not START <= case[0] <= END:
        ctx.nontrivial()
    out = sunpos(*case)
    require(np.all(np.isfinite(out)), "result is not a finite number", got=out, case=case)
    decl, rasc, hang, azimuth, zenith = [float(v) for v in out]
    require(abs(decl) < 24 and 0 <= rasc <= 360 and abs(hang) <= 180 + 1e-8 and abs(azimuth) <= 180 + 1e-8 and 0 <= zenith <= 180.1,
            "value out of range", got=out, case=case)
    # continuous in time (away from the zenith) also across the days
    step = [float(v) for v in sunpos(case[0] + 1e-5, *case[1:])]
    require_close(step[0], decl, 1e-5, "declination not continuous", case=case)
    require_close(angle_diff(step[2], hang), 3.6e-3, 3e-5, "hour angle not continuous", case=case)
    require_close(step[4], zenith, 4e-3, "zenith not continuous", case=case)


@check(st.tuples(TIMES, gen.latitudes(), gen.longitudes()), quick=1500, thorough=30000,
       rule="default arguments; always non-trivial")
def defaults(case, ctx):
    ctx.nontrivial()
    require_same(sunpos(*case), sunpos(*case, 6371.2, 0), "wrong defaults", case=case)
    require_same(original(*case), original(*case, 6371.2, 0, 1.0, 20.0), "wrong defaults of the original algorithm", case=case)
