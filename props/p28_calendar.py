"""P28 the calendar, the Sun and the magnetic local time subroutines of the qdipole library"""
import math
import numpy as np
from hypothesis import strategies as st
from vh import gen, qdlib, sun
from vh.core import check, require, require_close
from vh.qdlib import Out

INT, DBL = Out("i"), Out("d")
J2000 = 2451545             # Julian day number of 2000-01-01 (noon)


def f32(value):
    return float(np.float32(value))


def day_number(year, month, day):
    """days since 2000-01-01 of a date of the civil calendar (year 0 is 1 BC; Julian calendar before 1582-10-15)"""
    gregorian = (year, month, day) >= (1582, 10, 15)
    a = (14 - month) // 12
    y, m = year + 4800 - a, month + 12 * a - 3
    n = day + (153 * m + 2) // 5 + 365 * y + y // 4
    return n - J2000 - (y // 100 - y // 400 + 32045 if gregorian else 32083)


def month_length(year, month):
    if month == 2:
        leap = year % 4 == 0 and (year < 1583 or year % 100 or year % 400 == 0)
        return 29 if leap else 28
    return 30 if month in (4, 6, 9, 11) else 31


YEARS = st.one_of(st.integers(1940, 2110), st.integers(1580, 2500), st.integers(-4711, 9999), st.sampled_from([1900, 1949, 1950, 2000, 2099, 2100, 1600, 1700, 4, 1, -1]))


@st.composite
def dates(draw):
    year = draw(YEARS)
    if year == 0:
        year = 1
    month = draw(st.integers(1, 12))
    astronomical = year if year > 0 else year + 1
    day = draw(st.one_of(st.integers(1, 28), st.sampled_from([1, 28, 29, 30, 31])))
    day = min(day, month_length(astronomical, month))
    if (year, month) == (1582, 10) and 4 < day < 15:
        day = 15
    return [year, month, day, draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.one_of(st.sampled_from([0.0, 30.0, 59.999]), gen.finite(0, 59.9999)))]


@check(dates(), quick=8000, thorough=600000,
       rule="dates of the Julian and Gregorian calendar converted to days and back; non-trivial for any time of day")
def date_to_days(case, ctx):
    """TMJD and TJUDA give the number of days of the date, and the date back"""
    year, month, day, hour, minute, sec = case
    if hour or minute or sec:
        ctx.nontrivial()
    astronomical = year if year > 0 else year + 1
    number = day_number(astronomical, month, day)
    part = (hour + (minute + sec / 60) / 60) / 24
    got = qdlib.call("tmjd", year, month, day, hour, minute, np.float64(sec), DBL, 1)[0]
    require_close(got, number + part, 4e-16 * (abs(number) + 10), "wrong number of days", case=case)
    jd = qdlib.call("tjuda", year, month, day, hour + minute / 60, DBL, 1)[0]
    require_close(jd, number + J2000 - 0.5 + (hour + minute / 60) / 24, 1e-7, "wrong Julian date", case=case)
    back = qdlib.call("tjuda", INT, INT, INT, Out("f"), np.float64(number + J2000 - 0.5 + part), 0)
    require(tuple(back[:3]) == (year, month, day), "wrong date of the Julian date", case=case, got=back)
    require_close(back[3], part * 24, 1e-5, "wrong time of the Julian date", case=case)
    check_fields(number + part, case)


def check_fields(mjd, case):
    year, month, day, hour, minute, sec = qdlib.call("tmjd", INT, INT, INT, INT, INT, DBL, np.float64(mjd), -1)
    info = {"case": case, "mjd": mjd, "got": (year, month, day, hour, minute, sec)}
    digits = 9 - len(str(int(abs(mjd)))) if abs(mjd) >= 1 else 9
    tol = 0.6 * 10.0 ** -digits + 86400 * 4e-16 * (abs(mjd) + 20000)
    require(year != 0 and 1 <= month <= 12 and 0 <= hour <= 23 and 0 <= minute <= 59 and -tol <= sec <= 60 + tol, "field out of range", **info)
    astronomical = year if year > 0 else year + 1
    require(1 <= day <= month_length(astronomical, month), "day out of range", **info)
    number = day_number(astronomical, month, day)
    require_close((number - math.floor(mjd)) * 86400.0 + hour * 3600 + minute * 60 + sec, (mjd - math.floor(mjd)) * 86400, tol, "the date is another time", **info)


@st.composite
def days(draw):
    day = draw(st.one_of(st.integers(-18500, -18000), st.integers(36300, 36800), st.integers(-20000, 40000), st.integers(-150000, 150000), st.integers(-2451500, 2900000), gen.finite(-20000, 40000), gen.finite(-2e6, 2e6)))
    day = float(day)
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        day = math.nextafter(day, draw(st.sampled_from([-math.inf, math.inf])))
    return day


@check(days(), quick=8000, thorough=600000, rule="numbers of days, at the midnight, just before and after it and at any time; non-trivial for a time of day")
def days_to_date(case, ctx):
    """TMJD gives the date of the number of days"""
    if case != math.floor(case):
        ctx.nontrivial()
    check_fields(case, case)


def almanac(year, day, ut):
    """subsolar latitude and longitude by the low-precision formulas of the Astronomical Almanac; ut in seconds"""
    number = day_number(year, 1, 1) + day - 1 + ut / 86400 - 0.5        # days since J2000.0
    lon = 280.460 + 0.9856474 * number
    g = math.radians(357.528 + 0.9856003 * number)
    lam = math.radians(lon + 1.915 * math.sin(g) + 0.020 * math.sin(2 * g))
    eps = math.radians(23.439 - 0.0000004 * number)
    ra = math.degrees(math.atan2(math.cos(eps) * math.sin(lam), math.cos(lam)))
    equation = (lon - ra + 180) % 360 - 180
    return math.degrees(math.asin(math.sin(eps) * math.sin(lam))), 180 - ut / 240 - equation


@st.composite
def instants(draw):
    year = draw(st.one_of(st.integers(1950, 2050), st.integers(1601, 2100)))
    if draw(st.booleans()):
        return [year, draw(st.integers(1, 366)), draw(st.integers(0, 23)), draw(st.integers(0, 59)), f32(draw(gen.finite(0, 60)))]
    return [year, draw(st.integers(-400, 800)), draw(st.integers(-60, 120)), draw(st.integers(-300, 3000)), f32(draw(gen.finite(-5e3, 1e5)))]


@check(instants(), quick=8000, thorough=600000, rule="instants given by the year, the day, hour, minute and second which need not be normalised; non-trivial if they are not")
def subsolar(case, ctx):
    """SUBSOL equals the formulas of the almanac and follows the Sun"""
    year, day, hour, minute, sec = case
    if not (1 <= day <= 366 and 0 <= hour < 24 and 0 <= minute < 60 and 0 <= sec < 60):
        ctx.nontrivial()
    lat, lon = qdlib.call("subsol", year, day, hour, minute, sec, qdlib.F, qdlib.F)
    ut = hour * 3600.0 + minute * 60.0 + sec
    expected = almanac(year, day, ut)
    # single precision of angles of several hundred degrees
    tol = 3e-7 * (400 + abs(day) + abs(ut) / 240)
    # the formulas themselves are known with the digits of the almanac
    require_close(lat, expected[0], tol + 6e-3, "wrong latitude", case=case)
    require_close((lon - expected[1] + 180) % 360 - 180, 0, 2 * tol + 4e-3, "wrong longitude", case=case)
    whole = int(ut // 86400)
    rest = ut - whole * 86400.0
    same = qdlib.call("subsol", year, day + whole, int(rest // 3600), int(rest % 3600 // 60), f32(rest % 60), qdlib.F, qdlib.F)
    require_close(lat, same[0], tol + 1e-4, "the latitude of the normalised time differs", case=case)
    require_close((lon - same[1] + 180) % 360 - 180, 0, 2 * tol + 2e-4, "the longitude of the normalised time differs", case=case)
    require(-180 <= lon <= 180, "longitude out of range", case=case, got=lon)
    if 1950 <= year < 2050:
        dec, _, gha, _ = sun.meeus(day_number(year, 1, 1) + day - 1 + ut / 86400, 65.0)
        require_close(lat, dec, 0.01, "wrong latitude of the Sun", case=case)
        require_close((lon + gha + 180) % 360 - 180, 0, 0.025, "wrong longitude of the Sun", case=case)


SUN_LAT = gen.finite(-23.5, 23.5).map(f32)
LON = gen.longitudes(wrap=False).map(f32)
COLAT = st.one_of(gen.finite(9, 12).map(f32), gen.finite(5, 175).map(f32))


def dipole_longitude(lat, lon, colat, pole_lon):
    la, lo = math.radians(lat), math.radians(lon - pole_lon)
    c = math.radians(colat)
    v = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    x = v @ [math.cos(c), 0, -math.sin(c)]
    return math.degrees(math.atan2(v[1], x)), math.hypot(v[1], x)


@check(st.tuples(st.one_of(SUN_LAT, gen.latitudes().map(f32)), LON, COLAT, LON, LON, gen.finite(0, 24).map(f32)), quick=8000, thorough=600000,
       rule="positions of the Sun and of the pole, magnetic longitudes and local times; always non-trivial")
def local_time(case, ctx):
    """SOLGMLON is the dipole longitude; MAGLOCTM and MLT2ALON are the mutually inverse local time"""
    lat, lon, colat, pole_lon, alon, time = case
    ctx.nontrivial()
    got = qdlib.call("solgmlon", lat, lon, colat, pole_lon, qdlib.F)[0]
    expected, size = dipole_longitude(lat, lon, colat, pole_lon)
    # cosines are calculated from sines
    err = 4e-7 / max(math.cos(math.radians(lat)), 3e-4) + 4e-7 / math.sin(math.radians(colat)) + 1e-6
    tol = math.degrees(err / max(size, 1e-9)) + 4e-5
    require(-180.0001 <= got <= 180.0001, "longitude out of range", case=case, got=got)
    if tol > 20:
        return
    require_close((got - expected + 180) % 360 - 180, 0, tol, "wrong dipole longitude", case=case)
    mlt = qdlib.call("magloctm", alon, lat, lon, colat, pole_lon, qdlib.F)[0]
    require(0 <= mlt <= 24, "magnetic local time out of range", case=case, got=mlt)
    require_close((mlt - (alon - expected) / 15) % 24 - 12, 0, tol / 15 + 1e-5, "wrong magnetic local time", case=case, got_time=mlt)
    back = qdlib.call("mlt2alon", mlt, lat, lon, colat, pole_lon, qdlib.F)[0]
    require(-180 <= back <= 180, "magnetic longitude out of range", case=case, got=back)
    require_close((back - alon + 180) % 360 - 180, 0, 1e-4, "MLT2ALON does not invert MAGLOCTM", case=case, time=mlt)
    there = qdlib.call("mlt2alon", time, lat, lon, colat, pole_lon, qdlib.F)[0]
    require_close((there - expected - 15 * time) % 360 - 180, 0, tol + 1e-4, "wrong magnetic longitude of the local time", case=case, got_longitude=there)
