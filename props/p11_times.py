"""P11 time conversions"""
import datetime as dt
import math
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from eoxmagmod import time_util as tu
from vh import gen, ref
from vh.core import check, require, require_shape, require_close, require_same

EPOCH = dt.date(2000, 1, 1).toordinal()
# first day of the Gregorian year counted by the calendar library, the 400 year
# cycle (146097 days) out of its range; Julian years (4 year cycle) until 1582
JULIAN_1582 = dt.date(1583, 1, 1).toordinal() - 355 - EPOCH     # the year 1582 missed ten days


def start(year):
    """MJD2000 of the first of January"""
    if year > 1582:
        cycles = (year - 8600) // 400 if year > 9000 else 0
        return dt.date(year - 400 * cycles, 1, 1).toordinal() - EPOCH + 146097 * cycles
    count = 1582 - year                     # Julian years back from 1582
    leaps = 1581 // 4 - (year - 1) // 4     # every fourth of them
    return JULIAN_1582 - 365 * count - leaps


def length(year):
    return start(year + 1) - start(year)


# years: the transition year 1582 is irregular and out of the property
YEARS = st.one_of(st.integers(1900, 2100), st.sampled_from([1583, 1584, 1600, 1700, 1800, 1900, 1999, 2000, 2001, 2004, 2096, 2100, 2400, 1581, 1580, 1500, 1000, 400, 4, 1, 0, -1, -4, -100, -400, -4711]),
                  st.integers(1583, 4000), st.integers(-4711, 1581), st.integers(4000, 100000))
PART = st.one_of(gen.finite(0, 1, exclude_max=True), st.sampled_from([0.0, 0.5, 0.25, 0.999999999999, 1e-12, 0.9999999999999999]),
                 st.integers(0, 364).map(lambda k: k / 365.0))


@st.composite
def instants(draw):
    """[year, day of the year and its part] as year and elapsed days"""
    year = draw(YEARS)
    kind = draw(st.integers(0, 3))
    days = length(year)
    if kind == 0:
        return [year, float(draw(st.integers(0, days - 1)))]
    if kind == 1:
        return [year, draw(st.sampled_from([0.0, 1e-9, 0.5, 58.0, 58.5, 59.0, 59.5, 60.0, days - 1.0, days - 0.5, days - 1e-7, days / 2, days / 4]))]
    if kind == 2:
        return [year, math.nextafter(days, 0) if draw(st.booleans()) else days - draw(gen.finite(1e-10, 1e-3))]
    return [year, draw(PART) * days]


SHAPES = st.sampled_from([(), (1,), (3,), (2, 2)])


@check(st.lists(instants(), min_size=4, max_size=4), quick=12000, thorough=1000000,
       rule="instants of Gregorian years 1583..100000 and Julian years -4711..1581, at, next to and between days and year bounds; non-trivial when inside of a year")
def mjd2000_to_years(case, ctx):
    mjd, expected, fraction, year0 = [], [], [], []
    for year, days in case:
        t = float(start(year) + days)
        # the double may round to the next year
        if t >= start(year + 1):
            year, = [year + 1]
        days = ref.LD(t) - start(year)
        mjd.append(t)
        year0.append(year)
        if days != 0:
            ctx.nontrivial("Gregorian" if year > 1582 else "Julian")
        if length(year) == 366:
            ctx.label("leap")
        fraction.append(days / length(year))
        expected.append(year + days / length(year))
    mjd, year0 = np.array(mjd), np.array(year0)
    keep = (year0 != 1582)
    got = em.mjd2000_to_decimal_year(mjd)
    frac = em.mjd2000_to_year_fraction(mjd)
    require_shape(got, mjd.shape, "decimal year")
    require_shape(frac, mjd.shape, "year fraction")
    exp, efrac = np.array(expected, dtype=float), np.array(fraction, dtype=float)
    tol = 2.3e-16 * np.abs(exp) + 5e-16
    require_close(got[keep], exp[keep], tol[keep], "wrong decimal year", mjd=mjd.tolist())
    require_close(frac[keep], efrac[keep], 1e-15, "wrong year fraction", mjd=mjd.tolist())
    require(np.all((frac[keep] >= 0) & (frac[keep] < 1)), "the year fraction is not in [0, 1)", got=frac.tolist(), mjd=mjd.tolist())
    whole = keep & (efrac == 0)
    require_same(got[whole], year0[whole].astype(float), "the start of the year is not the whole year number", mjd=mjd.tolist())
    require_same(frac[whole], np.zeros(whole.sum()), "the fraction of the start of the year is not zero", mjd=mjd.tolist())
    # and back
    back = em.decimal_year_to_mjd2000(got)
    # the decimal year is rounded to its resolution
    tolb = 370 * 2.3e-16 * (np.abs(exp) + 2) + 2.3e-16 * np.abs(mjd)
    require_close(back[keep], mjd[keep], tolb[keep], "the conversion is not invertible", mjd=mjd.tolist())
    # monotonic
    order = np.argsort(mjd[keep], kind="stable")
    require(np.all(np.diff(got[keep][order]) >= 0), "not monotonic", mjd=mjd.tolist(), got=got.tolist())


@check(st.lists(st.tuples(YEARS, PART), min_size=4, max_size=4), quick=12000, thorough=1000000,
       rule="decimal years (Gregorian 1583..100000, Julian -4711..1581), whole and with fractions; non-trivial with a fraction")
def decimal_year_to_mjd2000(case, ctx):
    years, exp, whole = [], [], []
    for year, part in case:
        y = float(year + part)
        year = math.floor(y)
        if year == 1582:
            y, year = 1583.0, 1583
        part = y - year
        if part:
            ctx.nontrivial("Gregorian" if year > 1582 else "Julian")
        years.append(y)
        exp.append(start(year) + ref.LD(part) * length(year))
        whole.append(part == 0)
    years, whole = np.array(years), np.array(whole)
    exp = np.array(exp, dtype=float)
    got = em.decimal_year_to_mjd2000(years)
    require_shape(got, years.shape, "mjd2000")
    require_close(got, exp, 2.3e-16 * np.abs(exp) + 1.2e-13, "wrong MJD2000", years=years.tolist())
    require_same(got[whole], exp[whole], "wrong start of the year", years=years.tolist())
    back = em.mjd2000_to_decimal_year(got)
    tol = 2.3e-16 * (np.abs(years) + 1) + 2.3e-16 * (np.abs(got) + 800) / 365
    require_close(back, years, tol, "the conversion is not invertible", years=years.tolist())
    order = np.argsort(years, kind="stable")
    require(np.all(np.diff(got[order]) >= 0), "not monotonic", years=years.tolist(), got=got.tolist())
    for a, b in zip(years[order][:-1], years[order][1:]):
        a1, b1 = float(a), math.nextafter(float(a), math.inf)
        if math.floor(b1) != 1582:
            require(em.decimal_year_to_mjd2000(a1) <= em.decimal_year_to_mjd2000(b1), "not monotonic", years=[a1, b1])
        break


@check(st.lists(gen.finite(-1e6, 1e6) | gen.finite(-100, 100) | st.integers(-4000, 4000).map(lambda v: v * 365.25), min_size=3, max_size=3),
       quick=4000, thorough=200000, rule="numbers of days of any sign; non-trivial for a non-zero value")
def simplified_conversions(case, ctx):
    for values in (np.array(case), case[0]):
        arr = np.asarray(values)
        if np.any(arr != 0):
            ctx.nontrivial()
        exact = np.asarray(arr, dtype=ref.LD)
        year = 2000 + exact / ref.LD(365.25)
        got = tu.mjd2000_to_decimal_year_simple(values)
        require_shape(got, arr.shape, "decimal year")
        tol = 4.5e-16 * np.abs(year).astype(float) + 4.5e-16 * np.abs(arr)
        require_close(got, year.astype(float), tol, "wrong decimal year", mjd=case)
        require_close(tu.decimal_year_to_mjd2000_simple(got), arr, 365.25 * 2 * tol, "not invertible", mjd=case)
        frac = tu.mjd2000_to_year_fraction_simple(values)
        require_shape(frac, arr.shape, "fraction")
        # tiny negative values round to one
        require(np.all((frac >= 0) & ((frac < 1) | ((arr < 0) & (frac == 1)))), "the fraction is not in [0, 1)", mjd=case, got=frac)
        diff = np.asarray(frac - (year - np.floor(year)), dtype=float)
        require_close(diff - np.round(diff), np.zeros(arr.shape), tol, "wrong fraction", mjd=case)
        # linear conversion of decimal years
        years = 2000 + arr / 100
        back = tu.decimal_year_to_mjd2000_simple(years)
        require_close(back, (years - 2000) * 365.25, 1e-12 * np.abs(arr) + 1e-12, "wrong MJD2000", years=years)
        require_close(tu.mjd2000_to_decimal_year_simple(back), years, 1e-15 * np.abs(years) + 1e-15 * np.abs(arr), "not invertible", years=years)


@check(st.tuples(st.one_of(st.integers(1, 9999), st.integers(1990, 2030), st.sampled_from([1583, 1600, 1900, 2000, 2100, 9999])),
                 st.one_of(st.integers(0, 364), st.sampled_from([0, 58, 59, 60, 364, 365])),
                 st.one_of(st.integers(0, 86400 * 10 ** 6 - 1), st.sampled_from([0, 86400 * 10 ** 6 - 1, 43200 * 10 ** 6]))),
       quick=6000, thorough=400000, rule="date-times of the years 1..9999 to the microsecond; non-trivial with time in the day")
def calendar_date(case, ctx):
    year, day, usec = case
    day = min(day, dt.date(year, 12, 31).timetuple().tm_yday - 1)
    days = dt.date(year, 12, 31).timetuple().tm_yday
    when = dt.datetime(year, 1, 1) + dt.timedelta(days=day, microseconds=usec)
    if usec:
        ctx.nontrivial()
    got = tu.datetime_to_decimal_year(when)
    exp = float(year + (ref.LD(usec) / 86400000000 + day) / days)
    require_close(got, exp, 2.3e-16 * year + 5e-16, "wrong decimal year", time=when)
    if day == 0 and usec == 0:
        require(got == year, "the start of the year is not the whole year number", time=when, got=got)
    if year >= 1583:
        mjd = float(dt.date(year, 1, 1).toordinal() - EPOCH + day + ref.LD(usec) / 86400000000)
        same = em.mjd2000_to_decimal_year(mjd)
        require_close(got, same, 4.6e-16 * year + 2.3e-16 * abs(mjd) / 365, "differs from the conversion of MJD2000", time=when)


@check(st.sampled_from(["nan", "inf", "-inf"]).flatmap(lambda v: st.tuples(st.just(v), gen.finite(1900, 2100))),
       quick=300, thorough=3000, rule="values which are not finite numbers among others; always non-trivial")
def not_finite(case, ctx):
    """no finite number is made up of a value which is not finite"""
    bad, year = float(case[0]), case[1]
    ctx.nontrivial()
    for func, good in [(em.decimal_year_to_mjd2000, year), (em.mjd2000_to_decimal_year, year * 10), (em.mjd2000_to_year_fraction, year * 10),
                       (tu.decimal_year_to_mjd2000_simple, year), (tu.mjd2000_to_decimal_year_simple, year)]:
        with np.errstate(all="ignore"):
            res = func(np.array([good, bad, good]))
        require_same(res[[0, 2]], [func(good)] * 2, "other elements changed", func=func.__name__)
        if func is em.decimal_year_to_mjd2000:
            require(not np.isfinite(res[1]), "finite result of a value which is not finite", func=func.__name__, value=bad, got=res[1])
