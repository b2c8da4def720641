"""Generators shared by the property modules."""
import functools
import math

import numpy as np
from hypothesis import strategies as st


@functools.lru_cache(maxsize=None)
def finite(lo, hi, **kw):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False, **kw)


@functools.lru_cache(maxsize=None)
def _near(value, signs=(-1, 1)):
    return st.builds(lambda s, k, m: value + s * m * 10.0 ** -k,
                     st.sampled_from(signs), st.integers(0, 15), finite(1, 9.99))


@functools.lru_cache(maxsize=None)
def latitudes():
    near = st.builds(lambda s, k, m: s * (90.0 - m * 10.0 ** -k),
                     st.sampled_from((-1, 1)), st.integers(0, 14), finite(1, 9.9))
    return st.one_of(finite(-90, 90), st.sampled_from([-90.0, 90.0, 0.0, -0.0, 45.0, -45.0, 30.0, 1e-12, -1e-9]),
                     near, st.integers(-89, 89).map(float))


@functools.lru_cache(maxsize=None)
def longitudes(wrap=True):
    special = [0.0, -0.0, 90.0, -90.0, 180.0, -180.0, 45.0, -135.0, 179.9999999999, -179.9999999999, 1e-10]
    if wrap:
        special += [360.0, 270.0, -270.0, 540.0, -360.0, 720.0, 359.999999999]
    items = [finite(-180, 180), st.sampled_from(special), st.integers(-180, 180).map(float)]
    if wrap:
        items.append(finite(-1000, 1000))
    return st.one_of(*items)


@functools.lru_cache(maxsize=None)
def radii(lo=3000.0, hi=60000.0):
    return st.one_of(finite(lo, hi), st.sampled_from([6371.2, 6378.137, 6356.7523142, 6481.2, 7000.0, lo, hi]))


@functools.lru_cache(maxsize=None)
def heights(lo=-1000.0, hi=50000.0):
    return st.one_of(finite(lo, hi), st.sampled_from([0.0, 110.0, 450.0, lo, hi]), finite(-10, 1000))


def cart_from(lat, lon, rad):
    """Cartesian triplet of doubles near a spherical position, exact on the axes"""
    def sc(d):
        k = round(d / 90.0)
        r = math.radians(d - 90.0 * k)
        s, c = math.sin(r), math.cos(r)
        return ((s, c), (c, -s), (-s, -c), (-c, s))[int(k) % 4]
    sla, cla = sc(lat)
    slo, clo = sc(lon)
    return [rad * cla * clo, rad * cla * slo, rad * sla]


_ZERO = st.sampled_from([None] * 6 + [0, 1, 2])


@st.composite
def _positions(draw, kind, rmin=3000.0, rmax=60000.0, hmin=-1000.0, hmax=50000.0, wrap=True):
    """position in the system 0 geodetic, 1 spherical, 2 Cartesian"""
    lat, lon = draw(latitudes()), draw(longitudes(wrap))
    if kind == 0:
        return [lat, lon, draw(heights(hmin, hmax))]
    rad = draw(radii(rmin, rmax))
    if kind == 1:
        return [lat, lon, rad]
    c = cart_from(lat, lon, rad)
    zero = draw(_ZERO)
    if zero is not None and np.hypot(np.hypot(*[v for i, v in enumerate(c) if i != zero]), 0) > rmin:
        c[zero] = 0.0
    return c


@functools.lru_cache(maxsize=None)
def positions(kind, **kw):
    """position in the system 0 geodetic, 1 spherical, 2 Cartesian"""
    return _positions(kind, **kw)


SEED = st.integers(0, 2 ** 48)


def rng(seed):
    return np.random.default_rng(seed)


def scatter(seed, values):
    """values of which some are very small, zero, or equal to their neighbours (two times out of five)"""
    r = rng(seed + 7)
    kind = r.integers(0, 10)
    if kind in (0, 1):
        values = np.where(r.random(values.shape) < 0.5, values * 10.0 ** r.uniform(-9, 0, values.shape), values)
    elif kind == 2:
        values = np.where(r.random(values.shape[:-1] + (1,)) < 0.4, values[..., :1], values)
    elif kind == 3:
        values = np.where(r.random(values.shape[:1] + (1,) * (values.ndim - 1)) < 0.5, 0.0, values)
    return values
