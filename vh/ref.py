"""Independent reference geometry and spherical harmonics in extended precision."""
import numpy as np

LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")
DEG = PI / LD(180)

A = LD("6378.137")
B = LD("6356.7523142")
E2 = LD(1) - (B * B) / (A * A)
RE = 6371.2


def ld(x):
    return np.asarray(x, dtype=LD)


# ---------------------------------------------------------------------------
# trigonometry of degrees, exact at the multiples of 90 degrees

def sincosd(deg):
    """sine and cosine of an angle in degrees"""
    deg = ld(deg)
    k = np.rint(deg / LD(90))
    rem = (deg - k * LD(90)) * DEG
    s, c = np.sin(rem), np.cos(rem)
    q = np.mod(k, 4).astype(int)
    sin = np.choose(q, [s, c, -s, -c])
    cos = np.choose(q, [c, -s, -c, s])
    return ld(sin), ld(cos)


# ---------------------------------------------------------------------------
# positions; geodetic (lat, lon, height), spherical (lat, lon, radius)

def geod2cart(p):
    p = ld(p)
    sla, cla = sincosd(p[..., 0])
    slo, clo = sincosd(p[..., 1])
    n = A / np.sqrt(LD(1) - E2 * sla * sla)
    rho = (n + p[..., 2]) * cla
    return np.stack([rho * clo, rho * slo, (n * (LD(1) - E2) + p[..., 2]) * sla], axis=-1)


def sph2cart(p):
    p = ld(p)
    sla, cla = sincosd(p[..., 0])
    slo, clo = sincosd(p[..., 1])
    return np.stack([p[..., 2] * cla * clo, p[..., 2] * cla * slo, p[..., 2] * sla], axis=-1)


def cart2sph(c):
    c = ld(c)
    x, y, z = c[..., 0], c[..., 1], c[..., 2]
    rho = np.hypot(x, y)
    return np.stack([np.arctan2(z, rho) / DEG, np.arctan2(y, x) / DEG, np.hypot(rho, z)], axis=-1)


def cart2geod(c):
    c = ld(c)
    x, y, z = c[..., 0], c[..., 1], c[..., 2]
    rho = np.hypot(x, y)
    phi = np.arctan2(z, rho * (LD(1) - E2))
    for _ in range(12):
        s = np.sin(phi)
        n = A / np.sqrt(LD(1) - E2 * s * s)
        phi = np.arctan2(z + E2 * n * s, rho)
    s, co = np.sin(phi), np.cos(phi)
    n = A / np.sqrt(LD(1) - E2 * s * s)
    h = rho * co + z * s - n * (LD(1) - E2 * s * s)
    return np.stack([phi / DEG, np.arctan2(y, x) / DEG, h], axis=-1)


GEOD, SPH, CART = 0, 1, 2


def to_cart(p, kind):
    return (geod2cart, sph2cart, ld)[kind](p)


def from_cart(c, kind):
    return (cart2geod, cart2sph, ld)[kind](c)


def convert(p, kin, kout):
    p = ld(p)
    if kin == kout:
        return p
    out = from_cart(to_cart(p, kin), kout)
    if kin != CART and kout != CART:
        # the longitude is common to both systems
        out[..., 1] = p[..., 1]
    return out


# ---------------------------------------------------------------------------
# local frames: rows are the basis vectors (north, east, up) in Cartesian axes

def local_frame(lat, lon):
    sla, cla = sincosd(lat)
    slo, clo = sincosd(lon)
    zero = np.zeros_like(sla)
    north = np.stack([-sla * clo, -sla * slo, cla], axis=-1)
    east = np.stack([-slo, clo, zero], axis=-1)
    up = np.stack([cla * clo, cla * slo, sla], axis=-1)
    return np.stack([north, east, up], axis=-2)


def frame(p, kind):
    """frame of a position given in the system `kind`"""
    p = ld(p)
    if kind == CART:
        return np.broadcast_to(np.eye(3, dtype=LD), p.shape[:-1] + (3, 3))
    return local_frame(p[..., 0], p[..., 1])


def matvec(m, v):
    return np.einsum("...ij,...j->...i", m, ld(v))


# ---------------------------------------------------------------------------
# Legendre functions, Schmidt semi-normalised, of sin(latitude)

def legendre(degree, lat):
    """P, dP/dlat and P/cos(lat) (orders > 0), each [degree+1, degree+1, ...]"""
    s, c = sincosd(lat)
    return legendre_sc(degree, s, c)


def legendre_sc(degree, s, c):
    s, c = ld(s), ld(c)
    shape = (degree + 2, degree + 2) + s.shape
    p = np.zeros(shape, dtype=LD)
    q = np.zeros(shape, dtype=LD)
    one = LD(1)
    p[0, 0] = one
    if degree >= 1:
        q[1, 1] = one
        p[1, 1] = c
    for m in range(2, degree + 1):
        f = np.sqrt(LD(2 * m - 1) / LD(2 * m))
        q[m, m] = f * c * q[m - 1, m - 1]
        p[m, m] = f * c * p[m - 1, m - 1]
    for n in range(1, degree + 1):
        m = np.arange(0, n)
        den = np.sqrt(ld((n * n - m * m)))
        a1 = ld(2 * n - 1) / den
        b1 = np.sqrt(np.maximum(ld((n - 1) ** 2 - m * m), 0)) / den
        ex = (slice(None),) + (None,) * s.ndim
        prev2 = p[n - 2, :n] if n >= 2 else np.zeros((n,) + s.shape, dtype=LD)
        p[n, :n] = a1[ex] * s * p[n - 1, :n] - b1[ex] * prev2
        prev2 = q[n - 2, :n] if n >= 2 else np.zeros((n,) + s.shape, dtype=LD)
        q[n, :n] = a1[ex] * s * q[n - 1, :n] - b1[ex] * prev2
    q[:, 0] = 0
    dp = np.zeros(shape, dtype=LD)
    for n in range(1, degree + 1):
        dp[n, 0] = np.sqrt(LD(n * (n + 1)) / 2) * p[n, 1]
        dp[n, 1] = -(np.sqrt(LD(2 * n * (n + 1))) * p[n, 0]
                     - np.sqrt(LD((n + 2) * (n - 1))) * p[n, 2]) / 2
        if n > 1:
            m = np.arange(2, n + 1)
            ex = (slice(None),) + (None,) * s.ndim
            dp[n, 2:n + 1] = -(np.sqrt(ld((n + m) * (n - m + 1)))[ex] * p[n, 1:n]
                               - np.sqrt(ld((n + m + 1) * (n - m)))[ex] * p[n, 3:n + 2]) / 2
    k = slice(0, degree + 1)
    return p[k, k], dp[k, k], q[k, k]


def tri_index(degree):
    """degrees and orders in the storage order of the coefficients"""
    n = np.concatenate([np.full(i + 1, i) for i in range(degree + 1)])
    m = np.concatenate([np.arange(i + 1) for i in range(degree + 1)])
    return n, m


# ---------------------------------------------------------------------------
# spherical harmonic synthesis

def synth(coef, degree, sph, internal=True, scaled=None):
    """Potential and gradient (north, east, up) of one position.

    coef: [(degree+1)*(degree+2)/2, 2], sph: (lat, lon, radius).
    Returns (V, gradient, |V| scale, gradient scale): the scales are the sums
    of the magnitudes of the terms used to set the tolerances.
    """
    lat, lon, rad = (ld(v) for v in sph)
    n, m = tri_index(degree)
    coef = ld(coef)[:len(n)]
    p, dp, q = legendre(degree, lat)
    p, dp, q = p[n, m], dp[n, m], q[n, m]
    mlon = ld(m) * lon
    s, c = sincosd(mlon)
    a = LD(RE) if scaled is None else ld(scaled)
    x = rad / a
    nl = ld(n)
    if internal:
        rr = x ** (-(nl + 2))          # (a/r)^(n+2)
        vfac = rr * rad                # a (a/r)^(n+1)
        dr = -(nl + 1) * rr
    else:
        rr = x ** (nl - 1)
        vfac = rr * rad
        dr = nl * rr
    t = coef[:, 0] * c + coef[:, 1] * s * (m > 0)
    dt = ld(m) * (-coef[:, 0] * s + coef[:, 1] * c)
    amp = np.hypot(coef[:, 0], coef[:, 1] * (m > 0))
    pot = np.sum(vfac * t * p)
    grad = np.array([np.sum(rr * t * dp), np.sum(rr * dt * q), np.sum(dr * t * p)])
    nn = np.maximum(nl, 1)
    vscale = np.sum(vfac * amp)
    gscale = np.sum(rr * amp * nn)
    return pot, grad, float(vscale), float(gscale)
