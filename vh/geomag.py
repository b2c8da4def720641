"""The reference field of the apex coordinates and its field lines in double precision."""
import functools
import math
import numpy as np

RE = 6371.0088          # the unit of length of the library
REQ, REP = 6378.137, 6356.752
E2 = 1 - (REP / REQ) ** 2


class Igrf:
    """coefficients of an IGRF file in the SHC format (read without the code under test)"""

    def __init__(self, path, degree=13):
        with open(path) as f:
            rows = [line.split() for line in f if line.strip() and not line.startswith("#")]
        self.epochs = np.array([float(v) for v in rows[1]])
        self.degree = degree
        self.table = np.zeros((len(self.epochs), 2, degree + 1, degree + 1))
        for row in rows[2:]:
            n, m = int(row[0]), int(row[1])
            self.table[:, int(m < 0), n, abs(m)] = [float(v) for v in row[2:]]

    def at(self, year):
        """linear interpolation, extrapolated by the last rate"""
        ep = self.epochs
        i = min(max(int(np.searchsorted(ep, year, side="right")) - 1, 0), len(ep) - 2)
        a = (year - ep[i]) / (ep[i + 1] - ep[i])
        return (1 - a) * self.table[i] + a * self.table[i + 1]


@functools.lru_cache(maxsize=4)
def igrf(path):
    return Igrf(path)


@functools.lru_cache(maxsize=4)
def _factors(degree):
    n, m = np.meshgrid(np.arange(degree + 2), np.arange(degree + 2), indexing="ij")
    with np.errstate(divide="ignore", invalid="ignore"):
        root = np.sqrt(np.maximum(n * n - m * m, 1e-300))
        return (2 * n - 1) / root, np.sqrt(np.maximum((n - 1.0) ** 2 - m * m, 0)) / root


def solid(degree, pos):
    """(1/r)^(n+1) times the Schmidt harmonics: complex array [degree+1, degree+1] (cos + i sin), and |.| bound"""
    x, y, z = (float(v) for v in pos)
    r2 = x * x + y * y + z * z
    a, b = _factors(degree)
    out = np.zeros((degree + 2, degree + 2), dtype=complex)
    out[0, 0] = 1 / math.sqrt(r2)
    u = complex(x, y) / r2
    for m in range(1, degree + 2):
        out[m, m] = (math.sqrt((2 * m - 1) / (2 * m)) if m > 1 else 1.0) * u * out[m - 1, m - 1]
    zz = z / r2
    for n in range(1, degree + 2):
        k = slice(0, n)
        prev = out[n - 2, k] if n > 1 else 0
        out[n, k] = a[n, k] * zz * out[n - 1, k] - (b[n, k] / r2 * prev if n > 1 else 0)
    return out


@functools.lru_cache(maxsize=4)
def _derivatives(degree):
    """factors of the derivatives of the solid harmonics expressed by those of the degree n + 1"""
    n, m = np.meshgrid(np.arange(degree + 1), np.arange(degree + 1), indexing="ij")
    low = m <= n
    up = np.where(low, np.sqrt((n + m + 1) * (n + m + 2.0)), 0)
    down = np.where(low & (m > 0), np.sqrt(np.maximum((n - m + 1) * (n - m + 2.0), 0)), 0)
    down[:, 1] *= math.sqrt(2.0)        # normalisation of the order 0
    same = np.where(low, np.sqrt((n + m + 1) * np.maximum(n - m + 1.0, 0)), 0)
    return up, down, same


def evaluate(coef, pos, unit=RE):
    """potential (unit nT * unit) and field (X, Y, Z; nT) at the position in units of the reference radius"""
    degree = coef.shape[1] - 1
    s = solid(degree, pos)
    k = slice(0, degree + 1)
    gh = coef[0] - 1j * coef[1]
    pot = float(np.sum((gh * s[k, k]).real))
    up, down, same = _derivatives(degree)
    nxt = s[1:degree + 2]
    plus = np.zeros_like(gh)
    plus[:, :] = nxt[:, 1:degree + 2]
    minus = np.zeros_like(gh)
    minus[:, 1:] = nxt[:, 0:degree]
    fup = np.full(degree + 1, 1.0)
    fup[0] = 1 / math.sqrt(2.0)
    # d/dx + i d/dy and d/dx - i d/dy
    plus = -plus * up * fup
    minus = minus * down
    dx = 0.5 * (gh * plus).real + 0.5 * (gh * minus).real
    dy = 0.5 * (gh * plus).imag - 0.5 * (gh * minus).imag
    dz = -(gh * nxt[:, 0:degree + 1] * same).real
    dx[:, 0] = (gh[:, 0] * plus[:, 0]).real
    dy[:, 0] = (gh[:, 0] * plus[:, 0]).imag
    return pot, -np.array([dx.sum(), dy.sum(), dz.sum()])


def geodetic_to_cart(lat, lon, alt):
    la, lo = math.radians(lat), math.radians(lon)
    w = math.sqrt(1 - E2 * math.sin(la) ** 2)
    rho = (REQ / w + alt) * math.cos(la)
    return np.array([rho * math.cos(lo), rho * math.sin(lo), (REQ * (1 - E2) / w + alt) * math.sin(la)])


def cart_to_geodetic(xyz):
    """latitude, longitude (degrees), height and the upward unit vector"""
    x, y, z = (float(v) for v in xyz)
    rho = math.hypot(x, y)
    lat = math.atan2(z, rho * (1 - E2))
    for _ in range(20):
        w = math.sqrt(1 - E2 * math.sin(lat) ** 2)
        new = math.atan2(z + E2 * REQ / w * math.sin(lat), rho)
        if abs(new - lat) < 1e-15:
            break
        lat = new
    w = math.sqrt(1 - E2 * math.sin(lat) ** 2)
    alt = rho * math.cos(lat) + z * math.sin(lat) - REQ * w
    lon = math.atan2(y, x)
    up = np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])
    return math.degrees(lat), math.degrees(lon), alt, up


_C = [[], [1 / 5], [3 / 40, 9 / 40], [44 / 45, -56 / 15, 32 / 9],
      [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729],
      [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656],
      [35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84]]
_E = [71 / 57600, 0, -71 / 16695, 71 / 1920, -17253 / 339200, 22 / 525, -1 / 40]


def _step(func, y, h, k1):
    ks = [k1]
    for row in _C[1:]:
        ks.append(func(y + h * sum(c * k for c, k in zip(row, ks))))
    new = y + h * sum(c * k for c, k in zip(_C[6], ks))
    err = h * sum(c * k for c, k in zip(_E, ks))
    return new, np.linalg.norm(err), ks[6]


class Lost(Exception):
    """the field line goes too far"""


def trace(coef, start, tol=1e-9, limit=60.0):
    """position (km) of the highest point of the field line above the start (km); the start is in km"""
    def field(y):
        return evaluate(coef, y)[1]

    def vertical(y):
        b = field(y)
        return float(b @ cart_to_geodetic(y * RE)[3]) / np.linalg.norm(b)
    y = np.asarray(start, dtype=float) / RE
    sign = 1.0 if vertical(y) > 0 else -1.0

    def func(p):
        b = field(p)
        return sign * b / np.linalg.norm(b)
    h, k1 = 0.02, func(y)
    for _ in range(5000):
        new, err, k7 = _step(func, y, h, k1)
        if err > tol:
            h *= max(0.2, 0.9 * (tol / err) ** 0.2)
            continue
        if sign * vertical(new) <= 0:
            break
        y, k1 = new, k7
        if np.linalg.norm(y) > limit:
            raise Lost
        h *= min(4.0, 0.9 * (tol / max(err, 1e-300)) ** 0.2)
    else:
        raise Lost
    # the highest point is inside of the last step
    lo, hi = 0.0, h
    flo, fhi = sign * vertical(y), sign * vertical(new)
    best = y
    for _ in range(60):
        mid = lo + (hi - lo) * min(max(flo / (flo - fhi), 0.05), 0.95) if flo > fhi else (lo + hi) / 2
        best = _step(func, y, mid, k1)[0]
        f = sign * vertical(best)
        if abs(f) < 1e-12 or hi - lo < 1e-13:
            break
        if f > 0:
            lo, flo = mid, f
        else:
            hi, fhi = mid, f
    return best * RE, sign


def apex(coef, lat, lon, alt):
    """apex radius (1 + height / Req), apex latitude, apex longitude of a geodetic position, as defined by Richmond (1995)"""
    start = geodetic_to_cart(lat, lon, alt)
    top, sign = trace(coef, start)
    height = max(cart_to_geodetic(top)[2], alt)
    a = 1 + height / REQ
    # the vertical field is downward where the line is followed against it
    alat = -sign * math.degrees(math.acos(min(1.0, math.sqrt(1 / a)))) if a >= 1 else None
    axis = -np.array([coef[0, 1, 1], coef[1, 1, 1], coef[0, 1, 0]])
    axis /= np.linalg.norm(axis)
    # longitude around the dipole axis from the meridian opposite to the geographic pole
    east = np.cross([0, 0, 1.0], axis)
    east /= np.linalg.norm(east)
    prime = np.cross(east, axis)
    alon = math.degrees(math.atan2(top @ east, top @ prime))
    return a, alat, alon
