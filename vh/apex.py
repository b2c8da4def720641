"""Reference evaluation of the apex spherical harmonic expansion (Emmert,
Richmond, Drob 2010) of a coefficient file in double precision."""
import functools
import math
import os
import numpy as np
from vh import ref

REQ, FLAT = 6378.137, 1 / 298.257223563
RE = REQ * (1 - FLAT / 3)
ECC2 = FLAT * (2 - FLAT)


class Expansion:
    def __init__(self, nmax, mmax, lmax, epochs, coeff, inverse=None):
        """coeff[epoch, l, term, xyz]"""
        self.nmax, self.mmax, self.lmax = nmax, mmax, lmax
        self.epochs = np.asarray(epochs, dtype=np.float32).astype(float)
        self.coeff = coeff
        self.inverse = inverse

    @property
    def nterm(self):
        return nterm(self.nmax, self.mmax)

    def at(self, epoch, inverse=False):
        """coefficients at the epoch clamped to the epochs of the file"""
        ep = self.epochs
        coeff = self.inverse if inverse else self.coeff
        if len(ep) == 1:
            return coeff[0]
        epoch = min(max(float(epoch), ep[0]), ep[-1])
        i = min(max(int(np.searchsorted(ep, epoch, side="right")) - 1, 0), len(ep) - 2)
        a = (epoch - ep[i]) / (ep[i + 1] - ep[i])
        return (1 - a) * coeff[i] + a * coeff[i + 1]


def nterm(nmax, mmax):
    return sum((1 if m == 0 else 2) * (nmax + 1 - m) for m in range(mmax + 1))


@functools.lru_cache(maxsize=8)
def load(path, _key=None):
    with open(path) as f:
        data = f.read().split()
    nepoch, nmax, mmax, lmax, n = (int(v) for v in data[:5])
    epochs = [float(v) for v in data[5:5 + nepoch]]
    values = np.array(data[5 + nepoch:5 + nepoch + 6 * n * nepoch], dtype=float).reshape((6, nepoch, n))
    k = nterm(nmax, mmax)
    coeff = values[:, :, :k * (lmax + 1)].reshape((6, nepoch, lmax + 1, k))
    coeff = np.moveaxis(coeff, 0, 3)
    return Expansion(nmax, mmax, lmax, epochs, coeff[..., :3], coeff[..., 3:])


def dump(path, exp, inverse=0.0):
    """write the coefficients to a file"""
    nepoch = len(exp.epochs)
    n = exp.nterm * (exp.lmax + 1)
    fwd = np.moveaxis(exp.coeff, 3, 0).reshape((3, nepoch, n))
    inv = np.full((3, nepoch, n), inverse) if exp.inverse is None else np.moveaxis(exp.inverse, 3, 0).reshape((3, nepoch, n))
    allv = np.concatenate([fwd, inv])
    with open(path, "w") as f:
        f.write(" ".join("%d" % v for v in (nepoch, exp.nmax, exp.mmax, exp.lmax, n)) + "\n")
        f.write(" ".join("%.5f" % v for v in exp.epochs) + "\n")
        flat = allv.ravel()
        for i in range(0, len(flat), 6):
            f.write(" ".join(repr(float(v)) for v in flat[i:i + 6]) + "\n")


def harmonics(nmax, mmax, lat, lon):
    """normalised harmonics and their eastward and northward derivatives on the sphere"""
    p, dp, q = (np.asarray(v, dtype=float) for v in ref.legendre(nmax, lat))
    lon = math.radians(lon)
    sh, east, north = [], [], []
    for m in range(mmax + 1):
        for n in range(m, nmax + 1):
            norm = math.sqrt((2 * n + 1) / 2.0) / (1 if m == 0 else math.sqrt(2))
            c, s = math.cos(m * lon), math.sin(m * lon)
            for a, b in ((c, -s), (s, c))[:1 if m == 0 else 2]:
                sh.append(norm * p[n, m] * a)
                east.append(norm * m * q[n, m] * b)
                north.append(norm * dp[n, m] * a)
    return np.array([sh, east, north])


def evaluate(exp, epoch, gclat, gclon, rad):
    """quasi-dipole latitude, longitude, f11, f12, f21, f22, f and the unit vector of the QD position"""
    lat, lon, alt = [float(v) for v in ref.convert(np.array([gclat, gclon, rad]), 1, 0)]
    return evaluate_geodetic(exp, epoch, lat, lon, alt)[:3]


def invert(exp, epoch, qlat, qlon, alt):
    """the vector of the expansion of the inverse transformation"""
    rho = RE / (RE + alt)
    coef = sum(c * rho ** k for k, c in enumerate(exp.at(epoch, True)))
    return harmonics(exp.nmax, exp.mmax, qlat, qlon)[0] @ coef


def evaluate_geodetic(exp, epoch, lat, lon, alt):
    """as evaluate; and the gradients of the latitude and longitude (east, north, up), multiplied by the distance"""
    rho = RE / (RE + alt)
    coefs = exp.at(epoch)
    coef = sum(c * rho ** k for k, c in enumerate(coefs))
    har = harmonics(exp.nmax, exp.mmax, lat, lon)
    q, qe, qn = har @ coef
    qv = har[0] @ sum(-k * c * rho ** k for k, c in enumerate(coefs))
    qlat = math.atan2(q[2], math.hypot(q[0], q[1]))
    qlon = math.atan2(q[1], q[0])
    sla, cla, slo, clo = math.sin(qlat), math.cos(qlat), math.sin(qlon), math.cos(qlon)
    # principal radii of the ellipsoid at the height relative to that of the sphere
    w2 = 1 - ECC2 * math.sin(math.radians(lat)) ** 2
    prime = (REQ / math.sqrt(w2) + alt) / (RE + alt)
    meridian = (REQ * (1 - ECC2) / w2 ** 1.5 + alt) / (RE + alt)
    up = np.array([-sla * clo, -sla * slo, cla])
    ea = np.array([-slo, clo, 0.0])
    lat_e, lat_n = up @ qe / prime, up @ qn / meridian
    lon_e, lon_n = ea @ qe / prime, ea @ qn / meridian
    f11, f12, f21, f22 = lat_n, -lat_e, -lon_n, lon_e
    return (math.degrees(qlat), math.degrees(qlon), f11, f12, f21, f22, f11 * f22 - f12 * f21), np.array([cla * clo, cla * slo, sla]), (qe, qn, np.hypot(q[0], q[1])), (np.array([lat_e, lat_n, up @ qv]), np.array([lon_e, lon_n, ea @ qv]))
