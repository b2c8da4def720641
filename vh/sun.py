"""Position of the Sun: truncated VSOP87 theory (J. Meeus, Astronomical
Algorithms, chapters 12, 22, 25 and 32; better than 2 arc-seconds) and the
algorithm 5 of R. Grena (2012) in extended precision."""
import math
import numpy as np

LD = np.longdouble

_L0 = [(175347046, 0, 0), (3341656, 4.6692568, 6283.0758500), (34894, 4.62610, 12566.15170), (3497, 2.7441, 5753.3849),
       (3418, 2.8289, 3.5231), (3136, 3.6277, 77713.7715), (2676, 4.4181, 7860.4194), (2343, 6.1352, 3930.2097),
       (1324, 0.7425, 11506.7698), (1273, 2.0371, 529.6910), (1199, 1.1096, 1577.3435), (990, 5.233, 5884.927),
       (902, 2.045, 26.298), (857, 3.508, 398.149), (780, 1.179, 5223.694), (753, 2.533, 5507.553), (505, 4.583, 18849.228),
       (492, 4.205, 775.523), (357, 2.920, 0.067), (317, 5.849, 11790.629), (284, 1.899, 796.298), (271, 0.315, 10977.079)]
_L1 = [(628331966747, 0, 0), (206059, 2.678235, 6283.075850), (4303, 2.6351, 12566.1517), (425, 1.590, 3.523),
       (119, 5.796, 26.298), (109, 2.966, 1577.344)]
_L2 = [(52919, 0, 0), (8720, 1.0721, 6283.0758), (309, 0.867, 12566.152)]


def meeus(mjd2000, dtt):
    """declination, right ascension and Greenwich hour angle in degrees"""
    ut = mjd2000 - 0.5                      # days since J2000.0
    tt = ut + dtt / 86400.0
    tau = tt / 365250.0
    lon = sum(sum(a * math.cos(b + c * tau) for a, b, c in s) * tau ** i for i, s in enumerate([_L0, _L1, _L2])) * 1e-8
    t = tt / 36525.0
    omega = math.radians(125.04452 - 1934.136261 * t)
    l1 = math.radians(280.4665 + 36000.7698 * t)
    l2 = math.radians(218.3165 + 481267.8813 * t)
    dpsi = (-17.20 * math.sin(omega) - 1.32 * math.sin(2 * l1) - 0.23 * math.sin(2 * l2) + 0.21 * math.sin(2 * omega)) / 3600
    deps = (9.20 * math.cos(omega) + 0.57 * math.cos(2 * l1) + 0.10 * math.cos(2 * l2) - 0.09 * math.cos(2 * omega)) / 3600
    eps = 23.4392911 - (46.8150 * t + 0.00059 * t * t) / 3600 + deps
    anomaly = math.radians(357.52911 + 35999.05029 * t)
    dist = 1.00014 - 0.01671 * math.cos(anomaly) - 0.00014 * math.cos(2 * anomaly)
    lam = math.radians(math.degrees(lon) + 180.0 - 0.09033 / 3600 + dpsi - 20.4898 / 3600 / dist)
    e = math.radians(eps)
    ra = math.degrees(math.atan2(math.sin(lam) * math.cos(e), math.cos(lam)))
    dec = math.degrees(math.asin(math.sin(lam) * math.sin(e)))
    u = ut / 36525.0
    gst = 280.46061837 + 360.98564736629 * ut + 0.000387933 * u * u + dpsi * math.cos(e)
    return dec, ra % 360.0, (gst - ra) % 360.0, dist


def grena5(mjd2000, dtt):
    """declination, right ascension and Greenwich hour angle in radians"""
    t = LD(mjd2000) - 21915                 # days since 2060-01-01
    te = t + LD(dtt) / 86400
    w = LD("0.0172019715") * te
    f = lambda v: LD(repr(v))
    lon = f(1.7527901) + f(1.7202792159e-2) * te
    for k, a, b in [(1, 3.33024e-2, -2.0582e-3), (2, 3.512e-4, -4.07e-5), (3, 5.2e-6, -9e-7)]:
        lon += f(a) * np.sin(k * w) + f(b) * np.cos(k * w)
    lon -= f(8.23e-5) * np.sin(w) * np.sin(f(2.92e-5) * te)
    for a, b, c in [(1.27e-5, 1.49e-3, -2.337), (1.21e-5, 4.31e-3, 3.065), (2.33e-5, 1.076e-2, -1.533), (3.49e-5, 1.575e-2, -2.358),
                    (2.67e-5, 2.152e-2, 0.074), (1.28e-5, 3.152e-2, 1.547), (3.14e-5, 2.1277e-1, -0.488)]:
        lon += f(a) * np.sin(f(b) * te + f(c))
    nu = f(9.282e-4) * te - f(0.8)
    dlam = f(8.34e-5) * np.sin(nu)
    eps = f(4.089567e-1) - f(6.19e-9) * te + f(4.46e-5) * np.cos(nu)
    lam = lon + dlam            # opposite to the Sun
    x, y = -np.cos(lam), -np.sin(lam)
    ra = np.arctan2(y * np.cos(eps), x)
    dec = np.arcsin(y * np.sin(eps))
    gha = f(1.7528311) + f(6.300388099) * t + f(0.92) * dlam - ra
    return dec, ra, gha
