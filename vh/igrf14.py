"""Dipole coefficients of the IGRF-14 (NOAA/IAGA table): epochs, g10, g11, h11"""
import numpy as np

EPOCHS = [1900.0, 1905.0, 1910.0, 1915.0, 1920.0, 1925.0, 1930.0, 1935.0, 1940.0, 1945.0, 1950.0, 1955.0, 1960.0, 1965.0, 1970.0, 1975.0, 1980.0, 1985.0, 1990.0, 1995.0, 2000.0, 2005.0, 2010.0, 2015.0, 2020.0, 2025.0, 2030.0]
G10 = [-31543.0, -31464.0, -31354.0, -31212.0, -31060.0, -30926.0, -30805.0, -30715.0, -30654.0, -30594.0, -30554.0, -30500.0, -30421.0, -30334.0, -30220.0, -30100.0, -29992.0, -29873.0, -29775.0, -29692.0, -29619.4, -29554.63, -29496.57, -29441.46, -29403.41, -29350.0, -29287.0]
G11 = [-2298.0, -2298.0, -2297.0, -2306.0, -2317.0, -2318.0, -2316.0, -2306.0, -2292.0, -2285.0, -2250.0, -2215.0, -2169.0, -2119.0, -2068.0, -2013.0, -1956.0, -1905.0, -1848.0, -1784.0, -1728.2, -1669.05, -1586.42, -1501.77, -1451.37, -1410.3, -1360.3]
H11 = [5922.0, 5909.0, 5898.0, 5875.0, 5845.0, 5817.0, 5808.0, 5812.0, 5821.0, 5810.0, 5815.0, 5820.0, 5791.0, 5776.0, 5737.0, 5675.0, 5604.0, 5500.0, 5406.0, 5306.0, 5186.1, 5077.99, 4944.26, 4795.99, 4653.35, 4545.5, 4438.0]


def dipole(year):
    """g10, g11, h11 at the decimal year: linear interpolation, extrapolated by the last rate"""
    i = min(max(int(np.searchsorted(EPOCHS, year, side="right")) - 1, 0), len(EPOCHS) - 2)
    a = (year - EPOCHS[i]) / (EPOCHS[i + 1] - EPOCHS[i])
    return [v[i] + a * (v[i + 1] - v[i]) for v in (G10, G11, H11)]


def pole(year):
    """latitude and longitude of the north geomagnetic pole in degrees"""
    g10, g11, h11 = dipole(year)
    return np.degrees(np.arctan2(-g10, np.hypot(g11, h11))), np.degrees(np.arctan2(-h11, -g11))
