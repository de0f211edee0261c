"""Finite alphabets: special values of every kind of argument and their neighbourhoods."""
import numpy as np


def around(v, ks, sides=(-1, 1)):
    out = [v]
    for k in ks:
        for s in sides:
            out.append(v + s * 10.0 ** -k)
    return out


def uniq(seq):
    out, seen = [], set()
    for v in seq:
        key = (v, str(v))
        if key not in seen:
            seen.add(key)
            out.append(v)
    return out


def lats(level=1):
    """latitudes in radians"""
    p = np.pi / 2
    out = [0.0, p, -p, np.radians(45), np.radians(-45), np.radians(30.5), np.radians(-61.7)]
    ks = {0: (3, 9), 1: (1, 3, 5, 8, 12), 2: range(1, 16)}[level]
    for k in ks:
        d = 10.0 ** -k
        out += [d, -d, p - d, -p + d]
    n = {0: 5, 1: 13, 2: 37}[level]
    out += list(np.radians(np.linspace(-88.3, 87.1, n)))
    if level >= 1:
        out += [5e-324, -1e-300, 1e-155, np.nextafter(p, 0), np.nextafter(-p, 0)]
    return [float(v) for v in uniq(out)]


def lons(level=1):
    """longitudes in radians, several turns"""
    p = np.pi
    out = [0.0, p / 2, p, -p / 2, -p, 1.0, -2.0]
    ks = {0: (4,), 1: (3, 8, 12), 2: range(1, 16)}[level]
    for k in ks:
        d = 10.0 ** -k
        out += [d, -d, p - d, -p + d, p + d, p / 2 - d, p / 2 + d, -p / 2 + d]
    out += [2 * p, -2 * p, 3 * p, 4.5, -7.7, 100.0, 1e4]
    n = {0: 4, 1: 11, 2: 37}[level]
    out += list(np.radians(np.linspace(-171.3, 177.7, n)))
    if level >= 1:
        out += [1e-155, -1e-300, np.nextafter(p, 4), np.nextafter(-p, 0), -0.0]
    return [float(v) for v in uniq(out)]


def depths(level=1):
    out = [0.0, 1.0, -1.0, 100.0, -8848.0, 10994.0, -4e5]
    if level >= 1:
        out += [1e-3, -1e-3, 1e-9, -35.786e6, 1e6, -1e6]
    if level >= 2:
        out += [s * 10.0 ** k for k in range(-8, 7) for s in (1, -1)] + [-1e9, -1.5e11]
    return uniq(out)


# independent copies of the published figures
ELLIPSOIDS = {
    'sphere': (6371009.0, 0.0),
    'unit': (1.0, 0.0),
    'wgs84': (6378137.0, 1 / 298.257223563),
    'airy': (6377563.396, 1 / 299.3249646),
    'clarke1880': (6378249.145, 1 / 293.465),
    'prolate': (6371000.0, -1 / 150.0),
    'flat50': (6378137.0, 1 / 50.0),
    'flat10': (6378137.0, 0.1),
    'mars': (3396190.0, 1 / 169.894447),
}


def ells(level=1):
    if level == 0:
        return ['wgs84', 'sphere', 'prolate']
    if level == 1:
        return ['wgs84', 'sphere', 'prolate', 'unit', 'flat50']
    return list(ELLIPSOIDS)


def grid(lat, lon):
    a, b = np.meshgrid(lat, lon, indexing='ij')
    return a.ravel(), b.ravel()


def azimuths(level=1):
    out = [0.0, np.pi / 2, np.pi, -np.pi / 2, -np.pi, 0.7, -2.1, 3.0, -1e-9, 1e-12, 4.0, 7.5]
    if level >= 1:
        out += [np.pi - 1e-9, -np.pi + 1e-9, np.pi / 2 + 1e-8, 2 * np.pi, -6.0, 1e-3, 20.0]
    if level >= 2:
        out += list(np.radians(np.arange(-360, 361, 15.0)))
    return uniq(out)


# positions in degrees used by the operation catalogue (order: ordinary first)
POSITIONS = [(51.0, 1.0, 0.0), (-33.5, 151.2, 10.0), (0.0, 0.0, 0.0), (5.0, -170.0, -1000.0),
             (89.9999, 30.0, 3.0), (-72.3, -179.9999, 250.0), (90.0, 0.0, 0.0), (-90.0, 0.0, -5.0),
             (0.0, 180.0, 0.0), (1e-9, 90.0, 1.0), (45.0, -90.0, 7.0), (-0.5, 179.5, 2000.0),
             (60.0, 200.0, -400.0), (23.4, 66.6, 1.5), (-12.0, -45.0, 0.25), (75.0, 100.0, 33.0)]
