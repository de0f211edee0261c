"""Reference model, written from the textbook definitions, in extended precision.

All vectors are 3 x n arrays of longdouble in the geographic frame g:
x -> latitude=longitude=0, y -> 90 deg east on the equator, z -> North Pole.
Nothing in here uses nvector.
"""
import numpy as np

LD = np.longdouble
PI = LD('3.14159265358979323846264338327950288')
EPS = 2.0 ** -52

# components on the library's Earth axes = AXES[name] @ components in g (from the documentation:
# 'e': z-axis -> North Pole, x-axis -> Latitude=Longitude=0;  'E': x-axis -> North Pole,
# y-axis -> Longitude +90 deg, hence z-axis -> Longitude 180 deg)
AXES = {'e': np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]], dtype=LD),
        'E': np.array([[0, 0, 1], [0, 1, 0], [-1, 0, 0]], dtype=LD)}
# e-frame of R_Ee (R_Ee = identity means the 'E' axes)
S = AXES['E']


def ld(x):
    return np.asarray(x, dtype=LD)


def sind(deg):
    return np.sin(ld(deg) * PI / 180)


def cosd(deg):
    return np.cos(ld(deg) * PI / 180)


def dot(u, v):
    return np.sum(u * v, axis=0)


def cross(u, v):
    return np.stack([u[1] * v[2] - u[2] * v[1],
                     u[2] * v[0] - u[0] * v[2],
                     u[0] * v[1] - u[1] * v[0]])


def norm(u):
    m = np.max(np.abs(u), axis=0)
    m = np.where((m == 0) | ~np.isfinite(m), LD(1), m)
    w = u / m
    return m * np.sqrt(dot(w, w))


def unit(u):
    return u / norm(u)


def mm(A, v):
    """3x3 matrix times 3 x n, extended precision"""
    A, v = ld(A), ld(v)
    return np.stack([sum(A[i, k] * v[k] for k in range(3)) for i in range(3)])


def mat(A, B):
    A, B = ld(A), ld(B)
    return np.stack([np.stack([sum(A[i, k] * B[k, j] for k in range(3)) for j in range(3)])
                     for i in range(3)])


def angle(u, v):
    """angle between directions, well conditioned everywhere"""
    u, v = unit(u), unit(v)
    return 2 * np.arctan2(norm(u - v), norm(u + v))


def nvec(lat, lon):
    lat, lon = np.broadcast_arrays(ld(lat), ld(lon))
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])


def latlon(n):
    return np.arctan2(n[2], np.hypot(n[0], n[1])), np.arctan2(n[1], n[0])


def surface(n, a, f):
    """point of the ellipsoid with outward normal n (n unit), g frame: classical N(phi) formula"""
    a, f = LD(a), LD(f)
    e2 = f * (2 - f)
    N = a / np.sqrt(1 - e2 * n[2] ** 2)
    return np.stack([N * n[0], N * n[1], N * (1 - e2) * n[2]])


def ecef(n, depth, a, f):
    n = unit(n)
    return surface(n, a, f) - ld(depth) * n


def ned(lat, lon):
    """north, east, down directions in g"""
    lat, lon = np.broadcast_arrays(ld(lat), ld(lon))
    z = np.zeros_like(lat)
    sa, ca, so, co = np.sin(lat), np.cos(lat), np.sin(lon), np.cos(lon)
    return (np.stack([-sa * co, -sa * so, ca]), np.stack([-so, co, z]),
            np.stack([-ca * co, -ca * so, -sa]))


def ned_n(n):
    """north, east, down for unit normals away from the exact poles"""
    h = np.hypot(n[0], n[1])
    e = np.stack([-n[1] / h, n[0] / h, np.zeros_like(h)])
    return cross(e, -n), e, -n


def travel(n, north, east, az, dist):
    """unit sphere: position and direction of travel after dist along azimuth az"""
    az, dist = ld(az), ld(dist)
    d = north * np.cos(az) + east * np.sin(az)
    return n * np.cos(dist) + d * np.sin(dist), d * np.cos(dist) - n * np.sin(dist)


def rot(axis, ang):
    """elementary rotation about coordinate axis 0, 1, 2 (matrix 3x3xn)"""
    ang = ld(ang)
    c, s = np.cos(ang), np.sin(ang)
    o, z = np.ones_like(c), np.zeros_like(c)
    if axis == 0:
        rows = [[o, z, z], [z, c, -s], [z, s, c]]
    elif axis == 1:
        rows = [[c, z, s], [z, o, z], [-s, z, c]]
    else:
        rows = [[c, -s, z], [s, c, z], [z, z, o]]
    return np.stack([np.stack(r) for r in rows])


def wrap(x):
    """to [-pi, pi]"""
    x = ld(x)
    return x - 2 * PI * np.round(x / (2 * PI))


def f64(x):
    return np.asarray(x, dtype=np.float64)
