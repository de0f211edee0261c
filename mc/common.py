"""Shared helpers: axes, frames, calling conventions."""
import itertools
import numpy as np
import nvector as nv
from nvector import core, objects, rotation, util  # noqa: F401
from mc import ref, alph

EPS = ref.EPS


def octahedral():
    """the 24 rotation matrices with entries -1, 0, 1"""
    out = []
    for perm in itertools.permutations(range(3)):
        for signs in itertools.product((1, -1), repeat=3):
            M = np.zeros((3, 3), dtype=int)
            for i, j in enumerate(perm):
                M[i, j] = signs[i]
            if round(np.linalg.det(M)) == 1:
                out.append(M)
    return out


# name -> R_Ee as given to the functional interface (None = default)
AXES = {
    'default': None,
    'e': np.array([[0, 0, 1.0], [0, 1.0, 0], [-1.0, 0, 0]]),
    'E': np.eye(3),
    # rational rotations (exact to rounding), and one octahedral one
    'R1': np.array([[2, -1, 2], [2, 2, -1], [-1, 2, 2]]) / 3.0,
    'R2': np.array([[2, 3, 6], [3, -6, 2], [6, 2, -3]]) / 7.0,
    'R3': np.array([[0, 1.0, 0], [0, 0, 1.0], [1.0, 0, 0]]),
}


def R_of(axes):
    return AXES[axes]


def g2E(axes):
    R = AXES['e'] if axes == 'default' else AXES[axes]
    return ref.mat(np.asarray(R).T, ref.S)


def toE(axes, v):
    """components on the Earth axes (longdouble)"""
    return ref.mm(g2E(axes), v)


def toG(axes, v):
    return ref.mm(g2E(axes).T, v)


def exact_axes(axes):
    return axes in ('default', 'e', 'E', 'R3')


def frameE(ell='wgs84', axes='e'):
    a, f = alph.ELLIPSOIDS[ell]
    # the name must not matter when the parameters are given
    name = 'WGS84' if ell[:5] == 'wgs84' else 'Clarke 1866'
    return nv.FrameE(a=a, f=f, name=name, axes='e' if axes == 'default' else axes)


def nE(lat, lon, axes='e'):
    """float64 n-vectors on the given axes, from the reference"""
    return ref.f64(toE(axes, ref.nvec(lat, lon)))


def positions_deg(k=None):
    P = alph.POSITIONS[:k] if k else alph.POSITIONS
    arr = np.array(P, dtype=float)
    return np.radians(arr[:, 0]), np.radians(arr[:, 1]), arr[:, 2]


def lattice(m):
    """all integer directions with entries in -m..m except zero"""
    r = np.arange(-m, m + 1)
    v = np.array(list(itertools.product(r, r, r)), dtype=float).T
    return v[:, np.any(v != 0, axis=0)]


def is_scalar(x):
    return np.ndim(x) == 0


KINDS = ('geo', 'nvec', 'ecef')


def mk(kind, frame, axes, lat, lon, z):
    """position object of the given kind built from reference values (arrays or scalars, radians)"""
    if kind == 'geo':
        return frame.GeoPoint(lat, lon, z)
    scalar = np.ndim(lat) == 0 and np.ndim(lon) == 0 and np.ndim(z) == 0
    la, lo, zz = np.broadcast_arrays(np.atleast_1d(lat), np.atleast_1d(lon), np.atleast_1d(z))
    n = nE(la, lo, axes)
    if kind == 'nvec':
        return frame.Nvector(n, z if scalar else np.array(zz, dtype=float))
    p = ref.f64(toE(axes, ref.ecef(ref.nvec(la, lo), zz, frame.a, frame.f)))
    return frame.ECEFvector(p, scalar=scalar)


def obj_ecef(x, axes, frame=None):
    """Cartesian position (reference arithmetic) denoted by a library object; g frame"""
    fr = x.frame
    if isinstance(x, nv.GeoPoint):
        la, lo, z = np.atleast_1d(x.latitude), np.atleast_1d(x.longitude), np.atleast_1d(x.z)
        return ref.ecef(ref.nvec(la, lo), z, fr.a, fr.f)
    if isinstance(x, nv.Nvector):
        return ref.ecef(ref.unit(toG(axes, x.normal)), np.atleast_1d(x.z), fr.a, fr.f)
    if isinstance(x, nv.ECEFvector):
        return toG(axes, x.pvector)
    raise TypeError(type(x))


def local_axes(axes, n_E, wa=None, ypr=None):
    """matrix (3,3,n) from local axes to g for E-frame unit normals away from exact poles"""
    n, e, d = ref.ned_n(ref.unit(toG(axes, n_E)))
    M = np.stack([n, e, d], axis=1)  # columns
    if wa is not None:
        M = mm3(M, ref.rot(2, wa))
    if ypr is not None:
        M = mm3(mm3(mm3(M, ref.rot(2, ypr[0])), ref.rot(1, ypr[1])), ref.rot(0, ypr[2]))
    return M


def mm3(A, B):
    """(3,3,n) x (3,3,n) with broadcasting over the last axis"""
    A, B = np.asarray(A), np.asarray(B)
    if A.ndim == 2:
        A = A[:, :, None]
    if B.ndim == 2:
        B = B[:, :, None]
    return sum(A[:, k, None, :] * B[None, k, :, :] for k in range(3))


def mv3(A, v):
    return sum(A[:, k, :] * v[None, k, :] for k in range(3))


def tr3(A):
    return np.swapaxes(A, 0, 1)


def kwR(axes):
    return {} if AXES[axes] is None else dict(R_Ee=AXES[axes])


def chunks(n, size):
    return [(i, min(n, i + size)) for i in range(0, n, size)]


PARTS = (1, 2, 3, 4, 5, 3, 2, 7, 6, 16, 3, 9, 8)


def whole(fun, *args, **kw):
    return fun(*args, **kw)


def by_parts(fun, *args, **kw):
    """fun called on short pieces (1 to 16 elements) of the arrays, answers joined"""
    n = max(np.shape(a)[-1] for a in args if np.ndim(a))
    out, i, k = [], 0, 0
    while i < n:
        j = min(n, i + PARTS[k % len(PARTS)])
        r = fun(*[a[..., i:j] if np.ndim(a) and np.shape(a)[-1] == n else a for a in args], **kw)
        out.append(r if isinstance(r, tuple) else (r,))
        for v in out[-1]:
            if np.ndim(v) and np.shape(v)[-1] != j - i or np.ndim(v) == 0:
                raise ValueError('answer of shape %s for %d elements' % (np.shape(v), j - i))
        i, k = j, k + 1
    res = tuple(np.concatenate(v, axis=-1) for v in zip(*out))
    return res if isinstance(r, tuple) else res[0]


CALLS = (whole, by_parts)


def pieces(n, rounds=3, first=0):
    """index arrays of sizes 1 to 16, spread over range(n)"""
    out, i = [], first
    for r in range(rounds):
        for k, size in enumerate(PARTS):
            out.append(np.arange(i, i + size * 7, 7) % n)
            i += size * 7 + 11 + r
    return out
