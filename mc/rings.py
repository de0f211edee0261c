"""Great circles as rings: orthonormal triples (u, v, w), w = u x v to the left of travel from u towards v."""
from mc.common import *


def rings(level):
    out = []
    for k, M in enumerate(octahedral()):
        if level or k % 3 == 0:
            out.append(('octahedral%d' % k, np.array(M, dtype=np.longdouble)))
    for name in ('R1', 'R2'):
        out.append((name, ref.ld(np.round(AXES[name] * {'R1': 3, 'R2': 7}[name])) / {'R1': 3, 'R2': 7}[name]))
    lla = [(0.0, 0.0, 0.3), (51.0, 1.0, 1.5708), (-33.0, 179.99, 1.6), (89.9999, 20.0, 2.0), (-60.0, -120.0, -0.4), (10.0, 90.0, 3.1)]
    if level:
        lla += [(la, lo, az) for la in (0.0, 45.0, -80.0, 1e-7) for lo in (30.0, -179.0, 180.0) for az in (0.0, 1.0, -1.4, 3.0)]
    for la, lo, az in lla:
        g = ref.nvec(np.radians(la), np.radians(lo))
        n, e, _ = ref.ned(np.radians(la), np.radians(lo))
        d = n * np.cos(ref.ld(az)) + e * np.sin(ref.ld(az))
        out.append(('%g,%g,%g' % (la, lo, az), np.stack([g, d, ref.cross(g, d)], axis=1)))
    return out


def at(M, along, right=0.0):
    """position (g, longdouble 3 x n) at an angle along the ring and an angle to the right of it"""
    al, be = np.broadcast_arrays(np.atleast_1d(ref.ld(along)), np.atleast_1d(ref.ld(right)))
    u, v, w = M[:, 0:1], M[:, 1:2], M[:, 2:3]
    return np.cos(be) * (np.cos(al) * u + np.sin(al) * v) - np.sin(be) * w


def emb(axes, g):
    return ref.f64(toE(axes, g))
