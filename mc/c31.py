import itertools
import warnings
from mc.ops import *

BOUNDS = """every operation that takes n-vectors x positions x axes x lengths 1 +- d for d from 0 over both sides of the documented limit 0.1 to 1e6, negative, tiny x single/array
with any one column off; every operation of the catalogue x elements x axes x ellipsoids x single/array calls on valid unit n-vectors; all pairs of lattice paths;
every deprecated name and its replacement; every order of two calls (a warning is given each time). Oracle: the documented condition. Only warnings of the library's own
categories (UserWarning, DeprecationWarning and their kin) count, not numpy's remarks on arithmetic."""


def heard(fn):
    """(answer, own warnings)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        ans = fn()
    return ans, [x for x in w if not issubclass(x.category, RuntimeWarning)]


def kinds(w):
    return sorted({x.category.__name__ for x in w})


# operation -> (call on a unit n-vector n (3,k) and another one, compare answers of the unit and the long vector)
def takers(axes):
    kw = kwR(axes)
    fr = frameE('wgs84', axes)
    m = nE([0.3], [1.1], axes)
    return {
        'n_EB_E2p_EB_E': lambda n: nv.n_EB_E2p_EB_E(n, 12.0, **kw),
        'n_E2lat_lon': lambda n: nv.n_E2lat_lon(n, **kw),
        'n_E2R_EN': lambda n: nv.n_E2R_EN(n, **kw),
        'n_E_and_wa2R_EL': lambda n: nv.n_E_and_wa2R_EL(n, 0.3, **kw),
        'delta from': lambda n: nv.n_EA_E_and_n_EB_E2p_AB_E(n, m, **kw),
        'delta to': lambda n: nv.n_EA_E_and_n_EB_E2p_AB_E(m, n, **kw),
        'add delta': lambda n: nv.n_EA_E_and_p_AB_E2n_EB_E(n, np.array([[1e3], [2e3], [-3e3]]), **kw),
        'azimuth': lambda n: nv.n_EA_E_and_n_EB_E2azimuth(n, m, **kw),
        'azimuth from': lambda n: nv.n_EA_E_and_n_EB_E2azimuth(m, n, **kw),
        'Nvector.to_ecef_vector': lambda n: fr.Nvector(n, 5.0).to_ecef_vector().pvector,
        'Nvector.to_geo_point': lambda n: fr.Nvector(n, 5.0).to_geo_point().latlon,
        'FrameN.R_EN': lambda n: nv.FrameN(fr.Nvector(n, 5.0)).R_EN,
        'FrameL.R_EN': lambda n: nv.FrameL(fr.Nvector(n, 5.0), 0.4).R_EN,
        'FrameB.R_EN': lambda n: nv.FrameB(fr.Nvector(n, 5.0), 0.4, 0.1, 0.2).R_EN,
        'delta_N': lambda n: nv.delta_N(fr.Nvector(n, 5.0), fr.Nvector(m, 6.0)).pvector,
        'delta_E': lambda n: nv.delta_E(fr.Nvector(m, 5.0), fr.Nvector(n, 6.0)).pvector,
    }


LENGTHS = [0.0] + [s * d for d in (1e-16, 1e-9, 1e-3, 0.01, 0.05, 0.09, 0.0999, 0.0999999) for s in (1, -1)]
OFF = [s * d for d in (0.1000001, 0.101, 0.11, 0.2, 0.5, 0.9, 0.999) for s in (1, -1)] + [1.0, 10.0, 1e6]


def tasks(tier):
    big = tier != 'quick'
    out = [('lengths', dict(axes=ax, big=big, part=i)) for ax in 'eE' for i in range(4)]
    out += [('valid', dict(axes=ax, ell=ell, big=big)) for ax in 'eE' for ell in (['wgs84', 'sphere'] if not big else [k for k in alph.ELLIPSOIDS if k != 'unit'])]
    out += [('crossings', dict(m=2 if not big else 4, part=i)) for i in range(8)]
    out.append(('deprecated', {}))
    return out


def lengths(rec, axes, big, part):
    T = takers(axes)
    pos = [(0.0, 0.0), (0.7, -2.0), (np.pi / 2, 0.0), (-np.pi / 2, 1.0), (-0.3, np.pi)] + ([(a, b) for a in (-1.2, -0.1, 0.4, 1.5) for b in (-3.0, -0.5, 0.0, 1.6)] if big else [])
    for lat, lon in pos[part::4]:
        n = nE([lat], [lon], axes)
        three = nE([lat, 0.2, -0.9], [lon, 2.0, 0.1], axes)
        for name, fn in T.items():
            unitary, w = heard(lambda: fn(n))
            rec.ok(not w, 'no warning for a unit n-vector', op=name, lat=lat, lon=lon, got=kinds(w))
            for d in LENGTHS + OFF:
                m = n * (1 + d)
                keep = m.copy()
                ans, w = heard(lambda: fn(m))
                rec.ok(bool(w) == (d in OFF), 'warned exactly when the length is off by more than 0.1', op=name, length=1 + d, lat=lat, lon=lon, got=kinds(w))
                rec.ok(all(issubclass(x.category, UserWarning) for x in w), 'the category of the warning', op=name, got=kinds(w))
                rec.ok(np.array_equal(m, keep), 'the n-vector handed over is left alone', op=name)
                for g, u in zip(ans if isinstance(ans, tuple) else (ans,), unitary if isinstance(unitary, tuple) else (unitary,)):
                    if abs(lat) > 1.57:
                        break               # azimuths at a pole depend on the rounding of the n-vector
                    g, u = np.asarray(g, dtype=float), np.asarray(u, dtype=float)
                    if 'zimuth' in name or 'lat' in name or 'geo' in name:
                        g, u = np.stack([np.cos(g), np.sin(g)]), np.stack([np.cos(u), np.sin(u)])
                    rec.close(g, u, 1e-13 if np.max(np.abs(u)) < 4 else 2e-7, 'the answer depends on the direction only', op=name)
                rec.cover(states=1, transitions=1, traces=1)
                rec.outcome('warned' if w else 'silent')
                # arrays: the first n-vector is the one that is looked at
                m = three.copy()
                m[:, 0] *= 1 + d
                _, w = heard(lambda: fn(m))
                rec.ok(bool(w) == (d in OFF), 'arrays: warned exactly when the first length is off by more than 0.1', op=name, length=1 + d, got=kinds(w))
                rec.cover(states=1, transitions=1)
            # any number of n-vectors
            for k in list(range(2, 40)) + [64, 100, 101, 128, 256, 257, 1000, 1001, 4097]:
                many = np.repeat(three, -(-k // 3), axis=1)[:, :k]
                _, w = heard(lambda: fn(many))
                rec.ok(not w, 'no warning for any number of unit n-vectors', op=name, count=k, got=kinds(w))
                for length in (0.8, 1.2):
                    _, w = heard(lambda: fn(many * length))
                    rec.ok(bool(w), 'any number of n-vectors: warned when their length is off', op=name, count=k)
                rec.cover(states=1, transitions=3)
            # a warning is given each time, also after a valid call
            for seq in itertools.product((0, 1), repeat=4):
                for s in seq:
                    _, w = heard(lambda: fn(n * (1 + 0.5 * s)))
                    rec.ok(bool(w) == bool(s), 'warned each time', op=name, sequence=seq)
                    rec.cover(transitions=1)
    rec.sample(axes=axes, operations=list(T))


def valid(rec, axes, ell, big):
    el = elements(48 if big else 24)
    skip = {'Nvector_arithmetic', 'Nvector_scaled'}      # their n-vectors are sums and multiples
    E = el['lat'].shape[-1]
    for name, o in OPS.items():
        if name in skip:
            continue
        for deg, k in itertools.product((False, True), (1, 3)):
            if k > 1 and o.onlysingle:
                continue
            for i in range(0, E, k):
                cx = Cx(axes, ell, deg, single=k == 1)
                vals = [take(el, p, list(range(i, i + k))) for p in o.params]
                ans, w = heard(lambda: o.run(cx, vals, k))
                rec.ok(not w, 'no warning for valid input', op=name, deg=deg, first=i, count=k, got=[str(x.message)[:60] for x in w][:2])
                rec.cover(states=1, transitions=1, traces=1)
    rec.sample(axes=axes, ell=ell, operations=len(OPS) - len(skip))


def crossings(rec, m, part):
    """warned exactly when the two great circles coincide"""
    # unit vectors along the axes: all computations are exact
    iv = [tuple(s * int(j == k) for j in range(3)) for k in range(3) for s in (1, -1)]
    g = [np.array(v, dtype=float)[:, None] for v in iv]

    def cr(a, b):
        return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    quads = list(itertools.product(range(6), repeat=4))
    fr = frameE('sphere', 'e')
    for q in quads[part::8]:
        a, b, c, d = (iv[i] for i in q)
        n1, n2 = cr(a, b), cr(c, d)
        same = cr(n1, n2) == (0, 0, 0)
        A, B, C, D = (g[i] for i in q)
        ans, w = heard(lambda: nv.intersect((A, B), (C, D)))
        rec.ok(bool(w) == same, 'warned exactly when the intersection is undefined', path_a=[a, b], path_b=[c, d], got=kinds(w))
        rec.ok(bool(np.isnan(ans).any()) == same, 'undefined exactly then', path_a=[a, b], path_b=[c, d])
        pa, pb = nv.GeoPath(fr.Nvector(A), fr.Nvector(B)), nv.GeoPath(fr.Nvector(C), fr.Nvector(D))
        X, w = heard(lambda: pa.intersect(pb))
        rec.ok(bool(w) == same and all(issubclass(x.category, UserWarning) and not issubclass(x.category, DeprecationWarning) for x in w),
               'warned exactly when the intersection of two paths is undefined', path_a=[a, b], path_b=[c, d], got=kinds(w))
        for o in ((0, 2, 0, 4), (0, 2, 2, 0), (4, 1, 3, 2), (1, 0, 2, 4)):
            other = cr(cr(iv[o[0]], iv[o[1]]), cr(iv[o[2]], iv[o[3]])) == (0, 0, 0)
            for first in (True, False):
                H = [np.hstack([x, g[k]] if first else [g[k], x, x]) for x, k in zip((A, B, C, D), o)]
                ans, w = heard(lambda: nv.intersect((H[0], H[1]), (H[2], H[3])))
                rec.ok(bool(w) == (same or other), 'arrays: warned exactly when any intersection is undefined', path_a=[a, b], path_b=[c, d], other=o, got=kinds(w))
                X, w = heard(lambda: nv.GeoPath(fr.Nvector(H[0]), fr.Nvector(H[1])).intersect(nv.GeoPath(fr.Nvector(H[2]), fr.Nvector(H[3]))))
                rec.ok(bool(w) == (same or other), 'arrays of paths: warned exactly when any intersection is undefined', path_a=[a, b], path_b=[c, d], other=o, got=kinds(w))
                rec.cover(states=1, transitions=2, traces=2)
        rec.outcome('undefined' if same else 'defined')
        rec.cover(states=1, transitions=3, traces=1)
    # any path with itself and with its reverse, any two paths of a lattice that certainly cross
    V = lattice(m)
    V = V / np.sqrt((V**2).sum(axis=0))
    for i, j in list(itertools.combinations(range(V.shape[1]), 2))[part::8]:
        A, B = V[:, i:i + 1], V[:, j:j + 1]
        if np.allclose(A, B):
            continue
        for path_b, undefined in (((A, B), True), ((B, A), True), ((A, np.cross(A, B, axis=0) + A), np.allclose(A, -B))):
            if path_b[1] is not B and path_b[1] is not A:
                if np.allclose(A, -B):
                    continue
                path_b = (A, path_b[1] / np.sqrt((path_b[1]**2).sum()))
            _, w = heard(lambda: nv.intersect((A, B), path_b))
            rec.ok(bool(w) == undefined, 'warned exactly when the intersection is undefined', a=A.ravel().tolist(), b=B.ravel().tolist(), same=undefined, got=kinds(w))
            rec.cover(states=1, transitions=1, traces=1)
    rec.sample(quadruples=len(quads), lattice=V.shape[1])


def deprecated(rec):
    fr = nv.FrameE()
    p, q = fr.GeoPoint(0.1, 0.2, 3), fr.GeoPoint(-0.4, 1.2, 4)
    r, s = fr.GeoPoint(0.4, 0.3), fr.GeoPoint(-0.6, 0.9)
    path, other = nv.GeoPath(p, q), nv.GeoPath(r, s)
    N = fr.Nvector(nE([0.1, 0.2], [0.3, 0.4]), np.array([1.0, 2.0]))
    old = {'positionA': lambda: path.positionA, 'positionB': lambda: path.positionB, 'intersection': lambda: path.intersection(other),
           'diff_positions': lambda: nv.diff_positions(p, q), 'mean_horizontal_position': lambda: N.mean_horizontal_position(),
           'select_ellipsoid': lambda: nv.select_ellipsoid('wgs84')}
    new = {'point_a': lambda: path.point_a, 'point_b': lambda: path.point_b, 'intersect': lambda: path.intersect(other), 'delta_E': lambda: nv.delta_E(p, q),
           'mean': lambda: N.mean(), 'get_ellipsoid': lambda: nv.get_ellipsoid('wgs84'), 'function': lambda: nv.mean_horizontal_position(N.normal)}
    both = dict(old, **new)
    for seq in itertools.product(both, repeat=3):
        for name in seq:
            _, w = heard(both[name])
            rec.ok(bool(w) == (name in old), 'deprecated names, and only they, say so, each time', name=name, sequence=seq, got=kinds(w))
            rec.ok(all(issubclass(x.category, DeprecationWarning) for x in w), 'deprecated names give a DeprecationWarning', name=name, got=kinds(w))
            rec.cover(transitions=1)
        rec.cover(states=1, traces=1)
    rec.sample(deprecated=list(old), replacements=list(new))
