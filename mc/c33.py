from mc.ops import *
from mc.c18 import layout
from mc import c32

BOUNDS = """every operation of the catalogue that has a length among its arguments or answers, and the mean and track operations x every unit out of 2^k m (k from -40 to 40), mm, inch,
feet, km, nautical mile, Earth radius, Sun radius, astronomical unit x the table of elements and all ordered pairs of places on special meridians and parallels x ellipsoids x axes
x single and array form: semi-axis, depths, distances, radii, Cartesian components and length tolerances are all given in that unit. Oracle: the same call in metres."""

UNITS = {'mm': 1e3, 'inch': 1 / 0.0254, 'foot': 1 / 0.3048, 'km': 1e-3, 'nautical mile': 1 / 1852.0, 'Earth radius': 1 / 6378137.0, 'Earth as the Sun': 109.1,
         'astronomical unit': 1 / 149597870700.0, 'nm': 1e9}
LENGTHS = ('v', 'l', 'm', 'z', 'z0')
SKIP = ('GeoPath_on_path_ellipsoid',)   # its one tolerance is for lengths and angles alike


def get(name):
    return c32.get(name)


def scaled(p, v, sc):
    if p in ('z', 'z2', 's', 'p', 'dp'):
        return v * sc
    if p[0] == 'P':
        v = np.array(v, dtype=float)
        v[2] *= sc
        return v
    return v


def matters(name):
    return name in c32.ROLES and name not in SKIP and name not in ('lat_lon2n_E', 'n_E2lat_lon', 'great_circle_normal', 'n_E2R_EN', 'n_E_and_wa2R_EL', 'R_EN2n_E', 'R_EL2n_E',
                                                                   'closest_point_on_great_circle', 'intersect', 'interpolate')


def tasks(tier):
    q = tier == 'quick'
    out = []
    powers = list(range(-40, 41, 8 if q else 1))
    for name in list(OPS) + list(c32.EXTRA):
        if not matters(name):
            continue
        for ell in ('wgs84', 'sphere', 'flat50') if q else ('wgs84', 'sphere', 'flat50', 'prolate', 'mars', 'flat10'):
            for axes in ('e', 'E'):
                for which in ('elements', 'pairs'):
                    if which == 'pairs' and not set(get(name).params) <= c32.PAIROPS:
                        continue
                    out.append(('units', dict(name=name, ell=ell, axes=axes, which=which, powers=powers, E=32 if q else 320)))
    for ell in ('sphere', 'wgs84', 'flat50'):
        out.append(('nearest', dict(ell=ell, powers=powers, full=not q)))
    return out


def back(out, sc):
    return [(k, v / sc if k in LENGTHS else v, note) for k, v, note in out]


def units(rec, name, ell, axes, which, powers, E):
    rec.context = dict(op=name, ellipsoid=ell, axes=axes, table=which)
    o = get(name)
    el = c32.table(which, E)
    n = c32.size(el)
    every = [(repr(k), 2.0 ** k) for k in powers] + list(UNITS.items())
    forms = [('array', False, slice(0, n), n)] if not o.onlysingle else []
    if name in c32.EXTRA and 't' not in o.params:
        forms = [('array', False, slice(0, 1), 1)]
    else:
        forms += [('single', True, slice(i, i + 1), 1) for i in (range(0, n, max(1, n // 6)) if not o.onlysingle else range(min(n, 24)))]
    for form, one, idx, k in forms:
        vals = c32.vals_of(o, el, idx)
        want = o.run(Cx(axes=axes, ell=ell, single=one), vals, k)
        if form == 'array':
            for kind, v, _ in want:
                rec.outcome('%s defined' % kind, np.sum(np.isfinite(v)))
        for unit, sc in every:
            got = o.run(Cx(axes=axes, ell=ell, single=one, sc=sc), [scaled(p, v, sc) for p, v in zip(o.params, vals)], k)
            roles = c32.ROLES[name].split()
            g, w = back(got, sc), list(want)
            for i, r in enumerate(roles):
                if r in ('vN', 'vL') and roles[i + 2:i + 3] == ['az' + r[1]]:
                    v = np.asarray(w[i][1])
                    none = np.hypot(v[0], v[1]) < 1e-6 * np.abs(v[2])
                    for j in range(i + 2, len(roles)):
                        if roles[j] == 'az' + r[1]:
                            g[j] = (g[j][0], np.where(none, np.nan, g[j][1]), g[j][2])
                            w[j] = (w[j][0], np.where(none, np.nan, w[j][1]), w[j][2])
                        elif roles[j] in ('vN', 'vL'):
                            break
            c32.same2(rec, g, w, '%s form in another unit' % form, 100.0, 1.0, unit=unit, element=-1 if one is False else idx.start)
            rec.cover(states=k, transitions=1, traces=1)
    rec.sample(op=name, ellipsoid=ell, units=[u for u, _ in every])


def nearest(rec, ell, powers, full):
    """points on the segment, next to it, beyond it: nearest point and membership"""
    a, f = alph.ELLIPSOIDS[ell]
    starts = [(10.0, -5.0, 40.0, 60.0), (0.0, 170.0, 0.0, -160.0), (-70.0, 20.0, -20.0, 21.0), (60.0, 100.0, 60.0, 101.0), (5.0, 5.0, 80.0, 175.0)]
    for unit, sc in [(repr(k), 2.0 ** k) for k in powers] + list(UNITS.items()):
        fr = nv.FrameE(a=a * sc, f=f)
        for s, (la, lo, lb, lob) in enumerate(starts):
            A, B = fr.GeoPoint(la, lo, -100.0 * sc, degrees=True), fr.GeoPoint(lb, lob, 300.0 * sc, degrees=True)
            path = nv.GeoPath(A, B)
            n1, n2 = ref.nvec(*np.radians([[la], [lo]])), ref.nvec(*np.radians([[lb], [lob]]))
            c = ref.unit(ref.cross(n1, n2))
            d = ref.cross(c, n1)
            whole = float(ref.angle(n1, n2)[0])
            for frac in (-0.2, 0.03, 0.21, 0.5, 0.77, 0.98, 1.3):
                for off in (0.0, 1e-3, -0.2):
                    q = (n1 * np.cos(whole * frac) + d * np.sin(whole * frac)) * np.cos(off) + c * np.sin(off)
                    P = fr.Nvector(ref.f64(q), z=100.0 * sc)
                    near = path.closest_point_on_path(P)
                    g = min(1.0, max(0.0, frac))
                    want = n1 * np.cos(whole * g) + d * np.sin(whole * g)
                    got = ref.nvec(np.array([float(near.latitude)]), np.array([float(near.longitude)]))
                    # the nearer end beyond the ends
                    rec.close(ref.f64(ref.angle(got, want)), np.zeros(1), 1e-14 if off == 0 else 1e-11, 'nearest point in another unit', unit=unit, path=s, fraction=frac, off=off)
                    rec.holds(bool(np.all(path.on_path(P, atol=1e-4 * sc))) == (off == 0 and 0 <= frac <= 1), 'on the path in another unit', unit=unit, path=s, fraction=frac, off=off)
                    rec.close(np.ravel(path.cross_track_distance(P, radius=a * sc)) / sc, -a * np.array([off]), 1e-7, 'cross-track distance in another unit', unit=unit, path=s,
                              fraction=frac, off=off)
                    if off == 0 and 0 <= frac <= 1:
                        for tol in (1e-2, 1.0, 30.0):
                            for part in (-2.0, -0.5, 0.6, 1.5):
                                Q = fr.Nvector(ref.f64(q), z=(100.0 + part * tol) * sc)
                                rec.holds(bool(np.all(path.on_path(Q, rtol=1e-12, atol=tol * sc))) == (abs(part) < 1), 'depth within the tolerance in another unit', unit=unit, path=s,
                                          fraction=frac, tolerance=tol, part=part)
                    rec.cover(states=1, transitions=3, traces=1)
                    rec.outcome('on' if off == 0 and 0 <= frac <= 1 else 'off')
