from mc.common import *

BOUNDS = """Cartesian positions = (direction alphabet: latitude x longitude alphabets, and the whole integer
lattice [-m,m]^3) x radii from 0.22 to 2.5e4 Earth radii (incl. exactly on the surface) x ellipsoids x Earth axes, as
arrays, single calls and through the objects. Oracle: the answer is put through the textbook forward formula and must
give the position back, with unit n-vector pointing to the same side."""


def tasks(tier):
    q = tier == 'quick'
    out = []
    for ell in ['wgs84', 'sphere', 'prolate', 'unit', 'clarke1880'] if q else \
            ['wgs84', 'sphere', 'prolate', 'unit', 'clarke1880', 'flat50', 'mars', 'airy']:
        for axes in AXES:
            out.append(('heights', dict(ell=ell, axes=axes, level=1 if q else 2)))
            out.append(('radii', dict(ell=ell, axes=axes, m=4 if q else 8)))
        for axes in ('default', 'E'):
            out.append(('single', dict(ell=ell, axes=axes, level=0 if q else 1)))
        for axes in ('e', 'E'):
            out.append(('objects_', dict(ell=ell, axes=axes, level=0 if q else 1)))
    out.append(('defaults', {}))
    return out


def _check(rec, n, depth, p, ell, axes, msg):
    """n, depth is an answer for Cartesian position p"""
    a, f = alph.ELLIPSOIDS[ell]
    p = ref.ld(p)
    if np.shape(n) != p.shape or np.shape(depth) != p.shape[1:]:
        return rec.fail(msg + ': wrong shape', n=np.shape(n), depth=np.shape(depth), p=p.shape)
    size = ref.norm(p)
    rec.close(ref.norm(ref.ld(n)), np.ones(p.shape[1]), 16 * EPS, msg + ': unit length', p=ref.f64(p))
    g = toG(axes, n)
    back = toE(axes, ref.ecef(g, depth, a, f))
    # the conditioning of the closed form degrades towards the centre
    tol = 64 * EPS * (a + size) * (1 + (a / size) ** 2)
    rec.close(back, p, tol, msg + ': position reproduced', p=ref.f64(p))
    rec.holds(ref.dot(ref.ld(n), p) > 0, msg + ': outward normal', p=ref.f64(p), n=n)
    # below the surface exactly when inside the ellipsoid
    pg = toG(axes, p)
    lev = (pg[0] ** 2 + pg[1] ** 2) / ref.LD(a) ** 2 + (pg[2] / (ref.LD(a) * (1 - ref.LD(f)))) ** 2 - 1
    sure = np.abs(lev) > 1e-11
    rec.holds(~sure | ((lev > 0) == (np.asarray(depth) < 0)), msg + ': depth negative above and positive below',
              p=ref.f64(p), depth=depth)
    rec.outcome('above', np.sum(sure & (lev > 0)))
    rec.outcome('below', np.sum(sure & (lev < 0)))
    rec.outcome('surface', np.sum(~sure))


def _kw(ell, axes):
    a, f = alph.ELLIPSOIDS[ell]
    kw = dict(a=a, f=f)
    if R_of(axes) is not None:
        kw['R_Ee'] = R_of(axes)
    return kw


def heights(rec, ell, axes, level):
    a, f = alph.ELLIPSOIDS[ell]
    sc = a / 6371009.0 if a < 1000 else 1
    lat, lon = alph.grid(alph.lats(level), alph.lons(0))
    for z in alph.depths(level) + [-1e9, -3.8e8]:
        p = ref.f64(toE(axes, ref.ecef(ref.nvec(lat, lon), z * sc, a, f)))
        for call in CALLS:
            n, depth = call(nv.p_EB_E2n_EB_E, p, **_kw(ell, axes))
            rec.cover(states=lat.size, transitions=lat.size, traces=lat.size)
            _check(rec, n, depth, p, ell, axes, 'geodetic grid')
    rec.sample(ell=ell, axes=axes, lat=lat[5], lon=lon[5])


def radii(rec, ell, axes, m):
    a, f = alph.ELLIPSOIDS[ell]
    g = ref.unit(ref.ld(lattice(m)))
    b = a * (1 - f)
    for r in [0.22 * a, 0.3 * a, 0.5 * a, 0.9 * a, b, a, 1.01 * a, 2.0 * a, 6.6 * a, 60 * a, 2.5e4 * a]:
        p = ref.f64(toE(axes, g * ref.LD(r)))
        n, depth = nv.p_EB_E2n_EB_E(p, **_kw(ell, axes))
        rec.cover(states=p.shape[1], transitions=p.shape[1], traces=p.shape[1])
        _check(rec, n, depth, p, ell, axes, 'integer lattice')


def single(rec, ell, axes, level):
    a, f = alph.ELLIPSOIDS[ell]
    sc = a / 6371009.0 if a < 1000 else 1
    for lat in alph.lats(level):
        for lon in alph.lons(0)[::2]:
            for z in (0, -8848.0 * sc, 1e5 * sc, -4e7 * sc):
                p = ref.f64(toE(axes, ref.ecef(ref.nvec([lat], [lon]), z, a, f)))
                n, depth = nv.p_EB_E2n_EB_E(p, **_kw(ell, axes))
                rec.cover(states=1, transitions=1, traces=1)
                _check(rec, n, depth, p, ell, axes, 'single')


def objects_(rec, ell, axes, level):
    a, f = alph.ELLIPSOIDS[ell]
    sc = a / 6371009.0 if a < 1000 else 1
    frame = frameE(ell, axes)
    lat, lon = alph.grid(alph.lats(level), alph.lons(0))
    zz = np.resize(np.array(alph.depths(1)) * sc, lat.size)
    p = ref.f64(toE(axes, ref.ecef(ref.nvec(lat, lon), zz, a, f)))
    e = frame.ECEFvector(p)
    v = e.to_nvector()
    _check(rec, v.normal, v.z, p, ell, axes, 'ECEFvector.to_nvector')
    _check(rec, *by_parts(lambda w: (lambda r: (r.normal, np.atleast_1d(r.z)))(frame.ECEFvector(w).to_nvector()), p), p, ell, axes, 'ECEFvector.to_nvector short arrays')
    q = e.to_geo_point()
    _check(rec, nE(q.latitude, q.longitude, axes), q.z, p, ell, axes, 'ECEFvector.to_geo_point')
    rec.ok(v.frame == frame and q.frame == frame, 'frame kept')
    rec.cover(states=lat.size, transitions=2 * lat.size, traces=lat.size)
    for i in range(0, lat.size, 3):
        pi = p[:, i:i + 1]
        e = frame.ECEFvector(pi)
        v, q = e.to_nvector(), e.to_geo_point()
        rec.cover(states=1, transitions=2, traces=1)
        rec.ok(is_scalar(v.z) and is_scalar(q.z) and is_scalar(q.latitude) and is_scalar(q.longitude),
               'single position gives single coordinates', p=pi)
        _check(rec, v.normal, np.atleast_1d(v.z), pi, ell, axes, 'ECEFvector.to_nvector single')
        _check(rec, nE(np.atleast_1d(q.latitude), np.atleast_1d(q.longitude), axes), np.atleast_1d(q.z), pi, ell,
               axes, 'ECEFvector.to_geo_point single')


def defaults(rec):
    lat, lon = alph.grid(alph.lats(1), alph.lons(0))
    a, f = alph.ELLIPSOIDS['wgs84']
    p = ref.f64(toE('e', ref.ecef(ref.nvec(lat, lon), 77.0, a, f)))
    n, depth = nv.p_EB_E2n_EB_E(p)
    rec.cover(states=lat.size, transitions=2 * lat.size, traces=lat.size)
    _check(rec, n, depth, p, 'wgs84', 'e', 'WGS-84 by default')
    v = nv.ECEFvector(p).to_nvector()
    _check(rec, v.normal, v.z, p, 'wgs84', 'e', 'WGS-84 by default (object)')
