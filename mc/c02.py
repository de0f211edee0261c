from mc.common import *

BOUNDS = """positions (latitude alphabet x longitude alphabet) x depth alphabet (0, +-10^k from nanometres to
satellite heights) x ellipsoids (sphere, unit sphere, Earth-like, flattening 1/50 and 1/10, prolate) x Earth axes; n-vector
lengths 2^-10..8; depth as scalar, per-position array and default; single calls, arrays and the three objects."""


def tasks(tier):
    q = tier == 'quick'
    out = []
    for ell in (alph.ells(1) if q else alph.ells(2)):
        for axes in AXES:
            out.append(('arrays', dict(ell=ell, axes=axes, level=0 if q else 1)))
        for axes in ('default', 'E'):
            out.append(('single', dict(ell=ell, axes=axes, level=0 if q else 1)))
        for axes in ('e', 'E'):
            out.append(('objects_', dict(ell=ell, axes=axes, level=0 if q else 1)))
    out.append(('defaults', {}))
    return out


def _want(n, z, ell, axes):
    a, f = alph.ELLIPSOIDS[ell]
    return toE(axes, ref.ecef(ref.unit(toG(axes, n)), z, a, f))


def _tol(z, ell):
    a, f = alph.ELLIPSOIDS[ell]
    return 16 * EPS * (a + np.abs(ref.ld(z)))


def arrays(rec, ell, axes, level):
    a, f = alph.ELLIPSOIDS[ell]
    lat, lon = alph.grid(alph.lats(1), alph.lons(level))
    n = nE(lat, lon, axes)
    kw = {} if R_of(axes) is None else dict(R_Ee=R_of(axes))
    depths = [d * (a / 6371009.0 if a < 1000 else 1) for d in alph.depths(level + 1)]
    rec.sample(ell=ell, axes=axes, lat=lat[3], lon=lon[3], depths=depths[:5])
    for i, z in enumerate(depths):
        scale = (1.0, 0.96, 1.07, 8.0, 2.0 ** -10)[i % 5]
        p = nv.n_EB_E2p_EB_E(n * scale, depth=z, a=a, f=f, **kw)
        rec.cover(states=lat.size, transitions=lat.size, traces=lat.size)
        rec.close(p, _want(n, z, ell, axes), _tol(z, ell), 'scalar depth', lat=lat, lon=lon, z=z)
        # depths differing per position
        zz = np.roll(np.resize(np.array(depths), lat.size), i)
        if level:
            zz = zz[None, :] if i % 2 else zz
        for call in CALLS if i % 4 == 0 else CALLS[:1]:
            p = call(nv.n_EB_E2p_EB_E, n, zz, a=a, f=f, **kw)
            rec.cover(states=lat.size, transitions=lat.size, traces=lat.size)
            rec.close(p, _want(n, zz.ravel(), ell, axes), _tol(zz.ravel(), ell), 'depth per position',
                      lat=lat, lon=lon, z=zz)
        rec.outcome('above', np.sum(zz < 0))
        rec.outcome('below', np.sum(zz > 0))
        # several positions at one depth, given as an array
        for call in (CALLS[i % len(CALLS)], CALLS[0]):
            zc = np.full(lat.size, z)
            p = call(nv.n_EB_E2p_EB_E, n, zc[None, :] if i % 2 else zc, a=a, f=f, **kw)
            rec.cover(states=lat.size, transitions=lat.size, traces=lat.size)
            rec.close(p, _want(n, zc, ell, axes), _tol(zc, ell), 'equal depths', lat=lat, lon=lon, z=z)
        for ix in pieces(lat.size, i, i):
            p = nv.n_EB_E2p_EB_E(n[:, ix], np.full(ix.size, z), a=a, f=f, **kw)
            rec.cover(states=ix.size, transitions=ix.size, traces=ix.size)
            rec.close(p, _want(n[:, ix], z, ell, axes), _tol(z, ell), 'equal depths, short arrays', lat=lat[ix], lon=lon[ix], z=z)
    p = nv.n_EB_E2p_EB_E(n, a=a, f=f, **kw)
    rec.close(p, _want(n, 0, ell, axes), _tol(0, ell), 'default depth', lat=lat, lon=lon)


def single(rec, ell, axes, level):
    a, f = alph.ELLIPSOIDS[ell]
    sc = a / 6371009.0 if a < 1000 else 1
    kw = {} if R_of(axes) is None else dict(R_Ee=R_of(axes))
    for lat in alph.lats(level):
        for lon in alph.lons(0)[::2]:
            n = nE([lat], [lon], axes)
            for z in (0, 0.0, -8848.0 * sc, 1234.5 * sc, -4e7 * sc):
                p = nv.n_EB_E2p_EB_E(n, z, a, f, **kw)
                rec.cover(states=1, transitions=1, traces=1)
                rec.close(p, _want(n, z, ell, axes), _tol(z, ell), 'single position', lat=lat, lon=lon, z=z)


def objects_(rec, ell, axes, level):
    a, f = alph.ELLIPSOIDS[ell]
    sc = a / 6371009.0 if a < 1000 else 1
    frame = frameE(ell, axes)
    lats, lons = alph.lats(level), alph.lons(0)
    for i, lat in enumerate(lats):
        for lon in lons[i % 3::3]:
            for z in (0, -8848.0 * sc, 1234.5 * sc):
                want = toE(axes, ref.ecef(ref.nvec([lat], [lon]), z, a, f))
                g = frame.GeoPoint(lat, lon, z)
                for how, e in (('GeoPoint', g.to_ecef_vector()), ('Nvector', g.to_nvector().to_ecef_vector())):
                    rec.cover(states=1, transitions=1, traces=1)
                    rec.close(e.pvector, want, 2 * _tol(z, ell), how + '.to_ecef_vector', lat=lat, lon=lon, z=z)
                    rec.ok(e.frame == frame and e.scalar, how + ' frame and scalar kept', lat=lat, lon=lon)
    lat, lon = alph.grid(lats, lons)
    zz = np.resize(np.array(alph.depths(1)) * sc, lat.size)
    want = toE(axes, ref.ecef(ref.nvec(lat, lon), zz, a, f))
    g = frame.GeoPoint(lat, lon, zz)
    for how, e in (('GeoPoint', g.to_ecef_vector()), ('Nvector', g.to_nvector().to_ecef_vector())):
        rec.cover(states=lat.size, transitions=lat.size, traces=lat.size)
        rec.close(e.pvector, want, 2 * _tol(zz, ell), how + '.to_ecef_vector arrays', lat=lat, lon=lon, z=zz)
    p = by_parts(lambda la, lo, z: frame.GeoPoint(la, lo, z).to_ecef_vector().pvector, lat, lon, zz)
    rec.close(p, want, 2 * _tol(zz, ell), 'GeoPoint.to_ecef_vector short arrays', lat=lat, lon=lon, z=zz)
    d = np.degrees
    e = frame.GeoPoint(d(lat), d(lon), zz, degrees=True).to_ecef_vector()
    want = toE(axes, ref.ecef(ref.nvec(d(lat) * (ref.PI / 180), d(lon) * (ref.PI / 180)), zz, a, f))
    big = np.maximum(1, np.abs(lon))
    rec.close(e.pvector, want, 2 * big * _tol(zz, ell), 'GeoPoint in degrees', lat=lat, lon=lon, z=zz)


def defaults(rec):
    lat, lon = alph.grid(alph.lats(1), alph.lons(0))
    n = nE(lat, lon, 'e')
    rec.cover(states=lat.size, transitions=2 * lat.size, traces=lat.size)
    rec.close(nv.n_EB_E2p_EB_E(n), _want(n, 0, 'wgs84', 'e'), _tol(0, 'wgs84'), 'WGS-84 by default')
    rec.close(nv.GeoPoint(lat, lon).to_ecef_vector().pvector, _want(n, 0, 'wgs84', 'e'), 2 * _tol(0, 'wgs84'),
              'WGS-84 by default (object)')
    rec.close(nv.Nvector(n).to_ecef_vector().pvector, _want(n, 0, 'wgs84', 'e'), 2 * _tol(0, 'wgs84'),
              'WGS-84 by default (Nvector)')
