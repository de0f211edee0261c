from mc.common import *

BOUNDS = """latitude alphabet (poles, equator, +-10^-k neighbourhoods, subnormals, even grid) x longitude
alphabet (quadrants, antimeridian, +-10^-k neighbourhoods, several turns, even grid) x Earth axes (default, e, E, two
rational rotations, one permutation) as arrays, a sub-grid as single calls and through the objects; n-vectors on
the integer lattice, at several lengths."""


def tasks(tier):
    lev = 1 if tier == 'quick' else 2
    out = []
    for axes in AXES:
        out.append(('arrays', dict(axes=axes, level=lev)))
        out.append(('lattice_dirs', dict(axes=axes, m=4 if tier == 'quick' else 9)))
        out.append(('near_pole', dict(axes=axes, kmax=15 if tier == 'quick' else 150)))
    lats = alph.lats(lev)
    for axes in AXES:
        step = 10
        for i in range(0, len(lats), step):
            out.append(('single', dict(axes=axes, level=lev, lo=i, hi=i + step)))
    for axes in ('e', 'E'):
        for i in range(0, len(lats), step):
            out.append(('objects_', dict(axes=axes, level=lev, lo=i, hi=i + step)))
    return out


def _tolerances(lat, axes):
    c = np.abs(np.cos(ref.ld(lat)))
    if exact_axes(axes):
        return c
    return None


def _check_n(rec, n, lat, lon, axes):
    want = ref.nvec(lat, lon)
    rec.close(n, toE(axes, want), 24 * EPS, 'n-vector is the outward normal', lat=lat, lon=lon)
    if np.shape(n) != want.shape:
        return
    got = toG(axes, n)
    if exact_axes(axes):
        c = np.abs(np.cos(ref.ld(lat)))
        big = np.maximum(1, np.abs(ref.ld(lon)))
        rec.close(got[:2], want[:2], 24 * EPS * c * big + 1e-320,
                  'equatorial component keeps relative accuracy', lat=lat, lon=lon)
    rec.close(ref.norm(got), np.ones(got.shape[1]), 24 * EPS, 'unit length', lat=lat, lon=lon)


def _check_back(rec, lat2, lon2, lat, lon, axes):
    """lat2, lon2 came from the n-vector of lat, lon"""
    rec.close(lat2, ref.ld(lat), (8 if exact_axes(axes) else 40) * EPS, 'latitude recovered', lat=lat, lon=lon)
    c = np.abs(np.cos(ref.ld(lat)))
    with np.errstate(all='ignore'):
        tol = 24 * EPS * np.maximum(1, np.abs(lon)) if exact_axes(axes) else 48 * EPS * (1 + 1 / c)
    d = ref.wrap(ref.ld(lon2) - ref.ld(lon))
    keep = np.ones(np.shape(d), bool) if exact_axes(axes) else c > 1e-6
    rec.close(np.where(keep, d, 0), np.zeros(np.shape(d)), tol, 'longitude recovered modulo a turn',
              lat=lat, lon=lon, lon2=lon2)
    rec.holds(np.abs(lat2) <= np.pi / 2, 'latitude within [-90, 90] deg', lat=lat, lon=lon, lat2=lat2)
    rec.holds(np.abs(lon2) <= np.pi, 'longitude within [-180, 180] deg', lat=lat, lon=lon, lon2=lon2)


def arrays(rec, axes, level):
    lat, lon = alph.grid(alph.lats(level), alph.lons(level))
    R = R_of(axes)
    rec.cover(states=lat.size, transitions=2 * lat.size, traces=lat.size)
    rec.sample(axes=axes, lat=lat[7], lon=lon[7])
    kw = {} if R is None else dict(R_Ee=R)
    for call in CALLS[::-1]:
        n = call(nv.lat_lon2n_E, lat, lon, **kw)
        _check_n(rec, n, lat, lon, axes)
        lat2, lon2 = call(nv.n_E2lat_lon, n, **kw)
        _check_back(rec, lat2, lon2, lat, lon, axes)
    # from reference n-vectors, at several lengths
    nf = ref.f64(toE(axes, ref.nvec(lat, lon)))
    for scale in (1.0, 0.97, 1.04, 8.0, 2.0 ** -10):
        lat3, lon3 = nv.n_E2lat_lon(nf * scale, **kw)
        rec.cover(transitions=lat.size)
        _check_back(rec, lat3, lon3, lat, lon, axes)
    rec.outcome('poles', np.sum(np.abs(lat2) == np.pi / 2))
    rec.outcome('antimeridian', np.sum(np.abs(lon2) == np.pi))
    rec.outcome('northern', np.sum(lat2 > 0))
    rec.outcome('southern', np.sum(lat2 < 0))


def near_pole(rec, axes, kmax):
    """n-vectors at distance 10^-k from a pole, in 16 directions"""
    if not exact_axes(axes):
        return
    k = np.arange(1, kmax + 1)
    ang = np.radians(np.arange(-180, 180, 22.5) + 0.25)
    kk, aa = np.meshgrid(k, ang, indexing='ij')
    d = 10.0 ** -kk.ravel()
    lon = aa.ravel()
    kw = {} if R_of(axes) is None else dict(R_Ee=R_of(axes))
    for s in (1, -1):
        g = np.stack([d * np.cos(lon), d * np.sin(lon), s * np.sqrt(1 - d ** 2)])
        lat2, lon2 = nv.n_E2lat_lon(ref.f64(toE(axes, g)), **kw)
        wlat, wlon = ref.latlon(ref.ld(g))
        rec.cover(states=d.size, transitions=d.size, traces=d.size)
        rec.close(lat2, wlat, 8 * EPS, 'latitude near the pole', d=d, lon=lon)
        rec.close(ref.wrap(lon2 - wlon), 0 * wlon, 8 * EPS, 'longitude near the pole', d=d, lon=lon)
        n = nv.lat_lon2n_E(s * (np.pi / 2 - d), lon, **kw)
        _check_n(rec, n, s * (np.pi / 2 - d), lon, axes)


def lattice_dirs(rec, axes, m):
    v = lattice(m)
    g = ref.unit(ref.ld(v))
    n = ref.f64(toE(axes, g))
    kw = {} if R_of(axes) is None else dict(R_Ee=R_of(axes))
    lat, lon = nv.n_E2lat_lon(n, **kw)
    wlat, wlon = ref.latlon(g)
    rec.cover(states=v.shape[1], transitions=2 * v.shape[1], traces=v.shape[1])
    rec.close(lat, wlat, 32 * EPS, 'latitude of a lattice direction', v=v)
    off = np.hypot(v[0], v[1]) > 0
    rec.close(np.where(off, ref.wrap(lon - wlon), 0), 0 * wlon, 64 * EPS * m, 'longitude of a lattice direction', v=v)
    rec.holds(np.abs(lon) <= np.pi, 'longitude within [-180, 180] deg', v=v)
    n2 = nv.lat_lon2n_E(lat, lon, **kw)
    rec.close(n2, ref.ld(n), 32 * EPS, 'n-vector recovered from latitude and longitude', v=v)


def single(rec, axes, level, lo, hi):
    kw = {} if R_of(axes) is None else dict(R_Ee=R_of(axes))
    lons = alph.lons(level)[::3 if level == 1 else 2]
    for lat in alph.lats(level)[lo:hi]:
        for lon in lons:
            n = nv.lat_lon2n_E(lat, lon, **kw)
            rec.cover(states=1, transitions=2, traces=1)
            _check_n(rec, n, np.array([lat]), np.array([lon]), axes)
            if np.shape(n) != (3, 1):
                continue
            lat2, lon2 = nv.n_E2lat_lon(n, **kw)
            _check_back(rec, lat2, lon2, np.array([lat]), np.array([lon]), axes)
    for lat in (0, 1, -1):
        for lon in (0, 1, -3, 7):
            n = nv.lat_lon2n_E(lat, lon, **kw)
            rec.cover(states=1, transitions=1, traces=1)
            _check_n(rec, n, np.array([float(lat)]), np.array([float(lon)]), axes)


def objects_(rec, axes, level, lo, hi):
    frame = nv.FrameE(axes=axes)
    lons = alph.lons(level)[::2]
    for lat in alph.lats(level)[lo:hi]:
        la = np.array([lat])
        for lon in lons:
            n = frame.GeoPoint(lat, lon).to_nvector().normal
            _check_n(rec, n, la, np.array([lon]), axes)
            p = frame.Nvector(nE(la, np.array([lon]), axes)).to_geo_point()
            rec.cover(states=1, transitions=2, traces=1)
            rec.ok(is_scalar(p.latitude) and is_scalar(p.longitude), 'single position gives single angles',
                   lat=lat, lon=lon)
            _check_back(rec, np.atleast_1d(p.latitude), np.atleast_1d(p.longitude), la, np.array([lon]), axes)
        lon = np.array(lons)
        lat_ = np.full(lon.shape, lat)
        p = frame.GeoPoint(lat_, lon)
        n = p.to_nvector()
        _check_n(rec, n.normal, lat_, lon, axes)
        q = n.to_geo_point()

        def there_and_back(la, lo):
            r = frame.GeoPoint(la, lo).to_nvector().to_geo_point()
            return r.latitude, r.longitude
        _check_back(rec, *by_parts(there_and_back, lat_, lon), lat_, lon, axes)
        rec.cover(states=lon.size, transitions=2 * lon.size, traces=lon.size)
        _check_back(rec, q.latitude, q.longitude, lat_, lon, axes)
