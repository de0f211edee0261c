from mc.common import *

BOUNDS = """start alphabet (latitudes x longitudes, polar neighbourhoods, exact poles) x azimuth alphabet x distances (0, 1e-9 rad
.. several turns, either sign) x axes, functional (array, single) and on spherical frames through GeoPoint.displace and
distance_and_azimuth (depths, degrees); closed finite model: the 24 states (octahedral position, heading) with quarter-turn
legs and right-angle turns, every leg sequence up to a depth executed on the library with its own azimuths fed back."""


def dists(level):
    p = np.pi
    out = [0.0, 1e-9, -3e-10, 1e-11, 1e-4, 0.3, p / 2, 2.0, 3.1, p, 4.0, 2 * p, 6.9, -0.5, -4.0, 25.0]
    if level:
        out += [1e-12, 1e-6, p / 2 + 1e-9, p - 1e-9, p + 1e-6, 3 * p / 2, -p / 2, -1e-5, -40.0, 12.0, 2 * p + 1e-3]
    return out


def tasks(tier):
    q = tier == 'quick'
    lev = 0 if q else 1
    out = []
    for axes in AXES:
        for i in range(len(dists(1))):
            out.append(('functional', dict(axes=axes, level=lev, i=i)))
        out.append(('pole_start', dict(axes=axes)))
        out.append(('octahedral_walk', dict(axes=axes, depth=3 if q else 4)))
    for axes in ('default', 'E', 'R1'):
        out.append(('single', dict(axes=axes)))
    for axes in ('e', 'E'):
        lats = _olats(lev)
        for lo, hi in chunks(len(lats), 2):
            out.append(('objects_', dict(axes=axes, level=lev, lo=lo, hi=hi)))
        out.append(('object_arrays', dict(axes=axes, level=lev)))
        out.append(('ellipsoidal_frame', dict(axes=axes)))
    return out


def _olats(level):
    return [0.0, np.radians(40.0), np.radians(-71.0), 1.5, -1.57, np.pi / 2, -np.pi / 2][:7 if level else 6] + \
        ([1e-6, -0.3, np.pi / 2 - 1e-6, -np.pi / 2 + 1e-9, 1.2] if level else [])


def _polar(n_g):
    return np.hypot(n_g[0], n_g[1])


def _functional(rec, axes, n, az, d, what):
    """n (3,k) float on E axes, az and d broadcastable to k"""
    kw = kwR(axes)
    k = max(n.shape[1], np.size(az), np.size(d))
    nb = nv.n_EA_E_distance_and_azimuth2n_EB_E(n, d, az, **kw)
    g = ref.unit(toG(axes, n))
    h = _polar(g)
    lim = 1e-15 if exact_axes(axes) else 1e-6
    ok = h > lim
    north, east, _ = ref.ned_n(np.where(ok, g, np.array([[1], [0], [0]])))
    want, direction = ref.travel(g, north, east, az, d)
    amp = 1 if exact_axes(axes) else 1 + 1 / np.where(ok, h, 1)
    rec.cover(states=k, transitions=2 * k, traces=k)
    if np.shape(nb) != (3, k):
        return rec.fail(what + ': wrong shape', got=np.shape(nb), want=(3, k))
    got = toG(axes, nb)
    rec.close(ref.norm(got), np.ones(k), 24 * EPS, what + ': unit n-vector', n=n, az=az, d=d)
    rec.close(np.where(ok, got, 0), np.where(ok, want, 0), 40 * EPS * amp, what + ': destination', n=n, az=az, d=d)
    dd = np.abs(ref.wrap(d)) + 0 * h
    rec.close(ref.angle(g, got), dd, 40 * EPS, what + ': lies at the angular distance', n=n, az=az, d=d)
    # inverse
    s = nv.great_circle_distance(n, nb, radius=1.0)
    rec.close(s, dd, 48 * EPS, what + ': measured distance', n=n, az=az, d=d)
    az2 = nv.n_EA_E_and_n_EB_E2azimuth(n, nb, a=6371e3, f=0, **kw)
    far = np.abs(np.sin(ref.ld(d))) + 0 * h
    ahead = np.sin(ref.ld(d)) >= 0
    waz = ref.wrap(ref.ld(az) + np.where(ahead, 0, ref.PI))
    keep = (far > 1e-7) & (ok | (h == 0))
    tol = np.where(keep, 100 * EPS * (1 + 1 / np.where(keep, far, 1)) * amp, 1)
    rec.close(np.where(keep, ref.wrap(ref.ld(az2) - waz), 0), np.zeros(k), tol, what + ': measured azimuth',
              n=n, az=az, d=d, az2=az2)
    rec.outcome('measured forwards', np.sum(keep & ahead))
    rec.outcome('measured backwards', np.sum(keep & ~ahead))


def functional(rec, axes, level, i):
    d = dists(1)[i]
    lat, lon = alph.grid(alph.lats(0), alph.lons(0)[::2 - level])
    azs = np.array(alph.azimuths(1 if not level else 2))
    k = lat.size
    n = np.repeat(nE(lat, lon, axes), azs.size, axis=1)
    az = np.tile(azs, k)
    if i == 3:
        rec.sample(axes=axes, lat=lat[1], lon=lon[1], az=az[1], distance_rad=d)
    _functional(rec, axes, n, az, d, 'one distance')
    dd = np.resize(np.array(dists(1)), n.shape[1])
    _functional(rec, axes, n, az, np.roll(dd, i), 'distance per position')
    _functional(rec, axes, n, float(azs[i % azs.size]), np.roll(dd, i), 'one azimuth')
    for ix in pieces(n.shape[1], 3, 17 * i):
        _functional(rec, axes, n[:, ix], az[ix], d, 'short array, one distance')
        _functional(rec, axes, n[:, ix], az[ix], np.roll(dd, i)[ix], 'short array')
        _functional(rec, axes, n[:, ix], float(azs[i % azs.size]), np.roll(dd, i)[ix], 'short array, one azimuth')
        _functional(rec, axes, n[:, ix[:1]], az[ix], np.roll(dd, i)[ix], 'one start, short array')


def pole_start(rec, axes):
    for s in (1, -1):
        n = ref.f64(toE(axes, np.array([[0], [0], [s]])))
        for d in dists(1):
            for az in alph.azimuths(1):
                _functional(rec, axes, n, np.array([az]), d, 'from a pole')
            az = np.array(alph.azimuths(1))
            _functional(rec, axes, np.repeat(n, az.size, axis=1), az, d, 'from a pole, array')
            mixed = np.concatenate([n, nE([0.3, 1.1], [0.1, -2.0], axes), -n, n], axis=1)
            _functional(rec, axes, mixed, 0.8, d, 'poles among others')


def single(rec, axes):
    for lat in alph.lats(0)[::2]:
        for lon in alph.lons(0)[::4]:
            n = nE([lat], [lon], axes)
            for d in dists(0):
                for az in alph.azimuths(0)[::2]:
                    _functional(rec, axes, n, az, d, 'single')
    n = nE([0.5], [1.0], axes)
    _functional(rec, axes, n, 2, 1, 'integers')


def octahedral_walk(rec, axes, depth):
    """states: (position, heading) among the six axis points; actions: turn by a right angle, go on q quarter turns"""
    kw = kwR(axes)
    pts = [np.array(v) for v in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1))]
    # azimuth of every heading at every axis point as the library measures it (checked against the model off the poles)
    def azimuth(nE_, tE):
        return nv.n_EA_E_and_n_EB_E2azimuth(nE_, tE, a=1.0, f=0.0, **kw)

    def emb(v):
        return ref.f64(toE(axes, np.asarray(v, float).reshape(3, 1)))

    states = [(tuple(p), tuple(h)) for p in pts for h in pts if abs(int(np.dot(p, h))) == 0]
    seen = set()
    for p, h in states:
        az = azimuth(emb(p), emb(h))
        rec.cover(states=1)
        if p[2] == 0:
            g = np.array(p, float).reshape(3, 1)
            nn, ee, _ = ref.ned_n(ref.ld(g))
            hv = np.array(h, float).reshape(3, 1)
            w = np.arctan2(ref.dot(ee, hv), ref.dot(nn, hv))
            rec.close(ref.wrap(ref.ld(az) - w), 0 * w, 200 * EPS, 'heading at an axis point', p=p, h=h)

    def step(p, h, turn, quarters):
        r = np.cross(p, h)       # left of travel (seen from above), right is -r
        for _ in range(turn % 4):
            h, r = -r, h         # turn right by 90 degrees: new left is the old heading
        c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][quarters % 4]
        return c * p + s * h, c * h - s * p

    def run(p, h, n, az, left, path):
        # n: library position, az: library azimuth of heading h there
        seen.add((tuple(int(v) for v in p), tuple(int(v) for v in h)))
        if left == 0:
            rec.cover(traces=1)
            return
        for turn in range(4):
            for quarters in (1, 2, 3, -1, 5):
                p2, h2 = step(p, h, turn, quarters)
                a = az + turn * np.pi / 2
                n2 = nv.n_EA_E_distance_and_azimuth2n_EB_E(n, quarters * np.pi / 2, a, **kw)
                rec.cover(transitions=1)
                good = rec.close(toG(axes, n2), ref.ld(np.asarray(p2, float).reshape(3, 1)), 1e-14 * (1 + len(path)) * 4,
                                 'quarter-turn leg', path=path + ((turn, quarters),), start=(p, h))
                # arrival azimuth: towards the point one quarter turn further along the same leg
                n3 = nv.n_EA_E_distance_and_azimuth2n_EB_E(n, (quarters + 1) * np.pi / 2, a, **kw)
                if not good:
                    continue
                run(p2, h2, n2, azimuth(n2, n3), left - 1, path + ((turn, quarters),))

    for p, h in states:
        n = emb(p)
        run(np.array(p), np.array(h), n, azimuth(n, emb(h)), depth - 1, ())
    rec.outcome('model states reached', len(seen))
    rec.ok(len(seen) == 24, 'all 24 model states are reached', got=len(seen))


def _object(rec, frame, axes, lat, lon, z, az, d, deg):
    """d in radians at the depth of the start"""
    R = frame.a
    p = frame.GeoPoint(lat, lon, z)
    s = d * (R - z)
    info = dict(lat=lat, lon=lon, z=z, az=az, d=d, degrees=deg)
    b, azb = p.displace(s, np.degrees(az) if deg else az, degrees=deg, method='greatcircle')
    rec.cover(states=1, transitions=2, traces=1)
    if deg:
        azb = np.radians(azb)
    rec.ok(type(b) is nv.GeoPoint and b.frame == frame, 'destination is a GeoPoint of the same frame', **info)
    rec.ok(is_scalar(b.latitude) and is_scalar(b.longitude) and is_scalar(azb), 'single start gives single answers', **info)
    rec.close(np.atleast_1d(b.z), np.array([z]), 0, 'depth kept', **info)
    g = ref.nvec([lat], [lon])
    north, east, _ = ref.ned([lat], [lon])
    want, direction = ref.travel(g, north, east, az, d)
    got = ref.nvec(np.atleast_1d(b.latitude), np.atleast_1d(b.longitude))
    rec.close(got, want, 64 * EPS * (1 + abs(d)), 'destination', **info)
    sin_d = abs(float(np.sin(ref.ld(d))))
    h = float(np.hypot(want[0], want[1])[0])
    if (sin_d > 1e-6 or d == 0) and h > 1e-9:
        bn, be, _ = ref.ned_n(want)
        waz = np.arctan2(ref.dot(be, direction), ref.dot(bn, direction))
        rec.close(ref.wrap(ref.ld(np.atleast_1d(azb)) - waz), 0 * waz, 1e-14 / max(sin_d if d else 1, 1e-9) / h + 1e-13,
                  'arrival azimuth is the direction of travel', **info)
        # the journey continues along the arrival azimuth
        c, _ = b.displace(0.7 * (R - z), np.degrees(azb) if deg else azb, degrees=deg, method='greatcircle')
        far, _ = ref.travel(g, north, east, az, d + ref.LD(0.7))
        rec.close(ref.nvec(np.atleast_1d(c.latitude), np.atleast_1d(c.longitude)), far,
                  1e-13 * (1 + abs(d)) + 2e-14 / max(sin_d if d else 1, 1e-9) / h, 'legs compose', **info)
        rec.outcome('arrival azimuth checked')
    if sin_d > 1e-6:
        dist, az1, az2 = p.distance_and_azimuth(b, degrees=deg, method='greatcircle')
        if deg:
            az1, az2 = np.radians([az1, az2])
        ahead = float(np.sin(ref.ld(d))) > 0
        rec.close(np.atleast_1d(dist), np.abs(ref.wrap([d])) * (R - z), 80 * EPS * R * (1 + abs(d)), 'measured distance', **info)
        hh = max(float(np.cos(ref.ld(lat))), 1e-16)
        if hh > 1e-12:
            rec.close(ref.wrap(ref.ld(np.atleast_1d(az1)) - az - (0 if ahead else ref.PI)), np.zeros(1),
                      1e-14 / sin_d / hh + 1e-13, 'measured departure azimuth', **info)
        if h > 1e-9:
            sign = 0 if ahead else ref.PI
            rec.close(ref.wrap(ref.ld(np.atleast_1d(az2)) - waz - sign), np.zeros(1), 1e-14 / sin_d / h + 1e-13,
                      'measured arrival azimuth', **info)


def objects_(rec, axes, level, lo, hi):
    k = 0
    for lat in _olats(level)[lo:hi]:
        for lon in (0.0, 3.1, -2.0, np.pi):
            for az in alph.azimuths(level)[:19]:
                for d in dists(level):
                    k += 1
                    z = (0.0, -12345.0, 2000.0)[k % 3]
                    frame = nv.FrameE(a=(6371e3, 1.7e6)[k % 2], f=0, axes=axes)
                    _object(rec, frame, axes, lat, lon, z, az, d, k % 5 == 0)


def object_arrays(rec, axes, level):
    frame = nv.FrameE(a=6371e3, f=0, axes=axes)
    lat, lon = alph.grid(_olats(1)[:4] + [-0.3, 1.2], [0.0, 3.1, -2.0, np.pi])
    for n in (1, 2, 3, 4, 5, 7, lat.size):
        for az in alph.azimuths(0):
            for d in dists(level):
                zz = np.resize([0.0, -12345.0, 2000.0], n)
                la, lo = lat[:n], lon[:n]
                g = ref.nvec(la, lo)
                north, east, _ = ref.ned(la, lo)
                for deg in (False, True):
                    for vary in ('none', 'az', 'both', 'one start'):
                        azs = az if vary in ('none',) else np.roll(np.resize(np.array(alph.azimuths(0)), n), int(d * 3))
                        dd = d if vary in ('none', 'az') else np.resize(np.array([d, 0.4, -1.0, 5.0]), n)
                        if vary == 'one start':
                            P = frame.GeoPoint(float(la[0]), float(lo[0]), float(zz[0]))
                            z_, g_, n_, e_ = zz[:1], g[:, :1], north[:, :1], east[:, :1]
                            if n == 1:
                                continue
                        else:
                            P = frame.GeoPoint(la, lo, zz)
                            z_, g_, n_, e_ = zz, g, north, east
                        want, direction = ref.travel(g_, n_, e_, azs, dd)
                        b, azb = P.displace(dd * (frame.a - z_), np.degrees(azs) if deg else azs, degrees=deg,
                                            method='greatcircle')
                        rec.cover(states=n, transitions=n, traces=n)
                        got = ref.nvec(b.latitude, b.longitude)
                        info = dict(n=n, az=azs, d=dd, degrees=deg, vary=vary)
                        if not rec.close(got, want, 64 * EPS * (1 + np.abs(dd)), 'array destination', **info):
                            continue
                        rec.close(b.z, np.broadcast_to(ref.ld(z_), (n,)), 0, 'array depth kept', **info)
                        az_r = np.radians(azb) if deg else azb
                        bn, be, _ = ref.ned_n(want)
                        waz = np.arctan2(ref.dot(be, direction), ref.dot(bn, direction))
                        sd = np.abs(np.sin(ref.ld(dd)))
                        hp = np.hypot(want[0], want[1])
                        keep = ((sd > 1e-6) | (np.asarray(dd) == 0)) & (hp > 1e-6)
                        if np.shape(az_r) != (n,):
                            rec.fail('one arrival azimuth per position', got=np.shape(az_r), want=(n,), **info)
                            continue
                        rec.close(np.where(keep, ref.wrap(az_r - waz), 0), np.zeros(n), 1e-7, 'array arrival azimuth', **info)


def ellipsoidal_frame(rec, axes):
    """on an ellipsoidal frame the n-vector travels by distance / |start| along the great circle"""
    for ell in ('wgs84', 'prolate'):
        frame = frameE(ell, axes)
        for (lat, lon) in zip(*alph.grid(_olats(1), [0.0, 3.1, -2.0])):
            for az in alph.azimuths(0):
                for d in dists(0):
                    z = 150.0
                    p = frame.GeoPoint(lat, lon, z)
                    g = ref.nvec([lat], [lon])
                    r = ref.norm(ref.ecef(g, z, frame.a, frame.f))
                    b, _ = p.displace(float(d * r[0]), az, method='greatcircle')
                    north, east, _ = ref.ned([lat], [lon])
                    want, _ = ref.travel(g, north, east, az, d)
                    rec.cover(states=1, transitions=1, traces=1)
                    rec.close(ref.nvec(np.atleast_1d(b.latitude), np.atleast_1d(b.longitude)), want, 80 * EPS * (1 + abs(d)),
                              'destination on an ellipsoidal frame', lat=lat, lon=lon, az=az, d=d)
                    rec.close(np.atleast_1d(b.z), [z], 0, 'depth kept')
