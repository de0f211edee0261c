from geographiclib.geodesic import Geodesic
from mc.common import *

BOUNDS = """all ordered pairs of a position alphabet (poles, equator, antimeridian, nearly antipodal, meridional, coincident) x
azimuths x distances (0, sub-millimetre, up to several turns, negative) x ellipsoids x depths x unrolling x degrees/radians,
single and array, through FrameE.inverse/direct and GeoPoint; oracle: the reference geodesic library called directly on the
lowered ellipsoid, Clairaut's relation and, for spheres, great circles. Histories of five solutions on every ordered pair of nearly equal ellipsoids and depths."""

D = [(0.0, 0.0), (0.0, 90.0), (0.0, 179.9), (0.0, 180.0), (40.0, -75.0), (-40.0, 105.0), (-39.8, 104.6), (90.0, 0.0),
     (-90.0, 30.0), (89.9999, -120.0), (51.5, 0.0), (51.5, -179.99), (-33.9, 151.2), (1e-9, -60.0), (0.5, 179.5),
     (12.0, 180.0), (-12.0, -180.0), (12.0, 540.0), (30.0, -300.0), (-75.0, 400.0)]
S12 = [0.0, 1e-3, 10.0, 1e4, 1e6, 9.9e6, 2.0003e7, 3.3e7, 4.1e7, 9.7e7, -5.0, -2.5e7]
AZ = [0.0, 90.0, 180.0, -180.0, -90.0, 37.5, -122.0, 179.999, 359.0, 1e-7, -400.0]

FIGURES = [(6378137.0, f) for f in (1 / 298.257223563, 1 / 298.2572, 1 / 298.3, 1 / 297.0, 0.0, -1 / 298.257223563, 0.0033, 0.02)]
FIGURES += [(6378137.0 + d, 1 / 298.257223563) for d in (0.04, 1.0, 150.0, -10.0)]


def tasks(tier):
    q = tier == 'quick'
    out = []
    ells = ['wgs84', 'sphere', 'prolate', 'clarke1880'] if q else ['wgs84', 'sphere', 'prolate', 'clarke1880', 'flat50', 'mars', 'airy']
    for ell in ells:
        for axes in ('e', 'E'):
            out.append(('inverse', dict(ell=ell, axes=axes)))
            out.append(('truth', dict(ell=ell, axes=axes)))
            out.append(('direct', dict(ell=ell, axes=axes)))
            for lo, hi in chunks(len(D), 5):
                out.append(('objects_inverse', dict(ell=ell, axes=axes, lo=lo, hi=hi, full=not q)))
                out.append(('objects_direct', dict(ell=ell, axes=axes, lo=lo, hi=hi, full=not q)))
    out.append(('sphere_agrees', {}))
    out += [('figures', dict(first=n)) for n in range(len(FIGURES))]
    return out


def _g(frame, z):
    return Geodesic(frame.a - z, frame.f)


def _mask(unroll):
    return Geodesic.STANDARD | (Geodesic.LONG_UNROLL if unroll else 0)


def _same(rec, got, want, tol, msg, **info):
    return rec.close(np.asarray(got, dtype=float), np.asarray(want, dtype=float), tol, msg, **info)


def _ang(rec, got, want, msg, **info):
    """angles in degrees, modulo a turn"""
    d = np.mod(np.asarray(got, float) - np.asarray(want, float) + 180.0, 360.0) - 180.0
    return rec.close(d, 0 * d, 1e-11, msg, answer=got, wanted=want, **info)


def inverse(rec, ell, axes):
    frame = frameE(ell, axes)
    I, J = [v.ravel() for v in np.meshgrid(np.arange(len(D)), np.arange(len(D)), indexing='ij')]
    P = np.array(D)
    for zi, z in enumerate((0.0, 5000.0, -12000.0, None)):
        zz = np.resize([0.0, 300.5, -9000.0, 1e5, 0.3, -1234.567], I.size) if z is None else np.full(I.size, z)
        want = np.array([[_g(frame, zz[k]).Inverse(*D[i], *D[j])[key] for key in ('s12', 'azi1', 'azi2')]
                         for k, (i, j) in enumerate(zip(I, J))]).T
        args = (P[I, 0], P[I, 1], P[J, 0], P[J, 1])
        for unroll in (False, True):
            zarg = zz if z is None else z
            s, a1, a2 = frame.inverse(*args, z=zarg, long_unroll=unroll, degrees=True)
            rec.cover(states=I.size, transitions=I.size, traces=I.size)
            _same(rec, s, want[0], 1e-8, 'distance (array, degrees)', I=I, J=J)
            _ang(rec, a1, want[1], 'azimuth at A (array, degrees)', I=I, J=J)
            _ang(rec, a2, want[2], 'azimuth at B (array, degrees)', I=I, J=J)
            s, a1, a2 = frame.inverse(*np.radians(args), z=zarg, long_unroll=unroll)
            good = np.ones(I.size, bool)
            _same(rec, s, want[0], 1e-7, 'distance (array, radians)', I=I, J=J)
            for ix in pieces(I.size, 1, zi):
                short = [a[ix] for a in args]
                zs = zz[ix] if z is None else z
                s, a1, a2 = frame.inverse(*short, z=zs, long_unroll=unroll, degrees=True)
                _same(rec, s, want[0][ix], 1e-8, 'distance (short array)', I=I[ix], J=J[ix])
                _ang(rec, a1, want[1][ix], 'azimuth at A (short array)', I=I[ix], J=J[ix])
                _ang(rec, a2, want[2][ix], 'azimuth at B (short array)', I=I[ix], J=J[ix])
        if z is not None:
            # the shortest: symmetric, azimuths turned by 180 degrees
            s, a1, a2 = frame.inverse(*args, z=z, degrees=True)
            t, b1, b2 = frame.inverse(*(args[2:] + args[:2]), z=z, degrees=True)
            _same(rec, s, t, 1e-8, 'distance is symmetric', I=I, J=J)
            # away from poles, coincident and (nearly) antipodal positions the geodesic is unique
            uniq = (np.abs(P[I, 0]) < 89.99999) & (np.abs(P[J, 0]) < 89.99999) & (s > 1) & (s < 0.99 * np.pi * (frame.a - z) *
                                                                                         min(1, 1 - frame.f))
            d = np.where(uniq, np.mod(b1 - a2, 360.0) - 180.0, 0)
            rec.close(d, 0 * d, 1e-9, 'azimuths turned by 180 degrees', I=I, J=J)
            # Clairaut: sin(azimuth) cos(reduced latitude) is constant along a geodesic
            b1_ = np.arctan2((1 - frame.f) * np.sin(np.radians(P[I, 0])), np.cos(np.radians(P[I, 0])))
            b2_ = np.arctan2((1 - frame.f) * np.sin(np.radians(P[J, 0])), np.cos(np.radians(P[J, 0])))
            c = np.sin(np.radians(a1)) * np.cos(b1_) - np.sin(np.radians(a2)) * np.cos(b2_)
            rec.close(c, 0 * c, 1e-13, "Clairaut's relation", I=I, J=J)
            # direct leads to B
            lat, lon, az = frame.direct(args[0], args[1], a1, s, z=z, degrees=True)
            n1 = ref.nvec(np.radians(lat), np.radians(lon))
            n2 = ref.nvec(np.radians(args[2]), np.radians(args[3]))
            rec.close(ref.norm(n1 - n2), np.zeros(I.size), 1e-14, 'direct leads to the second position', I=I, J=J)
    for k in range(0, I.size, 3):     # single calls
        i, j = I[k], J[k]
        for z in (0, -700.25):
            w = _g(frame, z).Inverse(*D[i], *D[j])
            got = frame.inverse(*D[i], *D[j], z=z, degrees=True)
            rec.cover(states=1, transitions=1, traces=1)
            rec.ok(all(is_scalar(v) for v in got), 'scalar answers', i=i, j=j)
            _same(rec, got[0], w['s12'], 1e-8, 'distance (single)', i=i, j=j)
            _ang(rec, got[1], w['azi1'], 'azimuth at A (single)', i=i, j=j)
            _ang(rec, got[2], w['azi2'], 'azimuth at B (single)', i=i, j=j)
    got = frame.inverse(*D[4], *D[10], degrees=True)
    _same(rec, got[0], _g(frame, 0).Inverse(*D[4], *D[10])['s12'], 1e-8, 'default depth')
    # one against many
    s, a1, a2 = frame.inverse(10.0, 20.0, P[:, 0], P[:, 1], degrees=True)
    w = np.array([[_g(frame, 0).Inverse(10.0, 20.0, *D[j])[key] for key in ('s12', 'azi1', 'azi2')] for j in range(len(D))]).T
    _same(rec, s, w[0], 1e-8, 'one against many')
    _ang(rec, a1, w[1], 'one against many, azimuth')


TRUE = (True, 1, np.True_, np.int64(1))
FALSE = (False, 0, np.False_, np.int64(0))


def truth(rec, ell, axes):
    """numpy booleans and 0, 1 ask for unrolled longitudes as True and False do"""
    frame = frameE(ell, axes)
    for i, (lat, lon) in enumerate(D):
        for az, s in ((80.0, 3e7), (-95.0, 5.5e7), (10.0, 1e5), (270.0, 9e7)):
            for flags, unroll in ((TRUE, True), (FALSE, False)):
                w = _g(frame, 0).Direct(lat, lon, az, s, _mask(unroll))
                for fl in flags:
                    outs = [('direct', frame.direct(lat, lon, az, s, long_unroll=fl, degrees=True)),
                            ('direct, arrays', [v[1] for v in frame.direct([0.0, lat], [0.0, lon], [1.0, az], [1.0, s], long_unroll=fl, degrees=True)])]
                    B, a2 = frame.GeoPoint(lat, lon, degrees=True).displace(s, az, long_unroll=fl, degrees=True)
                    outs.append(('displace', (B.latitude_deg, B.longitude_deg, a2)))
                    for how, (la2, lo2, a2) in outs:
                        rec.cover(states=1, transitions=1, traces=1)
                        (_same if unroll else _ang)(rec, lo2, w['lon2'], *(1e-9,) * unroll, how + ': longitude', flag=repr(fl), start=D[i], az=az, s=s)
                        _ang(rec, a2, w['azi2'], how + ': azimuth', flag=repr(fl), start=D[i], az=az, s=s)
                    if not unroll and abs(w['lat2']) < 89.99999:
                        rec.ok(abs(outs[0][1][1]) <= 180.0, 'longitude reduced', flag=repr(fl), lon=outs[0][1][1])
                    wi = _g(frame, 0).Inverse(lat, lon, 12.0, 34.0)
                    got = frame.inverse(lat, lon, 12.0, 34.0, long_unroll=fl, degrees=True)
                    _same(rec, got[0], wi['s12'], 1e-8, 'inverse: distance', flag=repr(fl), start=D[i])
                    _ang(rec, got[1], wi['azi1'], 'inverse: azimuth', flag=repr(fl), start=D[i])
        rec.outcome('flags', len(TRUE) + len(FALSE))


def direct(rec, ell, axes):
    frame = frameE(ell, axes)
    P = np.array(D)
    G = [(i, az, s) for i in range(len(D)) for az in AZ for s in S12]
    I = np.array([g[0] for g in G])
    az = np.array([g[1] for g in G])
    s = np.array([g[2] for g in G])
    rec.sample(ell=ell, start=D[4], az=AZ[5], s=S12[7])
    for z in (0.0, -12000.0, None):
        zz = np.resize([0.0, 300.5, -9000.0, 1e5, 7.0, 0.3, -1234.567], I.size) if z is None else np.full(I.size, z)
        for unroll in (False, True):
            want = np.array([[_g(frame, zz[k]).Direct(*D[i], a, d, _mask(unroll))[key] for key in ('lat2', 'lon2', 'azi2')]
                             for k, (i, a, d) in enumerate(G)]).T
            lat, lon, a2 = frame.direct(P[I, 0], P[I, 1], az, s, z=zz if z is None else z, long_unroll=unroll, degrees=True)
            rec.cover(states=I.size, transitions=I.size, traces=I.size)
            _same(rec, lat, want[0], 1e-11, 'latitude (array)', I=I, az=az, s=s)
            if unroll:
                _same(rec, lon, want[1], 1e-9, 'longitude counts turns when unrolled', I=I, az=az, s=s)
            else:
                _ang(rec, lon, want[1], 'longitude (array)', I=I, az=az, s=s)
                rec.holds(np.abs(lon) <= 180.0, 'longitude reduced', I=I, az=az, s=s, lon=lon)
            _ang(rec, a2, want[2], 'azimuth at B (array)', I=I, az=az, s=s)
            rec.holds(np.abs(a2) <= 180.0, 'azimuth reduced', I=I, az=az, s=s, a2=a2)
            for ix in pieces(I.size, 2, 3):
                lat, lon, a2 = frame.direct(P[I[ix], 0], P[I[ix], 1], az[ix], s[ix], z=zz[ix] if z is None else z, long_unroll=unroll, degrees=True)
                _same(rec, lat, want[0][ix], 1e-11, 'latitude (short array)', I=I[ix], az=az[ix], s=s[ix])
                (_same if unroll else _ang)(rec, lon, want[1][ix], *(1e-9,) * unroll, 'longitude (short array)', I=I[ix], az=az[ix], s=s[ix])
                _ang(rec, a2, want[2][ix], 'azimuth at B (short array)', I=I[ix], az=az[ix], s=s[ix])
            rec.outcome('more than one turn', np.sum(np.abs(want[1] - P[I, 1]) > 360))
    for k in range(0, I.size, 7):
        i, a, d = G[k]
        for z in (0, 2500.75):
            for unroll in (False, True):
                w = _g(frame, z).Direct(*D[i], a, d, _mask(unroll))
                lat, lon, a2 = frame.direct(*D[i], a, d, z=z, long_unroll=unroll, degrees=True)
                rec.cover(states=1, transitions=1, traces=1)
                rec.ok(all(is_scalar(v) for v in (lat, lon, a2)), 'scalar answers')
                _same(rec, lat, w['lat2'], 1e-11, 'latitude (single)', G=G[k])
                if unroll:
                    _same(rec, lon, w['lon2'], 1e-9, 'longitude unrolled (single)', G=G[k])
                else:
                    _ang(rec, lon, w['lon2'], 'longitude (single)', G=G[k])
                lat, lon, a2 = frame.direct(*np.radians([D[i][0], D[i][1], a]), d, z=z, long_unroll=unroll)
                # radians lose a few ulp of the angle before the geodesic is started
                n1, n2 = ref.nvec([lat], [lon]), ref.nvec(np.radians([w['lat2']]), np.radians([w['lon2']]))
                rec.close(ref.norm(n1 - n2), np.zeros(1), 2e-13, 'position (single, radians)', G=G[k])
                if unroll and abs(w['lat2']) < 89.9:
                    # turns counted the same unless the geodesic passes exactly over a pole
                    over = abs(np.sin(np.radians(a)) * np.cos(np.radians(D[i][0]))) < 1e-6
                    if not over:
                        _same(rec, lon, np.radians(w['lon2']), 1e-10, 'longitude unrolled (single, radians)', G=G[k])
    lat, lon, a2 = frame.direct(*D[4], 30.0, 1e6, degrees=True)
    _same(rec, lat, _g(frame, 0).Direct(*D[4], 30.0, 1e6)['lat2'], 1e-11, 'default depth')


def objects_inverse(rec, ell, axes, lo, hi, full):
    frame = frameE(ell, axes)
    for i in range(lo, hi):
        for j in range(len(D)):
            for za, zb in ((0.0, 0.0), (100.0, -700.0), (-5000.0, -5000.0), (0.0, 2000.0)):
                A = frame.GeoPoint(*D[i], za, degrees=True)
                w = _g(frame, 0.5 * (za + zb)).Inverse(*D[i], *D[j])
                for kb in KINDS if full or (i + j) % 3 == 0 else ('geo',):
                    B = frame.GeoPoint(*D[j], zb, degrees=True)
                    if kb == 'nvec':
                        B = B.to_nvector()
                    elif kb == 'ecef':
                        B = B.to_ecef_vector()
                    for deg in (False, True):
                        for unroll in (False, True):
                            s, a1, a2 = A.distance_and_azimuth(B, long_unroll=unroll, degrees=deg)
                            rec.cover(states=1, transitions=1, traces=1)
                            rec.ok(all(is_scalar(v) for v in (s, a1, a2)), 'scalar answers', i=i, j=j)
                            k = 1.0 if deg else 180.0 / np.pi
                            _same(rec, s, w['s12'], 2e-7, 'distance_and_azimuth: distance at the average depth',
                                  A=D[i], B=D[j], za=za, zb=zb, kb=kb, degrees=deg)
                            # azimuths are well conditioned except close to singular configurations
                            if 1e3 < w['s12'] < 1.9e7 and abs(D[i][0]) < 89 and abs(D[j][0]) < 89:
                                d1 = (a1 * k - w['azi1'] + 180.0) % 360.0 - 180.0
                                d2 = (a2 * k - w['azi2'] + 180.0) % 360.0 - 180.0
                                _same(rec, d1, 0.0, 1e-9, 'azimuth at A', A=D[i], B=D[j], kb=kb, degrees=deg, az=a1)
                                _same(rec, d2, 0.0, 1e-9, 'azimuth at B', A=D[i], B=D[j], kb=kb, degrees=deg, az=a2)
                                rec.ok(abs(a1 * k) <= 180.0 + 1e-12 and abs(a2 * k) <= 180.0 + 1e-12, 'azimuths reduced')
                # displacing by the answer leads to the second position at the depth of the first
                if za == zb:
                    s, a1, a2 = A.distance_and_azimuth(frame.GeoPoint(*D[j], zb, degrees=True))
                    C, a3 = A.displace(s, a1)
                    n1 = ref.nvec([C.latitude], [C.longitude])
                    n2 = ref.nvec(np.radians([D[j][0]]), np.radians([D[j][1]]))
                    rec.close(ref.norm(n1 - n2), np.zeros(1), 2e-12, 'displacing by the answer', A=D[i], B=D[j], z=za)
                    rec.close(np.atleast_1d(C.z), [za], 0, 'at the depth of the first')
                    rec.cover(transitions=1)
        # arrays: one path for every position of D, each with its own depth, any two kinds
        za, zb = np.resize([0.0, 10.0, -700.0], len(D)), np.resize([5.0, -8000.0], len(D))
        P = np.array(D)
        Q = np.roll(P, i, axis=0)
        w = np.array([[_g(frame, 0.5 * (za[k] + zb[k])).Inverse(*P[k], *Q[k])[key] for key in ('s12', 'azi1', 'azi2')]
                      for k in range(len(D))]).T
        s, a1, a2 = frame.GeoPoint(P[:, 0], P[:, 1], za, degrees=True).distance_and_azimuth(
            frame.GeoPoint(Q[:, 0], Q[:, 1], zb, degrees=True), degrees=True)
        rec.cover(states=len(D), transitions=len(D), traces=len(D))
        _same(rec, s, w[0], 2e-7, 'arrays of pairs', shift=i)
        gp = nv.GeoPath(frame.GeoPoint(P[:, 0], P[:, 1], za, degrees=True), frame.GeoPoint(Q[:, 0], Q[:, 1], zb, degrees=True))
        for ix in pieces(len(D), 1, i):
            A_, B_ = frame.GeoPoint(P[ix, 0], P[ix, 1], za[ix], degrees=True), frame.GeoPoint(Q[ix, 0], Q[ix, 1], zb[ix], degrees=True)
            s, a1, a2 = A_.distance_and_azimuth(B_, degrees=True)
            _same(rec, s, w[0][ix], 2e-7, 'arrays of pairs, short', shift=i, ix=ix)
            _same(rec, np.atleast_1d(nv.GeoPath(A_, B_).track_distance(method='exact')), w[0][ix], 2e-7, 'track_distance, short arrays', shift=i, ix=ix)
        for method in ('ellipsoidal', 'exact', 'ellipsoid', 'el', 'ex'):
            _same(rec, gp.track_distance(method=method), w[0], 2e-7, 'track_distance of ellipsoidal paths', method=method)


def objects_direct(rec, ell, axes, lo, hi, full):
    frame = frameE(ell, axes)
    P = np.array(D)
    for i in range(lo, hi):
        for az in AZ:
            for s in S12[::1 if full else 2]:
                for z in (0.0, -12000.0):
                    A = frame.GeoPoint(*D[i], z, degrees=True)
                    for unroll in (False, True):
                        w = _g(frame, z).Direct(*D[i], az, s, _mask(unroll))
                        for deg in (True, False):
                            B, a2 = A.displace(s, az if deg else np.radians(az), long_unroll=unroll, degrees=deg)
                            rec.cover(states=1, transitions=1, traces=1)
                            rec.ok(type(B) is nv.GeoPoint and B.frame == frame and is_scalar(B.latitude) and is_scalar(a2),
                                   'displace gives a single GeoPoint of the same frame')
                            rec.close(np.atleast_1d(B.z), [z], 0, 'at the depth of the first')
                            n1, n2 = ref.nvec([B.latitude], [B.longitude]), ref.nvec(np.radians([w['lat2']]), np.radians([w['lon2']]))
                            rec.close(ref.norm(n1 - n2), np.zeros(1), 1e-12, 'displace', A=D[i], az=az, s=s, z=z, degrees=deg)
                            if abs(w['lat2']) < 89.9 and abs(D[i][0]) < 89.9:
                                d2 = ((a2 if deg else np.degrees(a2)) - w['azi2'] + 180.0) % 360.0 - 180.0
                                _same(rec, d2, 0.0, 1e-9, 'displace: azimuth at B', A=D[i], az=az, s=s, z=z, degrees=deg)
                                over = abs(np.sin(np.radians(az)) * np.cos(np.radians(D[i][0]))) < 1e-6
                                if unroll and not over:
                                    _same(rec, np.degrees(B.longitude), w['lon2'], 1e-8, 'displace: longitude counts turns',
                                          A=D[i], az=az, s=s, degrees=deg)
                                if not unroll:
                                    rec.ok(abs(B.longitude) <= np.pi + 1e-15, 'displace: longitude reduced', A=D[i], az=az, s=s)
        az = np.resize(np.array(AZ), len(D))
        s = np.roll(np.resize(np.array(S12), len(D)), i)
        z = np.resize([0.0, 70.0, -900.0], len(D))
        w = [_g(frame, z[k]).Direct(*D[k], az[k], s[k]) for k in range(len(D))]
        B, a2 = frame.GeoPoint(P[:, 0], P[:, 1], z, degrees=True).displace(s, az, degrees=True)
        n1, n2 = ref.nvec(B.latitude, B.longitude), ref.nvec(np.radians([v['lat2'] for v in w]), np.radians([v['lon2'] for v in w]))
        rec.close(ref.norm(n1 - n2), np.zeros(len(D)), 1e-12, 'displace arrays', shift=i)
        rec.close(B.z, z, 0, 'displace arrays: depths kept', shift=i)
        for ix in pieces(len(D), 2, i):
            B, a2 = frame.GeoPoint(P[ix, 0], P[ix, 1], z[ix], degrees=True).displace(s[ix], az[ix], degrees=True)
            n1 = ref.nvec(B.latitude, B.longitude)
            rec.close(ref.norm(n1 - n2[:, ix]), np.zeros(ix.size), 1e-12, 'displace short arrays', shift=i, ix=ix)
            rec.close(B.z, z[ix], 0, 'displace short arrays: depths kept', shift=i, ix=ix)
        rec.cover(states=len(D), transitions=len(D), traces=len(D))


def sphere_agrees(rec):
    for axes in ('e', 'E'):
        frame = frameE('sphere', axes)
        for i in range(len(D)):
            for j in range(len(D)):
                for z in (0.0, 400.0):
                    A, B = frame.GeoPoint(*D[i], z, degrees=True), frame.GeoPoint(*D[j], z, degrees=True)
                    s, a1, a2 = A.distance_and_azimuth(B)
                    t, b1, b2 = A.distance_and_azimuth(B, method='greatcircle')
                    rec.cover(states=1, transitions=2, traces=1)
                    _same(rec, s, t, 1e-7, 'sphere: both methods give the same distance', A=D[i], B=D[j], z=z)
                    if 1e3 < s < 1.99e7 and abs(D[i][0]) < 89.9 and abs(D[j][0]) < 89.9:
                        for u, v, m in ((a1, b1, 'A'), (a2, b2, 'B')):
                            rec.close(np.atleast_1d(ref.wrap(u - v)), np.zeros(1), 1e-8, 'sphere: same azimuth at ' + m, A=D[i], B=D[j])
            for az in AZ:
                for s in S12:
                    A = frame.GeoPoint(*D[i], 30.0, degrees=True)
                    B, a2 = A.displace(s, az, degrees=True)
                    C, b2 = A.displace(s, az, degrees=True, method='greatcircle')
                    rec.cover(states=1, transitions=2, traces=1)
                    if abs(D[i][0]) < 89.99999:
                        n1, n2 = ref.nvec([B.latitude], [B.longitude]), ref.nvec([C.latitude], [C.longitude])
                        rec.close(ref.norm(n1 - n2), np.zeros(1), 1e-12, 'sphere: both methods displace alike', A=D[i], az=az, s=s)


def figures(rec, first):
    """histories of solutions on two nearly equal ellipsoids: each is solved on its own figure, at its own depth"""
    pairs = [(1, 4), (4, 5), (3, 14), (10, 12), (18, 19)]
    starts = [(4, 37.5, 1e6), (10, -122.0, 9.9e6), (5, 90.0, 3.3e7)]

    def solve(a, f, z):
        frame = nv.FrameE(a=a, f=f)
        g = Geodesic(a - z, f)
        for i, j in pairs:
            w = g.Inverse(*D[i], *D[j])
            s12, a1, a2 = frame.inverse(*D[i], *D[j], z=z, degrees=True)
            _same(rec, s12, w['s12'], 1e-7, 'distance on its own figure', a=a, f=f, z=z, pair=(D[i], D[j]))
            _ang(rec, [a1, a2], [w['azi1'], w['azi2']], 'azimuths on its own figure', a=a, f=f, z=z, pair=(D[i], D[j]))
            p, q = frame.GeoPoint(*D[i], z, degrees=True), frame.GeoPoint(*D[j], z, degrees=True)
            d = p.distance_and_azimuth(q, degrees=True)
            _same(rec, d[0], w['s12'], 1e-7, 'distance between points on their own figure', a=a, f=f, z=z, pair=(D[i], D[j]))
        for i, az, s in starts:
            w = g.Direct(*D[i], az, s)
            lat, lon, a2 = frame.direct(*D[i], az, s, z=z, degrees=True)
            _same(rec, lat, w['lat2'], 1e-11, 'latitude on its own figure', a=a, f=f, z=z, start=(i, az, s))
            _ang(rec, [lon, a2], [w['lon2'], w['azi2']], 'longitude and azimuth on its own figure', a=a, f=f, z=z, start=(i, az, s))
            q, a2 = frame.GeoPoint(*D[i], z, degrees=True).displace(s, az, degrees=True)
            _same(rec, q.latitude_deg, w['lat2'], 1e-10, 'latitude of a point displaced on its own figure', a=a, f=f, z=z, start=(i, az, s))
            _ang(rec, [a2], [w['azi2']], 'azimuth of a point displaced on its own figure', a=a, f=f, z=z, start=(i, az, s))
    one = FIGURES[first]
    rec.sample(first=one)
    for two in FIGURES:
        for z1, z2 in ((0.0, 0.0), (0.0, 0.04), (0.04, 0.0), (10.0, 0.0), (0.0, -150.0), (-150.0, -150.0)):
            for (a, f), z in ((one, z1), (two, z2), (one, z2), (two, z1), (one, z1)):
                solve(a, f, z)
                rec.cover(states=1, transitions=len(pairs) + len(starts), traces=0)
            rec.cover(traces=1)
