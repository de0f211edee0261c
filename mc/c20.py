import warnings
from mc.common import *

BOUNDS = """every object-oriented operation with a functional counterpart x all ordered pairs (quick 16x16, thorough 40x40) of positions x frames (ellipsoids
x axes) x representations of the operands x options (method, radius, degrees, wander azimuth, attitude, times), array form for all pairs and single form for
every pair of a sub-table; every deprecated alias against its replacement on all of them. Oracle: the functional call composed as documented."""


def tasks(tier):
    q = tier == 'quick'
    out = []
    for ell in (['wgs84', 'sphere', 'prolate'] if q else ['wgs84', 'sphere', 'prolate', 'airy', 'flat50', 'mars']):
        for axes in ('e', 'E'):
            for fn in ('conversions', 'deltas', 'paths', 'geodesics', 'tracks', 'aliases'):
                out.append((fn, dict(ell=ell, axes=axes, single=False, big=not q)))
                for part in range(1 if q else 4):
                    out.append((fn, dict(ell=ell, axes=axes, single=True, big=not q, part=part, of=4)))
    out.append(('aliases_module', dict()))
    return out


def table(big):
    P = np.array(alph.POSITIONS)
    if big:
        la, lo = alph.lats(0), alph.lons(0)
        extra = [(np.degrees(a), np.degrees(b), 10.0 * i - 100) for i, (a, b) in enumerate(zip(la * 2, (lo * 3)[5:5 + 2 * len(la)]))]
        P = np.array(alph.POSITIONS + extra[:24])
    return np.radians(P[:, 0]), np.radians(P[:, 1]), P[:, 2]


def cases(single, big, part=0, of=1, arity=2):
    """yields (single?, list of raw positions (lat, lon, z))"""
    lat, lon, z = table(big)
    m = len(lat)
    i, j = [v.ravel() for v in np.meshgrid(np.arange(m), np.arange(m), indexing='ij')]
    k = (3 * i + 5 * j + 2) % m
    l = (7 * i + 2 * j + 5) % m
    # the second operand is displaced so that no pair coincides
    la2 = lat + np.where(lat > 1, -0.011, 0.011)
    sets = [(lat[i], lon[i], z[i]), (la2[j], lon[j] + 0.02, z[j]), (lat[k], lon[k] - 0.5, z[k]), (la2[l], lon[l] + 0.7, z[l])]
    if not single:
        yield i.size, [tuple(s) for s in sets[:arity]]
        return
    for n in range(part, i.size, of):
        yield 1, [tuple(float(c[n]) for c in s) for s in sets[:arity]]


def col(n):
    return np.atleast_1d(n)


def s1(x, single):
    return x


def close_(rec, got, want, tol, msg, single, **info):
    """object answers of single positions are scalars, functional ones arrays of one"""
    got, want = np.asarray(got), np.asarray(want)
    if got.ndim == 0 and want.shape == (1,):
        want = want[0]
    if got.shape != want.shape and got.size == want.size == 1:
        want = want.reshape(got.shape)
    return rec.close(got, want, tol, msg, single=single, **info)


def conversions(rec, ell, axes, single, big, part=0, of=1):
    fr = frameE(ell, axes)
    R = fr.R_Ee
    af = dict(a=fr.a, f=fr.f)
    eps = 4e-16 * 8
    for k, ((la, lo, z), B) in cases(single, big, part, of):
        rec.cover(states=k, transitions=20, traces=k)
        p = fr.GeoPoint(la, lo, z)
        n = nv.lat_lon2n_E(la, lo, R)
        rec.close(p.to_nvector().normal, n, eps, 'GeoPoint.to_nvector')
        rec.close(p.to_nvector().z, z, 0, 'depth of to_nvector')
        N = fr.Nvector(n, z)
        la2, lo2 = nv.n_E2lat_lon(n, R)
        g = N.to_geo_point()
        close_(rec, g.latitude, la2, eps, 'Nvector.to_geo_point latitude', single)
        close_(rec, g.longitude, lo2, eps, 'Nvector.to_geo_point longitude', single)
        close_(rec, g.z, z, 0, 'Nvector.to_geo_point depth', single)
        pv = nv.n_EB_E2p_EB_E(n, z, R_Ee=R, **af)
        tol = 1e-8
        for o in (N, p):
            rec.close(o.to_ecef_vector().pvector, pv, tol, '%s.to_ecef_vector' % type(o).__name__)
        E = fr.ECEFvector(pv)
        n3, z3 = nv.p_EB_E2n_EB_E(pv, R_Ee=R, **af)
        rec.close(E.to_nvector().normal, n3, eps, 'ECEFvector.to_nvector')
        close_(rec, E.to_nvector().z, z3, tol, 'ECEFvector.to_nvector depth', single)
        la3, lo3 = nv.n_E2lat_lon(n3, R)
        close_(rec, E.to_geo_point().latitude, la3, eps, 'ECEFvector.to_geo_point', single)
        close_(rec, E.to_geo_point().longitude, lo3, eps, 'ECEFvector.to_geo_point', single)
        close_(rec, E.length, np.sqrt(np.sum(ref.ld(pv) ** 2, axis=0)).astype(float), tol, 'ECEFvector.length', single)
        M = fr.Nvector(n * 3.7, z)
        M.unit()
        rec.close(M.normal, nv.unit(n * 3.7), eps, 'Nvector.unit')
        # frames
        RN = nv.n_E2R_EN(n, R)
        for q in (p, N):
            rec.close(nv.FrameN(q).R_EN, RN, 1e-14, 'FrameN.R_EN')
            for wa in (0, 0.3, -2.0, np.pi / 2, 4.0):
                rec.close(nv.FrameL(q, wa).R_EN, nv.n_E_and_wa2R_EL(n, wa, R), 1e-14, 'FrameL.R_EN')
        for y, pi_, r in ((0, 0, 0), (0.2, -0.5, 1.0), (-3.0, 1.2, -0.4), (10.0, 0.0, 90.0)):
            want = nv.mdot(RN, nv.zyx2R(y, pi_, r))
            for deg in (False, True):
                t = np.degrees((y, pi_, r)) if deg else (y, pi_, r)
                rec.close(nv.FrameB(p, *t, degrees=deg).R_EN, want, 1e-13, 'FrameB.R_EN')
    rec.sample(ellipsoid=ell, axes=axes, single=single)


def deltas(rec, ell, axes, single, big, part=0, of=1):
    fr = frameE(ell, axes)
    R = fr.R_Ee
    af = dict(a=fr.a, f=fr.f)
    for k, (A, B) in cases(single, big, part, of):
        rec.cover(states=k, transitions=15, traces=k)
        na, nb = nv.lat_lon2n_E(A[0], A[1], R), nv.lat_lon2n_E(B[0], B[1], R)
        p = nv.n_EA_E_and_n_EB_E2p_AB_E(na, nb, A[2], B[2], R_Ee=R, **af)
        RN = nv.n_E2R_EN(na, R)
        loc = lambda M: mv3(tr3(M if M.ndim == 3 else M[:, :, None]), p)
        for ka, kb in (('geo', 'geo'), ('nvec', 'geo'), ('geo', 'ecef'), ('ecef', 'nvec')):
            a, b = mk(ka, fr, axes, *A), mk(kb, fr, axes, *B)
            d = nv.delta_E(a, b)
            rec.close(d.pvector, p, 1e-7, 'delta_E')
            d2 = b.to_ecef_vector() - a.to_ecef_vector()
            rec.close(d2.pvector, p, 1e-7, 'difference of Cartesian positions')
            exact = ka != 'ecef'      # from a Cartesian position the frame is only known to rounding
            dn = nv.delta_N(a, b)
            rec.close(dn.pvector, loc(RN), 1e-7 if exact else 1e-6, 'delta_N')
            dt = a.delta_to(b)
            rec.close(dt.pvector, dn.pvector, 1e-7, 'delta_to is delta_N')
            rec.close(d.change_frame(nv.FrameN(a)).pvector, loc(RN), 1e-7 if exact else 1e-6, 'change_frame(FrameN)')
            for wa in (0.4, -2.5):
                dl = nv.delta_L(a, b, wander_azimuth=wa)
                rec.close(dl.pvector, loc(nv.n_E_and_wa2R_EL(na, wa, R)), 1e-7 if exact else 1e-6, 'delta_L')
            dB = d.change_frame(nv.FrameB(a, 10, 20, 30, degrees=True))
            rec.close(dB.pvector, loc(nv.mdot(RN, nv.zyx2R(*np.radians([10.0, 20, 30])))), 1e-7 if exact else 1e-6, 'change_frame(FrameB)')
            # azimuth: functional form
            az = nv.n_EA_E_and_n_EB_E2azimuth(na, nb, R_Ee=R, **af)
            same_height = np.all(np.asarray(A[2]) == 0) and np.all(np.asarray(B[2]) == 0)
            if same_height and exact and kb != 'ecef':
                close_(rec, np.mod(np.asarray(dn.azimuth) - az + 3, 2 * np.pi), np.full(k, 3.0), 1e-8, 'azimuth of delta_N', single)
        # moving by the delta
        n2, z2 = nv.n_EA_E_and_p_AB_E2n_EB_E(na, p, A[2], R_Ee=R, **af)
        q = (mk('geo', fr, axes, *A).to_ecef_vector() + nv.delta_E(mk('geo', fr, axes, *A), mk('geo', fr, axes, *B))).to_nvector()
        rec.close(q.normal, n2, 1e-13, 'position plus delta')
        close_(rec, q.z, z2, 1e-6, 'position plus delta: depth', single)


def paths(rec, ell, axes, single, big, part=0, of=1):
    fr = frameE(ell, axes)
    R = fr.R_Ee
    for k, (A, B, C, D) in cases(single, big, part, of, 4):
        rec.cover(states=k, transitions=30, traces=k)
        n = [nv.lat_lon2n_E(X[0], X[1], R) for X in (A, B, C, D)]
        for kinds in (('geo', 'geo', 'geo', 'geo'), ('nvec', 'ecef', 'geo', 'nvec')):
            a, b, c, d = [mk(kk, fr, axes, *X) for kk, X in zip(kinds, (A, B, C, D))]
            path, path2 = nv.GeoPath(a, b), nv.GeoPath(c, d)
            normals = path.nvector_normals()
            rec.close(normals[0], n[0], 1e-14, 'nvector_normals')
            rec.close(normals[1], n[1], 1e-13, 'nvector_normals')
            rad = 0.5 * (np.sqrt(np.sum(nv.n_EB_E2p_EB_E(n[0], A[2], fr.a, fr.f, R) ** 2, axis=0))
                         + np.sqrt(np.sum(nv.n_EB_E2p_EB_E(n[1], B[2], fr.a, fr.f, R) ** 2, axis=0)))
            for r, rr in ((None, rad), (6371e3, 6371e3), (1.0, 1.0)):
                kw = {} if r is None else dict(radius=r)
                tol = 3e-7 if r != 1.0 else 1e-13
                for meth, fun in (('greatcircle', nv.great_circle_distance), ('euclidean', nv.euclidean_distance)):
                    close_(rec, path.track_distance(method=meth, **kw), fun(n[0], n[1], rr), tol, 'track_distance %s' % meth, single)
                for meth in ('greatcircle', 'euclidean'):
                    close_(rec, path.cross_track_distance(c, method=meth, **kw), nv.cross_track_distance((n[0], n[1]), n[2], method=meth, radius=rr),
                           tol * 50 if r != 1.0 else 1e-12, 'cross_track_distance %s' % meth, single)
            for atol in (1e-8, 1e-2, 2e6):
                close_(rec, np.asarray(path.on_great_circle(c, atol=atol), dtype=float), np.asarray(nv.on_great_circle((n[0], n[1]), n[2], radius=rad, atol=atol), dtype=float),
                       0, 'on_great_circle', single)
                mid = fr.Nvector(n[2], (np.asarray(A[2]) + B[2]) * 0.5)
                close_(rec, np.asarray(path.on_path(mid, atol=atol), dtype=float), np.asarray(nv.on_great_circle_path((n[0], n[1]), n[2], radius=rad, atol=atol), dtype=float),
                       0, 'on_path', single)
            q = path.closest_point_on_great_circle(c)
            nq = nv.closest_point_on_great_circle((n[0], n[1]), n[2])
            rec.close(q.to_nvector().normal, nq, 1e-11, 'closest_point_on_great_circle')
            X = path.intersect(path2)
            rec.close(X.normal, nv.intersect((n[0], n[1]), (n[2], n[3])), 1e-10, 'intersect')
            close_(rec, X.z, sum(np.asarray(v[2]) for v in (A, B, C, D)) / 4.0, 1e-8, 'intersect depth', single)
            for t in (0, 0.3, 1, 1.7, -0.4):
                Y = path.interpolate(t)
                rec.close(Y.normal, nv.interpolate((n[0], n[1]), t), 1e-13, 'interpolate')
            s = path.track_distance(method='ellipsoidal')
            ga, gb = path.geo_points()
            w = fr.inverse(ga.latitude, ga.longitude, gb.latitude, gb.longitude, z=0.5 * (np.asarray(A[2]) + B[2]))
            close_(rec, s, w[0], 1e-7, 'track_distance ellipsoidal', single)
    rec.sample(ellipsoid=ell, axes=axes, single=single)


def geodesics(rec, ell, axes, single, big, part=0, of=1):
    fr = frameE(ell, axes)
    R = fr.R_Ee
    dist = [0.0, 12.5, 0.003, 3e5, 9e6, 2.2e7]
    azs = [0.0, 0.5, np.pi / 2, -2.0, 3.1]
    for k, (A, B) in cases(single, big, part, of):
        rec.cover(states=k, transitions=12, traces=k)
        a, b = mk('geo', fr, axes, *A), mk('geo', fr, axes, *B)
        na, nb = nv.lat_lon2n_E(A[0], A[1], R), nv.lat_lon2n_E(B[0], B[1], R)
        ra, rb = [np.sqrt(np.sum(nv.n_EB_E2p_EB_E(n, X[2], fr.a, fr.f, R) ** 2, axis=0)) for n, X in ((na, A), (nb, B))]
        z = 0.5 * (np.asarray(A[2]) + B[2])
        for deg in (False, True):
            c = np.degrees if deg else (lambda v: v)
            for unroll in (False, True):
                got = a.distance_and_azimuth(b, long_unroll=unroll, degrees=deg)
                want = fr.inverse(c(A[0]), c(A[1]), c(B[0]), c(B[1]), z=z, long_unroll=unroll, degrees=deg)
                for g, w, t, what in zip(got, want, (1e-7, 1e-9, 1e-9), ('distance', 'azimuth at A', 'azimuth at B')):
                    w = np.asarray(w)
                    if what != 'distance':
                        full = 360.0 if deg else 2 * np.pi
                        diff = np.mod(np.asarray(g) - w + 1, full)
                        close_(rec, diff, np.ones(np.shape(w) or 1), t, 'distance_and_azimuth: ' + what, single, degrees=deg)
                    else:
                        close_(rec, g, w, t, 'distance_and_azimuth: ' + what, single)
            got = a.distance_and_azimuth(b, degrees=deg, method='greatcircle')
            close_(rec, got[0], nv.great_circle_distance(na, nb, 0.5 * (ra + rb)), 3e-7, 'great circle distance_and_azimuth', single)
            for s, az in ((s, az) for s in dist[:4 if single else 6] for az in azs[:: 2 if single else 1]):
                q, azb = a.displace(s, c(az), degrees=deg, method='greatcircle')
                nq = nv.n_EA_E_distance_and_azimuth2n_EB_E(na, s / ra, az, R_Ee=R)
                rec.close(q.to_nvector().normal, nq, 1e-14, 'great circle displacement')
                for unroll in (False, True):
                    q, azb = a.displace(s, c(az), long_unroll=unroll, degrees=deg)
                    lat, lon, az2 = fr.direct(c(A[0]), c(A[1]), c(az), s, z=A[2], long_unroll=unroll, degrees=deg)
                    f = (lambda v: v) if not deg else np.radians
                    close_(rec, q.latitude, f(lat), 1e-13, 'displace latitude', single)
                    close_(rec, q.longitude, f(lon), 1e-12, 'displace longitude', single)
                    close_(rec, np.mod(f(np.asarray(azb)) - f(np.asarray(az2)) + 1, 2 * np.pi), np.ones(np.shape(az2) or 1), 1e-12, 'displace azimuth', single)
                    close_(rec, q.z, np.asarray(A[2], dtype=float), 0, 'displace depth', single)


def tracks(rec, ell, axes, single, big, part=0, of=1):
    fr = frameE(ell, axes)
    R = fr.R_Ee
    lat, lon, z = table(big)
    m = len(lat)
    for start in range(part, m, of):
        idx = (start + 3 * np.arange(6)) % m
        n = nv.lat_lon2n_E(lat[idx], lon[idx], R)
        N = fr.Nvector(n, z[idx])
        t = np.array([0.0, 0.1, 0.4, 0.5, 0.8, 1.0])
        ti = [0.45] if single else np.array([0.0, 0.05, 0.1, 0.62, 0.9, 1.0])
        for kind in ('linear', 'quadratic', 'cubic', 'nearest'):
            for win, order in ((0, 2), (3, 1), (5, 2)):
                for mode in ('interp', 'nearest', 'mirror'):
                    X = N.interpolate(ti, t, kind=kind, window_length=win, polyorder=order, mode=mode)
                    rec.close(X.normal, nv.interp_nvectors(ti, t, n, kind=kind, window_length=win, polyorder=order, mode=mode), 1e-13, 'Nvector.interpolate')
                    rec.cover(states=1, transitions=2, traces=1)
        rec.close(N.mean().normal, nv.mean_horizontal_position(n), 1e-15, 'Nvector.mean')
        rec.close(N.mean().z, np.mean(z[idx]), 1e-9, 'mean depth')


def aliases(rec, ell, axes, single, big, part=0, of=1):
    fr = frameE(ell, axes)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for k, (A, B, C, D) in cases(single, big, part, of, 4):
            rec.cover(states=k, transitions=6, traces=k)
            a, b, c, d = [mk(kk, fr, axes, *X) for kk, X in zip(('geo', 'nvec', 'ecef', 'geo'), (A, B, C, D))]
            p, q = nv.GeoPath(a, b), nv.GeoPath(c, d)
            rec.ok(p.positionA is p.point_a or p.positionA == p.point_a, 'positionA is point_a')
            rec.ok(p.positionB is p.point_b or p.positionB == p.point_b, 'positionB is point_b')
            x, y = p.intersection(q), p.intersect(q)
            rec.close(x.normal, y.normal, 0, 'intersection is intersect')
            rec.close(x.z, y.z, 0, 'intersection is intersect')
            x, y = nv.diff_positions(a, d), nv.delta_E(a, d)
            rec.close(x.pvector, y.pvector, 0, 'diff_positions is delta_E')
            rec.ok(x.scalar == y.scalar and x.frame == y.frame, 'diff_positions is delta_E')
            x, y = b.mean_horizontal_position(), b.mean()
            rec.close(x.normal, y.normal, 0, 'mean_horizontal_position is mean')
            rec.close(x.z, y.z, 0, 'mean_horizontal_position is mean')


def aliases_module(rec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for name in list(util.ELLIPSOID) + list(range(1, 30)):
            def ask(fun):
                try:
                    return tuple(fun(name))
                except Exception as e:
                    return type(e).__name__
            rec.ok(ask(nv.select_ellipsoid) == ask(nv.get_ellipsoid), 'select_ellipsoid is get_ellipsoid', name=name)
            rec.cover(states=1, transitions=2, traces=1)
