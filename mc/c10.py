from mc.common import *

BOUNDS = """base positions (position alphabet, integer lattice) x directions x separations 0, 1e-16 .. pi rad (also pi minus the
same) x radii x axes, as arrays of pairs, one against many and single calls; GeoPath.track_distance on every ellipsoid x depth
pairs x point kinds x method names x radius given or not; separations 1e-8 .. 1e-140 from positions on the axes (exact components); array lengths 1, 2, 3, 4, 5, 7, 257, 1025; oracle: angle and chord
of the given float64 vectors in extended precision."""

RADII = [None, 1.0, 6371009.0, 6378137, 3.5e-3, 1e12]
SIZES = [1, 2, 3, 4, 5, 7, 257, 1025]


def seps():
    out = [0.0, np.pi, np.pi / 2, 1.0, 2.5, np.pi / 3]
    for k in range(1, 17):
        out += [10.0 ** -k, np.pi - 10.0 ** -k, np.pi / 2 - 10.0 ** -k]
    return alph.uniq(out)


def tasks(tier):
    q = tier == 'quick'
    out = []
    for axes in AXES:
        out.append(('functional', dict(axes=axes, m=1 if q else 2, naz=5 if q else 24)))
        out.append(('sizes', dict(axes=axes)))
    out.append(('tiny', dict(axes='e')))
    for m in range(1, 4 if q else 7):
        out.append(('lattice_pairs', dict(m=m)))
    for ell in (alph.ells(1) if q else alph.ells(2)):
        for axes in ('e', 'E'):
            for ka in KINDS:
                out.append(('paths', dict(ell=ell, axes=axes, ka=ka, full=not q)))
    return out


def _check(rec, a, b, radius, what):
    """a, b: (3,k) or (3,1) float"""
    kw = {} if radius is None else dict(radius=radius)
    r = 6371009.0 if radius is None else radius
    d = nv.great_circle_distance(a, b, **kw)
    e = nv.euclidean_distance(a, b, **kw)
    la, lb = ref.ld(a), ref.ld(b)
    ang = ref.angle(la, lb) * r
    chord = ref.norm(la - lb) * r
    k = max(a.shape[1], b.shape[1])
    ang, chord = ang + np.zeros(k), chord + np.zeros(k)
    rec.cover(states=k, transitions=2 * k, traces=k)
    rec.close(d, ang, 20 * EPS * r, what + ': angle times radius', a=a, b=b, radius=r)
    rec.close(e, chord, 12 * EPS * r, what + ': chord times radius', a=a, b=b, radius=r)
    return d, e


def functional(rec, axes, m, naz):
    la, lo, _ = positions_deg()
    azs = np.linspace(-np.pi, np.pi, naz, endpoint=False) + 0.1
    ss = np.array(seps())
    S, Z, I = [v.ravel() for v in np.meshgrid(ss, azs, np.arange(la.size), indexing='ij')]
    g = ref.nvec(la[I], lo[I])
    n, e, _ = ref.ned(la[I], lo[I])
    b, _ = ref.travel(g, n, e, Z, S)
    A, B = ref.f64(toE(axes, g)), ref.f64(toE(axes, b))
    rec.sample(axes=axes, base=alph.POSITIONS[1], azimuth=azs[0], separations=ss)
    for radius in RADII:
        d, e = _check(rec, A, B, radius, 'pairs')
        d2, e2 = _check(rec, B, A, radius, 'pairs')
        rec.close(d, ref.ld(d2), 4 * EPS * (radius or 6.4e6), 'symmetric', S=S)
        rec.close(e, ref.ld(e2), 4 * EPS * (radius or 6.4e6), 'symmetric chord', S=S)
        d, e = _check(rec, A, A, radius, 'coincident')
        rec.holds(d == 0, 'coincident positions have distance zero', A=A)
        rec.holds(e == 0, 'coincident positions have chord zero', A=A)
        d, e = _check(rec, A, -A, radius, 'antipodal')
    for i in range(la.size):
        one = A[:, [i]]
        _check(rec, one, B, 2.0, 'one against many')
        _check(rec, B, one, None, 'many against one')
    for j in range(0, S.size, 7):
        _check(rec, A[:, [j]], B[:, [j]], RADII[j % len(RADII)], 'single')


def sizes(rec, axes):
    la, lo, _ = positions_deg()
    for k in SIZES:
        i = np.arange(k)
        A = nE(np.resize(la, k) * (1 - 1e-4 * i / k), np.resize(lo, k) + 0.3 * i / k, axes)
        B = nE(np.roll(np.resize(la, k), 3) * (1 - 2e-4 * i / k), np.resize(lo, k) + 1.3, axes)
        for radius in RADII:
            _check(rec, A, B, radius, '%d pairs' % k)
            _check(rec, A[:, :1], B, radius, '1 against %d' % k)
            _check(rec, A, B[:, :1], radius, '%d against 1' % k)
        r = np.linspace(1.0, 7e6, k)
        d = nv.great_circle_distance(A, B, radius=r)
        e = nv.euclidean_distance(A, B, radius=r)
        rec.close(d, ref.angle(ref.ld(A), ref.ld(B)) * r, 12 * EPS * r, 'a radius for every pair')
        rec.close(e, ref.norm(ref.ld(A) - ref.ld(B)) * r, 12 * EPS * r, 'a radius for every pair, chord')
        for arr in (np.asfortranarray, lambda v: np.repeat(v, 2, axis=1)[:, ::2]):
            rec.close(nv.great_circle_distance(arr(A), arr(B), radius=r), ref.ld(d), 4 * EPS * r, 'memory layout')
            rec.close(nv.euclidean_distance(arr(A), arr(B), radius=r), ref.ld(e), 4 * EPS * r, 'memory layout, chord')


def tiny(rec, axes):
    """separations far below the rounding of the components: from positions whose components are exact"""
    E3 = np.eye(3)
    base = [(s * E3[:, i], t * E3[:, j]) for i in range(3) for j in range(3) if i != j for s in (1, -1) for t in (1, -1)]
    ks = np.array([10.0 ** -k for k in range(8, 61)] + [3.3 * 10.0 ** -k for k in (9, 14, 16, 17, 20, 33, 100, 140)])
    for g, t in base:
        A, B = np.repeat(g[:, None], ks.size, axis=1), g[:, None] + t[:, None] * ks
        for radius in (None, 1.0, 1e12):
            r = 6371009.0 if radius is None else radius
            kw = {} if radius is None else dict(radius=radius)
            for what, a, b in (('pairs', A, B), ('other way', B, A), ('one against many', A[:, :1], B)):
                d, e = nv.great_circle_distance(a, b, **kw), nv.euclidean_distance(a, b, **kw)
                rec.cover(states=ks.size, transitions=2 * ks.size, traces=ks.size)
                rec.close(d / (ks * r), np.ones(ks.size), 1e-11, 'tiny separation, ' + what, base=g, towards=t, separation=ks, radius=r)
                rec.close(e / (ks * r), np.ones(ks.size), 1e-11, 'tiny separation, chord, ' + what, base=g, towards=t, separation=ks, radius=r)
            for j in range(0, ks.size, 3):
                d, e = nv.great_circle_distance(A[:, [j]], B[:, [j]], **kw), nv.euclidean_distance(A[:, [j]], B[:, [j]], **kw)
                rec.cover(states=1, transitions=2, traces=1)
                rec.close(np.ravel(d) / (ks[j] * r), [1], 1e-11, 'tiny separation, single', base=g, towards=t, separation=ks[j], radius=r)
                rec.close(np.ravel(e) / (ks[j] * r), [1], 1e-11, 'tiny separation, chord, single', base=g, towards=t, separation=ks[j], radius=r)
    rec.outcome('below 1e-15 rad', np.sum(ks < 1e-15))


def lattice_pairs(rec, m):
    """all pairs of integer directions, the first with entries up to m, the second up to 2"""
    L, M = lattice(m), lattice(2)
    L = L[:, np.max(np.abs(L), axis=0) == m]
    A = ref.f64(ref.unit(ref.ld(L)))
    B = ref.f64(ref.unit(ref.ld(M)))
    for j in range(B.shape[1]):
        _check(rec, A, B[:, [j]], 1.0, 'lattice')


def paths(rec, ell, axes, ka, full):
    frame = frameE(ell, axes)
    a, f = frame.a, frame.f
    for step in [a * 10.0 ** -k for k in range(1, 17)] + [0.0]:
        # several paths on one circle of latitude, whose distances from the centre differ by more or less
        lat, lon, z = np.full(4, 0.6), np.array([0.1, 1.0, -2.0, 3.0]), step * np.array([0.0, 1.0, -0.5, 0.3])
        P = frame.GeoPoint(lat, lon, z, degrees=True)
        Q = frame.GeoPoint(lat, lon + np.array([0.5, 20.0, 100.0, 1.0]), z[::-1], degrees=True)
        g = [ref.nvec(v.latitude, v.longitude) for v in (P, Q)]
        r = [ref.norm(ref.ecef(n, v.z, a, f)) for n, v in zip(g, (P, Q))]
        mean, ang = 0.5 * (r[0] + r[1]), ref.angle(*g)
        for method, w in (('greatcircle', ang * mean), ('euclidean', ref.norm(g[0] - g[1]) * mean)):
            rec.close(nv.GeoPath(P, Q).track_distance(method=method), w, 240 * EPS * mean, 'each path has its own radius', step=step)
        rec.close(P.distance_and_azimuth(Q, method='greatcircle')[0], ang * mean, 240 * EPS * mean, 'each pair has its own radius', step=step)
        rec.cover(states=4, transitions=3, traces=4)
    la, lo, _ = positions_deg(None if full else 10)
    N = la.size
    I, J = [v.ravel() for v in np.meshgrid(np.arange(N), np.arange(N), indexing='ij')]
    sc = min(1.0, a / 7e6)
    for za, zb in ((0.0, 0.0), (1000.0 * sc, -7000.0 * sc), (-3e5 * sc, -3e5 * sc)):
        ga, gb = ref.nvec(la, lo), ref.nvec(la, lo)
        ra = ref.norm(ref.ecef(ga, za, a, f))
        rb = ref.norm(ref.ecef(gb, zb, a, f))
        for kb in KINDS:
            pts_a = [mk(ka, frame, axes, la[i], lo[i], za) for i in range(N)]
            pts_b = [mk(kb, frame, axes, la[i], lo[i], zb) for i in range(N)]
            A = mk(ka, frame, axes, la[I], lo[I], np.full(I.size, za))
            B = mk(kb, frame, axes, la[J], lo[J], np.full(I.size, zb))
            A1 = mk(ka, frame, axes, la[0], lo[0], za)
            mean = 0.5 * (ra[I] + rb[J])
            ang = ref.angle(ga[:, I], gb[:, J])
            chord = ref.norm(ga[:, I] - gb[:, J])
            for radius in (None, 2500.0, 1):
                r = mean if radius is None else radius
                # positions given as Cartesian vectors are rounded to about an ulp of the radius
                tol = 60 * EPS * (mean if radius is None else radius)
                tol = tol * (1 if radius is None and 'ecef' not in (ka, kb) else 4)
                kw = {} if radius is None else dict(radius=radius)
                for method, want in (('greatcircle', ang * r), ('euclidean', chord * r)):
                    d = nv.GeoPath(A, B).track_distance(method=method, **kw)
                    rec.cover(states=I.size, transitions=I.size, traces=I.size)
                    rec.close(d, want, tol, 'track_distance of many paths', I=I, J=J)
                    sel = I == 0
                    d = nv.GeoPath(A1, mk(kb, frame, axes, la, lo, np.full(N, zb))).track_distance(method=method, **kw)
                    rec.close(d, want[sel], tol[sel] if np.ndim(tol) else tol, 'track_distance one to many', J=J[sel], method=method)
                    for k in range(0, I.size, 1 if full else 2):
                        path = nv.GeoPath(pts_a[I[k]], pts_b[J[k]])
                        d = path.track_distance(method=method, **kw)
                        rec.cover(states=1, transitions=1, traces=1)
                        rec.ok(is_scalar(d), 'one path has one distance', method=method)
                        rec.close(d, want[k], tol[k] if np.ndim(tol) else tol, 'track_distance', A=alph.POSITIONS[I[k]],
                                  B=alph.POSITIONS[J[k]], za=za, zb=zb, method=method, radius=radius)
                d = nv.GeoPath(A, B).track_distance(**kw)
                rec.close(d, ang * r, tol, 'track_distance by default', I=I, J=J, radius=radius)
            if f == 0 and za == zb:
                t = 0.5 * (ra[0] + rb[0])
                s, az, bz = A.to_geo_point().distance_and_azimuth(B, method='greatcircle')
                rec.close(s, ang * t, 240 * EPS * t, 'great circle distance_and_azimuth', I=I, J=J)
            s, az, bz = A.to_geo_point().distance_and_azimuth(B, method='greatcircle')
            rec.close(s, ang * mean, 240 * EPS * mean, 'great circle distance at the mean radius', I=I, J=J)
