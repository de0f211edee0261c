import itertools
from mc.rings import *

BOUNDS = """rings (octahedral, rational and oblique great circles) x path start and length x along-track angles around the whole
circle x cross-track angles in [-90, 90] degrees x radii x tolerances x axes, as arrays, one path against many positions, many
paths against one, single calls, reversed paths; the same through GeoPath on every ellipsoid x point kinds; oracle: the signed
angle from the plane spanned by the given float64 vectors in extended precision."""

LENGTHS = [1e-6, 1e-3, 0.7, np.pi / 2, 2.6, 3.14, -0.4, -2.0, 1e-9, np.pi - 1e-9, -1e-12]
BETAS = [0.0, 1e-9, -1e-9, 1e-5, -1e-3, 0.3, -0.8, 1.5, -1.57, np.pi / 2, -np.pi / 2, np.pi / 2 - 1e-8, 1.2, -1e-14]
RADII = [None, 1.0, 6378137, 1e-2]


def tasks(tier):
    q = tier == 'quick'
    out = []
    nr = len(rings(0 if q else 1))
    for axes in AXES:
        for r in range(nr):
            out.append(('functional', dict(axes=axes, r=r, level=0 if q else 1, n=12 if q else 72)))
    out.append(('exact', dict(n=12 if q else 48)))
    for ell in (alph.ells(0) + ['unit'] if q else alph.ells(2)):
        for axes in ('e', 'E'):
            for r in range(0, nr, 3 if q else 2):
                out.append(('objects_', dict(ell=ell, axes=axes, r=r, level=0 if q else 1)))
    return out


def _want(A, B, P):
    c = ref.unit(ref.cross(ref.ld(A), ref.ld(B)))
    s = -ref.dot(c, ref.ld(P))
    co = ref.norm(ref.cross(c, ref.ld(P)))
    sl = ref.norm(ref.cross(ref.ld(A), ref.ld(B)))
    return s, np.arctan2(s, co), 24 * EPS * (1 + 1 / sl)


def _check(rec, A, B, P, radius, what, shape=None):
    r = 6371009.0 if radius is None else radius
    kw = {} if radius is None else dict(radius=radius)
    s, ang, tol = _want(A, B, P)
    k = max(A.shape[1], B.shape[1], P.shape[1])
    rec.cover(states=k, transitions=5 * k, traces=k)
    d = nv.cross_track_distance((A, B), P, **kw)
    rec.close(d, ang * r, tol * r, what + ': signed distance', A=A, B=B, P=P, radius=r)
    rec.outcome('right', np.sum(ang > tol))
    rec.outcome('left', np.sum(ang < -tol))
    d = nv.cross_track_distance((A, B), P, method='greatcircle', **kw)
    rec.close(d, ang * r, tol * r, what + ': signed distance (named method)', A=A, B=B, P=P)
    d = nv.cross_track_distance((A, B), P, method='euclidean', **kw)
    rec.close(d, s * r, tol * r, what + ': distance to the plane', A=A, B=B, P=P)
    d = nv.cross_track_distance((B, A), P, **kw)
    rec.close(d, -ang * r, tol * r, what + ': reversed path', A=A, B=B, P=P)
    for atol in (1e-10 * r, 1e-4 * r, 0.5 * r, 2.0 * r):
        on = nv.on_great_circle((A, B), P, atol=atol, **kw)
        if np.shape(on) != np.shape(d):
            rec.fail(what + ': on_great_circle has the wrong shape', shape=np.shape(on))
            continue
        dist = np.abs(ang) * r
        sure = np.abs(dist - atol) > tol * r
        rec.holds(~sure | (on == (dist < atol)), what + ': on the circle exactly within the tolerance', A=A, B=B, P=P, on=on, dist=dist)
        rec.outcome('on', np.sum(on))
        rec.outcome('off', np.sum(~np.asarray(on)))
    dist = np.abs(ang) * r
    for j in sorted({0, k // 3, k - 1, 5 % k, 17 % k}):
        for fac in (0.9, 1.1):
            on = nv.on_great_circle((A, B), P, atol=float(fac * dist[j]), **kw)
            sure = np.abs(dist - fac * dist[j]) > tol * r
            rec.holds(~sure | (on == (dist < fac * dist[j])), what + ': on the circle, tolerance near a distance', A=A, B=B, P=P, on=on, dist=dist)
    on = nv.on_great_circle((A, B), P, **kw)
    dist = np.abs(ang) * r
    rec.holds(~(dist > 1e-8 + tol * r) | ~np.asarray(on), what + ': default tolerance, off the circle', A=A, B=B, P=P)
    rec.holds(~(dist < 1e-8 - tol * r) | np.asarray(on), what + ': default tolerance, on the circle', A=A, B=B, P=P)


def exact(rec, n):
    """coordinate planes: a component is zero to the last bit, so positions are on the circle with no tolerance at all"""
    th = 2 * np.pi * (np.arange(n) + 0.2) / n
    th[::3] = np.round(th[::3] * 2 / np.pi) * np.pi / 2
    u = np.stack([np.cos(th), np.sin(th), 0 * th])
    u[:2][np.abs(u[:2]) < 1e-12] = 0.0
    fr = nv.FrameE(axes='E')
    for plane in range(3):
        v = np.roll(u, plane, axis=0)
        off = np.roll(np.array([[0.0], [0.0], [1.0]]), plane, axis=0)
        for i, j in itertools.permutations(range(n), 2):
            a, b = v[:, [i]], v[:, [j]]
            if ref.norm(ref.cross(a, b))[0] < 1e-9:
                continue
            for radius in (1.0, 6371009.0):
                rec.holds(nv.on_great_circle((a, b), v, radius=radius, atol=0), 'on the circle without tolerance', i=i, j=j, plane=plane)
                rec.holds(~nv.on_great_circle((a, b), v + 1e-9 * off, radius=radius, atol=0), 'off the circle without tolerance', i=i, j=j, plane=plane)
                rec.holds(nv.on_great_circle((a, b), v + 1e-9 * off, radius=radius, atol=1.1e-9 * radius), 'on the circle by a small tolerance', i=i, j=j, plane=plane)
            path = nv.GeoPath(fr.Nvector(a), fr.Nvector(b))
            rec.holds(path.on_great_circle(fr.Nvector(v), atol=0), 'GeoPath: on the circle without tolerance', i=i, j=j, plane=plane)
            rec.holds(~path.on_great_circle(fr.Nvector(v + 1e-9 * off), atol=0), 'GeoPath: off the circle without tolerance', i=i, j=j, plane=plane)
            rec.cover(states=n, transitions=8 * n, traces=n)


def functional(rec, axes, r, level, n):
    name, M = rings(level)[r]
    rec.context = dict(ring=name)
    th = 2 * np.pi * np.arange(n) / n
    S, L, T, X = [v.ravel() for v in np.meshgrid(th[::n // 6], LENGTHS, th, BETAS, indexing='ij')]
    A, B, P = emb(axes, at(M, S)), emb(axes, at(M, S + L)), emb(axes, at(M, T, X))
    # the ring itself: what the float64 vectors are rounded from
    d = nv.cross_track_distance((A, B), P, radius=1.0)
    sl = np.abs(np.sin(L))
    want = X * np.sign(L)
    rec.close(d, ref.ld(want), 40 * EPS * (1 + 1 / sl), 'angle from the ring, positive to the right', S=S, L=L, T=T, X=X)
    if r < 2:
        rec.sample(axes=axes, ring=name, start=S[40], length=L[40], along=T[40], right=X[40])
    for radius in RADII:
        _check(rec, A, B, P, radius, 'arrays')
    for ix in pieces(S.size, 6):
        for radius in RADII[:2]:
            _check(rec, A[:, ix], B[:, ix], P[:, ix], radius, 'short arrays')
        _check(rec, A[:, ix[:1]], B[:, ix[:1]], P[:, ix], None, 'one path, few positions')
        _check(rec, A[:, ix], B[:, ix], P[:, ix[:1]], None, 'few paths, one position')
    for L1 in LENGTHS:
        a, b = emb(axes, at(M, th[2])), emb(axes, at(M, th[2] + L1))
        _check(rec, a, b, P[:, :len(BETAS) * n], None, 'one path, many positions')
        _check(rec, A[:, ::11], B[:, ::11], P[:, [5]], 3.0, 'many paths, one position')
        for j in range(0, n * len(BETAS), 13):
            _check(rec, a, b, P[:, [j]], RADII[j % 4], 'single')


def objects_(rec, ell, axes, r, level):
    name, M = rings(level)[r]
    rec.context = dict(ring=name)
    frame = frameE(ell, axes)
    a, f = frame.a, frame.f
    sc = min(1.0, a / 7e6)
    al = [0.1, 1.3, 2.9, -2.0, np.pi, -0.7]
    S, L, T, X = [v.ravel() for v in np.meshgrid([0.0, 2.1, -1.0], [0.02, 1.0, -2.7, np.pi / 2], al, BETAS[:11], indexing='ij')]
    gA, gB, gP = at(M, S), at(M, S + L), at(M, T, X)
    za, zb, zp = np.resize([0.0, 100.0 * sc, -4000.0 * sc], S.size), np.resize([50.0 * sc, -20.0 * sc], S.size), \
        np.resize([-1.0 * sc, 3e3 * sc, 0.0, 7.0 * sc, -1e4 * sc], S.size)
    radius0 = 0.5 * (ref.norm(ref.ecef(gA, za, a, f)) + ref.norm(ref.ecef(gB, zb, a, f)))
    (la, loa), (lb, lob), (lp, lop) = [[ref.f64(v) for v in ref.latlon(g)] for g in (gA, gB, gP)]
    want = X * np.sign(L)
    for ka, kb, kp in (('geo', 'geo', 'geo'), ('nvec', 'geo', 'ecef'), ('ecef', 'nvec', 'nvec'), ('geo', 'ecef', 'geo')):
        tol = (200 + 800 * ('ecef' in (ka, kb, kp))) * EPS * (1 + 1 / np.abs(np.sin(L)))
        for radius in (None, 1000.0):
            r_ = radius0 if radius is None else radius
            kw = {} if radius is None else dict(radius=radius)
            for method, w in (('greatcircle', want), ('euclidean', np.sin(ref.ld(X)) * np.sign(L)), ('eu', np.sin(ref.ld(X)) * np.sign(L))):
                path = nv.GeoPath(mk(ka, frame, axes, la, loa, za), mk(kb, frame, axes, lb, lob, zb))
                d = path.cross_track_distance(mk(kp, frame, axes, lp, lop, zp), method=method, **kw)
                rec.cover(states=S.size, transitions=S.size, traces=S.size)
                rec.close(d, w * r_, tol * r_, 'GeoPath.cross_track_distance', S=S, L=L, T=T, X=X)
                for j in range(0, S.size, 7):
                    path = nv.GeoPath(mk(ka, frame, axes, la[j], loa[j], za[j]), mk(kb, frame, axes, lb[j], lob[j], zb[j]))
                    d = path.cross_track_distance(mk(kp, frame, axes, lp[j], lop[j], zp[j]), method=method, **kw)
                    rec.cover(states=1, transitions=1, traces=1)
                    rec.ok(is_scalar(d), 'one path and position have one cross track distance')
                    t = tol[j] * (r_ if radius else radius0[j])
                    rec.close(d, w[j] * (radius or radius0[j]), t, 'GeoPath.cross_track_distance, single', S=S[j], L=L[j],
                              T=T[j], X=X[j], method=method, radius=radius)
        path = nv.GeoPath(mk(ka, frame, axes, la, loa, za), mk(kb, frame, axes, lb, lob, zb))
        pts = mk(kp, frame, axes, lp, lop, zp)
        d = path.cross_track_distance(pts)
        rec.close(d, want * radius0, tol * radius0, 'GeoPath.cross_track_distance by default', S=S, L=L, T=T, X=X)
        for ix in pieces(S.size, 2):
            pth = nv.GeoPath(mk(ka, frame, axes, la[ix], loa[ix], za[ix]), mk(kb, frame, axes, lb[ix], lob[ix], zb[ix]))
            d = pth.cross_track_distance(mk(kp, frame, axes, lp[ix], lop[ix], zp[ix]))
            rec.cover(states=ix.size, transitions=ix.size, traces=ix.size)
            rec.close(d, want[ix] * radius0[ix], tol[ix] * radius0[ix], 'GeoPath.cross_track_distance, short arrays', S=S[ix], L=L[ix], T=T[ix], X=X[ix])
            j = ix[0]
            pth = nv.GeoPath(mk(ka, frame, axes, la[j], loa[j], za[j]), mk(kb, frame, axes, lb[j], lob[j], zb[j]))
            iy = np.flatnonzero((S == S[j]) & (L == L[j]))[:max(2, ix.size)]
            d = pth.cross_track_distance(mk(kp, frame, axes, lp[iy], lop[iy], zp[iy]))
            rec.close(d, want[iy] * radius0[j], tol[iy] * radius0[j], 'GeoPath.cross_track_distance, one path, few positions', T=T[iy], X=X[iy])
        dist = np.abs(want) * radius0
        for atol in (1e-6 * a, 0.5 * a, 3.0 * a):
            on = path.on_great_circle(pts, atol=atol)
            rec.cover(transitions=S.size)
            rec.holds((np.abs(dist - atol) <= tol * radius0) | (on == (dist < atol)), 'GeoPath.on_great_circle', S=S, L=L, T=T, X=X)
            for j in range(0, S.size, 7):
                p1 = nv.GeoPath(mk(ka, frame, axes, la[j], loa[j], za[j]), mk(kb, frame, axes, lb[j], lob[j], zb[j]))
                on = p1.on_great_circle(mk(kp, frame, axes, lp[j], lop[j], zp[j]), atol=atol)
                rec.cover(transitions=1)
                rec.ok(is_scalar(on) and bool(on) == (dist[j] < atol), 'GeoPath.on_great_circle, single', S=S[j], L=L[j], T=T[j], X=X[j],
                       atol=atol, on=on)
        for j in range(S.size):      # the tolerance just below and above the distance of the position
            p1 = nv.GeoPath(mk(ka, frame, axes, la[j], loa[j], za[j]), mk(kb, frame, axes, lb[j], lob[j], zb[j]))
            for fac in (0.9995, 1.0005):
                if dist[j] * 2e-4 > tol[j] * radius0[j]:
                    on = p1.on_great_circle(mk(kp, frame, axes, lp[j], lop[j], zp[j]), atol=float(fac * dist[j]))
                    rec.cover(transitions=1)
                    rec.ok(bool(on) == (fac > 1), 'GeoPath.on_great_circle, tolerance in metres near the distance', S=S[j], L=L[j], T=T[j], X=X[j], fac=fac)
        on = path.on_great_circle(pts)
        rec.holds(~(dist > 1e-8 + tol * radius0) | ~np.asarray(on), 'GeoPath.on_great_circle, default tolerance', S=S, L=L, T=T, X=X)
