from mc.rings import *

BOUNDS = """closed model: n equally spaced positions on a ring; every (start, end shorter than half a turn, candidate) triple, with
candidates also an arc-second to either side of both ends and beside the ring, decides membership by modular arithmetic; all
rings (octahedral, rational, oblique, polar, antimeridian) x radii x axes, functional (arrays, broadcast, single); through
GeoPath.on_path for point kinds x ellipsoids x depths; ellipsoidal method: geodesics from a start alphabet x azimuths x lengths
with candidates at twelfths of the length inside, beyond, behind and beside."""

FINE = 5e-6   # about an arc second


def tasks(tier):
    q = tier == 'quick'
    out = []
    nr = len(rings(0 if q else 1))
    for axes in AXES:
        for r in range(nr):
            out.append(('functional', dict(axes=axes, r=r, level=0 if q else 1, n=24 if q else 60)))
    for ell in (alph.ells(0) if q else alph.ells(2)):
        for axes in ('e', 'E'):
            for r in range(0, nr, 1 if q else 1):
                out.append(('objects_', dict(ell=ell, axes=axes, r=r, level=0 if q else 1, n=8 if q else 16)))
            for i in range(len(STARTS)):
                out.append(('ellipsoid', dict(ell=ell, axes=axes, i=i, full=not q)))
    return out


def triples(n):
    """(start, length in steps, candidate offset from the start, fine shift, cross angle, inside?)"""
    out = []
    for s in range(n):
        for length in list(range(1, (n + 1) // 2)):
            for sign in (1, -1):
                for c in range(n):
                    k = (c * sign) % n        # steps from the start in the direction of travel
                    out.append((s, sign * length, c, 0.0, 0.0, k <= length))
                for edge in (0, sign * length):
                    for fine in (FINE, -FINE):
                        # fine > 0: further along the ring
                        along = fine * sign
                        inside = (along > 0) if edge == 0 else (along < 0)
                        out.append((s, sign * length, edge, fine, 0.0, inside))
                for c in (0, sign * length, sign):
                    for x in (FINE, -FINE, 0.4, -1.0):
                        out.append((s, sign * length, c, 0.0, x, False))
    return [np.array(v) for v in zip(*out)]


def functional(rec, axes, r, level, n):
    name, M = rings(level)[r]
    rec.context = dict(ring=name, n=n)
    h = 2 * ref.PI / n
    grid = emb(axes, at(M, np.arange(n) * h))
    S, L, C, F, X, inside = triples(n)
    A, B = grid[:, S % n], grid[:, (S + L) % n]
    P = np.where((F == 0) & (X == 0), grid[:, (S + C) % n], emb(axes, at(M, (S + C) * h + F, X)))
    want = inside.astype(bool)
    rec.sample(axes=axes, ring=name, start=S[200], length=L[200], candidate=C[200], inside=want[200])
    info = dict(S=S, L=L, C=C, F=F, X=X)
    for kw in (dict(atol=1e-3), dict(radius=1.0, atol=1e-9), dict(radius=6378137, atol=1.0)):
        on = nv.on_great_circle_path((A, B), P, **kw)
        rec.cover(states=S.size, transitions=2 * S.size, traces=S.size)
        if np.shape(on) != (S.size,):
            return rec.fail('one answer for every position', shape=np.shape(on))
        rec.holds(on == want, 'on the path exactly when between the end points', wanted=want, **info)
        rec.outcome('on', np.sum(on))
        rec.outcome('not on', np.sum(~on))
    on = nv.on_great_circle_path((A, B), P)
    rec.holds(want | ~on, 'off the path with the default tolerance', **info)
    # a great circle does not end: every position of the ring is on it
    on = nv.on_great_circle((A, B), P, atol=1e-3)
    rec.holds(on == (X == 0), 'on the great circle all the way round', **info)
    for ix in pieces(S.size, 6, r):
        on = nv.on_great_circle_path((A[:, ix], B[:, ix]), P[:, ix], atol=1e-3)
        rec.cover(states=ix.size, transitions=ix.size, traces=ix.size)
        if rec.ok(np.shape(on) == ix.shape, 'short arrays: one answer for every position', got=np.shape(on)):
            rec.holds(on == want[ix], 'short arrays', S=S[ix], L=L[ix], C=C[ix], F=F[ix], X=X[ix])
        iy = np.flatnonzero((S == S[ix[0]]) & (L == L[ix[0]]))[:ix.size]
        on = nv.on_great_circle_path((A[:, ix[:1]], B[:, ix[:1]]), P[:, iy], atol=1e-3)
        if rec.ok(np.shape(on) == iy.shape, 'one path, few positions: one answer for every position', got=np.shape(on)):
            rec.holds(on == want[iy], 'one path, few positions', S=S[iy], L=L[iy], C=C[iy], F=F[iy], X=X[iy])
    # one path, many positions
    for s in (0, n // 3):
        for length in (1, 3, n // 2 - 1, -2, -(n // 2) + 1):
            sel = (S == s) & (L == length)
            a, b = grid[:, [s % n]], grid[:, [(s + length) % n]]
            on = nv.on_great_circle_path((a, b), P[:, sel], atol=1e-3)
            rec.cover(states=sel.sum(), transitions=2 * sel.sum(), traces=sel.sum())
            rec.close(on.astype(float), want[sel].astype(float), 0, 'one path, many positions', C=C[sel], F=F[sel], X=X[sel])
            for j in np.flatnonzero(sel)[::2]:
                on = nv.on_great_circle_path((a, b), P[:, [j]], atol=1e-3)
                rec.cover(states=1, transitions=3, traces=1)
                rec.ok(np.shape(on) == (1,) and bool(on[0]) == want[j], 'single', S=S[j], L=L[j], C=C[j], F=F[j], X=X[j], on=on)


def objects_(rec, ell, axes, r, level, n):
    name, M = rings(level)[r]
    rec.context = dict(ring=name, n=n)
    frame = frameE(ell, axes)
    sc = min(1.0, frame.a / 7e6)
    tol = 1e-3 * sc
    h = 2 * ref.PI / n
    S, L, C, F, X, inside = triples(n)
    g = at(M, (S + C) * h + F, X)
    gA, gB = at(M, S * h), at(M, (S + L) * h)
    (la, loa), (lb, lob), (lp, lop) = [[ref.f64(v) for v in ref.latlon(v)] for v in (gA, gB, g)]
    N = S.size
    for ka, kb, kp in (('geo', 'geo', 'geo'), ('nvec', 'geo', 'ecef'), ('ecef', 'nvec', 'nvec')):
        for za, zb, dz in ((0.0, 0.0, 0.0), (100.0 * sc, -40.0 * sc, 0.0), (0.0, 0.0, 2.0 * sc), (100.0 * sc, -40.0 * sc, -2.0 * sc),
                           (100.0 * sc, -40.0 * sc, 70.0 * sc)):
            zp = 0.5 * (za + zb) + dz
            want = inside.astype(bool) & (dz == 0)
            path = nv.GeoPath(mk(ka, frame, axes, la, loa, np.full(N, za)), mk(kb, frame, axes, lb, lob, np.full(N, zb)))
            on = path.on_path(mk(kp, frame, axes, lp, lop, np.full(N, zp)), atol=tol)
            rec.cover(states=N, transitions=4 * N, traces=N)
            # end points themselves may be rounded a few ulp beyond the end when they are converted
            end = (F == 0) & (X == 0) & ((C % n == 0) | ((C - L) % n == 0))
            rec.holds(end & want | (on == want), 'GeoPath.on_path', S=S, L=L, C=C, F=F, X=X)
            if (ka, kb, kp) == ('geo', 'geo', 'geo') and za == zb and dz == 0:
                for j in np.flatnonzero(end & want)[::3]:
                    A, B = frame.GeoPoint(la[j], loa[j], za), frame.GeoPoint(lb[j], lob[j], zb)
                    for method in ('greatcircle', 'ellipsoid'):
                        for p in (A, B):
                            on1 = nv.GeoPath(A, B).on_path(p, method=method, atol=tol)
                            rec.cover(states=1, transitions=3, traces=1)
                            rec.ok(bool(on1), 'the end points are on the path', A=(la[j], loa[j]), B=(lb[j], lob[j]), method=method)
            for j in range(0, N, 11 if level == 0 else 7):
                if end[j] and want[j]:
                    continue
                p1 = nv.GeoPath(mk(ka, frame, axes, la[j], loa[j], za), mk(kb, frame, axes, lb[j], lob[j], zb))
                on1 = p1.on_path(mk(kp, frame, axes, lp[j], lop[j], zp), atol=tol)
                rec.cover(states=1, transitions=3, traces=1)
                rec.ok(is_scalar(on1) and bool(on1) == want[j], 'GeoPath.on_path, single', S=S[j], L=L[j], C=C[j], F=F[j], X=X[j],
                       on=on1, want=want[j], za=za, zb=zb, zp=zp)
            for ix in pieces(N, 1, int(r)):
                pth = nv.GeoPath(mk(ka, frame, axes, la[ix], loa[ix], np.full(ix.size, za)), mk(kb, frame, axes, lb[ix], lob[ix], np.full(ix.size, zb)))
                on = pth.on_path(mk(kp, frame, axes, lp[ix], lop[ix], np.full(ix.size, zp)), atol=tol)
                rec.cover(states=ix.size, transitions=4 * ix.size, traces=ix.size)
                rec.holds((end & want)[ix] | (on == want[ix]), 'GeoPath.on_path, short arrays', S=S[ix], L=L[ix], C=C[ix], F=F[ix], X=X[ix])
            # one path against many positions
            j = N // 2 + 5
            sel = (S == S[j]) & (L == L[j]) & ~(end & want)
            p1 = nv.GeoPath(mk(ka, frame, axes, la[j], loa[j], za), mk(kb, frame, axes, lb[j], lob[j], zb))
            m = int(sel.sum())
            on = p1.on_path(mk(kp, frame, axes, lp[sel], lop[sel], np.full(m, zp)), atol=tol)
            rec.holds(on == want[sel], 'GeoPath.on_path, one path and many positions', C=C[sel], F=F[sel], X=X[sel])


STARTS = [(0.0, 0.0), (40.0, -75.0), (-33.0, 179.5), (80.0, 10.0), (-89.0, 100.0), (51.0, -179.9), (1e-7, 60.0), (90.0, 0.0),
          (-90.0, 45.0), (60.0, 180.0)]
AZI = [0.0, 90.0, -90.0, 180.0, 33.0, -140.0, 179.999, -1e-6, 120.0]


def ellipsoid(rec, ell, axes, i, full):
    from geographiclib.geodesic import Geodesic
    frame = frameE(ell, axes)
    if not -0.03 < frame.f < 0.03:
        return
    sc = min(1.0, frame.a / 7e6)
    la, lo = STARTS[i]
    for z in (0.0, 3000.0 * sc, -9000.0 * sc):
        geo = Geodesic(frame.a - z, frame.f)
        for az in AZI:
            for length in ((1e5 * sc, 3e6 * sc, 1.4e7 * sc) if not full else (1e4 * sc, 1e5 * sc, 1e6 * sc, 3e6 * sc, 9e6 * sc, 1.4e7 * sc, 1.9e7 * sc)):
                pts = []
                for k in range(-5, 19):
                    if k in (0, 12):
                        continue
                    pts.append((geo.Direct(la, lo, az, k * length / 12), 0 < k < 12, k, 0))
                for k, d in ((12, 3.0), (12, -3.0), (0, 3.0), (0, -3.0)):
                    s = k * length / 12 + d * sc
                    if k == 0:
                        s *= 1000     # azimuths lose precision close to the start
                    pts.append((geo.Direct(la, lo, az, s), 0 < s < length, k, d))
                for k in (3, 9):
                    mid = geo.Direct(la, lo, az, k * length / 12)
                    for side in (90.0, -90.0):
                        pts.append((geo.Direct(mid['lat2'], mid['lon2'], mid['azi2'] + side, 1e-3 * length), False, k, side))
                A = frame.GeoPoint(la, lo, z, degrees=True)
                e = geo.Direct(la, lo, az, length)
                B = frame.GeoPoint(e['lat2'], e['lon2'], z, degrees=True)
                path = nv.GeoPath(A, B)
                want = np.array([w for _, w, _, _ in pts])
                K = np.array([k for _, _, k, _ in pts])
                D = np.array([d for _, _, _, d in pts])
                lat, lon = np.array([p['lat2'] for p, _, _, _ in pts]), np.array([p['lon2'] for p, _, _, _ in pts])
                for method in ('ellipsoid', 'exact'):
                    on = path.on_path(frame.GeoPoint(lat, lon, z, degrees=True), method=method)
                    rec.cover(states=K.size, transitions=3 * K.size, traces=K.size)
                    rec.holds(np.asarray(on) == want, 'ellipsoidal on_path', K=K, D=D, start=(la, lo), az=az, length=length, z=z)
                    rec.outcome('geodesic: on', np.sum(on))
                    rec.outcome('geodesic: not on', np.sum(~np.asarray(on)))
                for ix in pieces(K.size, 1, i):
                    on = path.on_path(frame.GeoPoint(lat[ix], lon[ix], z, degrees=True), method='ellipsoid')
                    rec.holds(np.asarray(on) == want[ix], 'ellipsoidal on_path, short arrays', K=K[ix], D=D[ix], start=(la, lo), az=az, length=length, z=z)
                for other in (z + 5.0 * sc, z - 5.0 * sc):
                    on = path.on_path(frame.GeoPoint(lat, lon, other, degrees=True), method='ellipsoid')
                    rec.holds(~np.asarray(on), 'ellipsoidal on_path at another depth', K=K, D=D, start=(la, lo), az=az, length=length)
                for k in (2, 7, 20, 27):
                    for kind in ('geo', 'nvec', 'ecef'):
                        p = frame.GeoPoint(lat[k], lon[k], z, degrees=True)
                        p = p.to_nvector() if kind == 'nvec' else p.to_ecef_vector() if kind == 'ecef' else p
                        if kind == 'ecef' and abs(la) == 90.0:
                            continue
                        on = path.on_path(p, 'ellipsoid')
                        rec.cover(states=1, transitions=3, traces=1)
                        rec.ok(is_scalar(on) and bool(on) == want[k], 'ellipsoidal on_path, single', K=K[k], start=(la, lo), az=az,
                               length=length, kind=kind, z=z)
                rec.ok(bool(path.on_path(A, 'ellipsoid')) and bool(path.on_path(B, 'ellipsoid')), 'ends are on the geodesic', start=(la, lo), az=az)
