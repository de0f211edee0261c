import itertools
from mc.rings import *

BOUNDS = """rings x path start and length (coincident, 1e-6 rad .. antipodal, either way) x times (0, 1, inside, outside, +-1e3, 1e-12, all
ordered pairs of times) x axes, functional and GeoPath.interpolate (point kinds x ellipsoids x depths x scalar and array times x
arrays of paths x integer depths); oracle: the normalised straight line between the given float64 vectors in extended precision."""

LENGTHS = [0.0, 1e-6, 1e-8, 0.01, 1.1, np.pi / 2, -2.0, 3.0, 3.14, np.pi - 1e-7]
TIMES = [0.0, 1.0, 0.5, 0.25, 1e-12, 1 - 1e-12, 0.9995, 0.0003, 1 - 1e-6, 1 + 1e-9, 0.1, 0.9, 0.37, -1e-9, -0.2, 1.3, -2.0, 5.0, 1e3, -1e3, 1 / 3., 2 / 3.]


def tasks(tier):
    q = tier == 'quick'
    out = []
    nr = len(rings(0 if q else 1))
    for axes in AXES:
        for r in range(nr):
            out.append(('functional', dict(axes=axes, r=r, level=0 if q else 1)))
    for ell in (alph.ells(0) if q else alph.ells(2)):
        for axes in ('e', 'E'):
            for r in range(0, nr, 2):
                out.append(('objects_', dict(ell=ell, axes=axes, r=r, level=0 if q else 1)))
    return out


def _want(a, b, t):
    v = ref.ld(a) + ref.ld(t) * (ref.ld(b) - ref.ld(a))
    n = ref.norm(v)
    return v / n, n


def _check(rec, A, B, t, what):
    k = max(A.shape[1], np.size(t))
    X = nv.interpolate((A, B), t)
    rec.cover(states=k, transitions=k, traces=k)
    w, n = _want(A, B, t)
    if np.shape(X) != (3, k):
        return rec.fail(what + ': wrong shape', shape=np.shape(X))
    tol = 8 * EPS * (1 + (1 + np.abs(t)) / n)
    rec.close(ref.norm(ref.ld(X)), np.ones(k), 8 * EPS, what + ': unit vector', A=A, B=B)
    rec.close(X, w + np.zeros((3, k)), tol, what + ': normalised straight line', A=A, B=B, t=np.asarray(t) + np.zeros(k))
    c = ref.cross(ref.ld(A), ref.ld(B))
    s = ref.norm(c) + np.zeros(k)
    ok = s > 1e-9
    off = np.where(ok, ref.dot(c, ref.ld(X)) / np.where(ok, s, 1), 0)
    rec.close(off, np.zeros(k), tol * (1 + 1 / np.where(ok, s, 1)), what + ': on the great circle', A=A, B=B)
    return X


def functional(rec, axes, r, level):
    name, M = rings(level)[r]
    rec.context = dict(ring=name)
    S, L = [v.ravel() for v in np.meshgrid(np.linspace(0, 2 * np.pi, 6 if not level else 24, endpoint=False), LENGTHS, indexing='ij')]
    A, B = emb(axes, at(M, S)), emb(axes, at(M, S + L))
    rec.sample(axes=axes, ring=name, start=S[9], length=L[9], times=TIMES)
    order = np.argsort(TIMES)
    along = []
    for t in TIMES:
        X = _check(rec, A, B, t, 'many paths, one time')
        if X is not None:
            along.append(X)
        if t in (0.0, 1.0) and X is not None:
            rec.close(X, ref.ld(A if t == 0 else B), 4 * EPS, 'times 0 and 1 give the end points', S=S, L=L)
            X = nv.interpolate((A, B), int(t))
            rec.close(X, ref.ld(A if t == 0 else B), 4 * EPS, 'integer times 0 and 1 give the end points', S=S, L=L)
    if len(along) == len(TIMES):
        # every ordered pair of times: later is further along (angle from the start in the direction of travel)
        ang = []
        c = ref.cross(ref.ld(A), ref.ld(B))
        sl = ref.norm(c)
        ok = (sl > 1e-9)
        c = c / np.where(ok, sl, 1)
        for X in along:
            ang.append(np.arctan2(ref.dot(c, ref.cross(ref.ld(A), ref.ld(X))), ref.dot(ref.ld(A), ref.ld(X))))
        for i in order:
            for j in order:
                if TIMES[i] < TIMES[j]:
                    rec.holds(~ok | (ang[j] - ang[i] > -1e-14 * (1 + abs(TIMES[j]) + abs(TIMES[i])) * (1 + 1 / np.where(ok, sl, 1))),
                              'later times are not further back', S=S, L=L, t1=TIMES[i], t2=TIMES[j])
                    rec.cover(transitions=S.size)
                if 0 <= TIMES[i] <= 1:
                    rec.holds(~ok | ((ang[i] > -1e-13) & (ang[i] < np.arctan2(sl, ref.dot(ref.ld(A), ref.ld(B))) + 1e-13)),
                              'between the end points for times between 0 and 1', S=S, L=L, t=TIMES[i])
    T = np.array(TIMES)
    for j in range(S.size):
        _check(rec, A[:, [j]], B[:, [j]], T, 'one path, many times')
        for t in TIMES[::3]:
            _check(rec, A[:, [j]], B[:, [j]], t, 'single')
    _check(rec, A, B, np.resize(T, S.size), 'many paths, a time for each')
    for ix in pieces(S.size, 4):
        t = np.resize(np.roll(T, ix[0]), ix.size)
        _check(rec, A[:, ix], B[:, ix], t, 'few paths, a time for each')
        _check(rec, A[:, ix], B[:, ix], t[0], 'few paths, one time')
        _check(rec, A[:, ix[:1]], B[:, ix[:1]], t, 'one path, few times')
    # midway between antipodal positions
    X = nv.interpolate((A, -A), 0.5)
    rec.holds(np.isnan(X), 'midway between antipodal positions is undefined', S=S)
    X = nv.interpolate((A, np.where(np.arange(S.size) % 3 == 0, -A, B)), 0.5)
    w, _ = _want(A, B, 0.5)
    sel = np.arange(S.size) % 3 != 0
    rec.holds(np.isnan(X[:, ~sel]), 'midway between antipodal positions among others is undefined')
    rec.close(X[:, sel], w[:, sel], 16 * EPS * (1 + 1 / np.abs(np.cos(L[sel] / 2))), 'midway between antipodal positions among others: the others')
    _check(rec, A, -A, 0.25, 'antipodal, a quarter')


def objects_(rec, ell, axes, r, level):
    name, M = rings(level)[r]
    rec.context = dict(ring=name)
    frame = frameE(ell, axes)
    sc = min(1.0, frame.a / 7e6)
    S, L = [v.ravel() for v in np.meshgrid([0.0, 2.1, -1.0], LENGTHS, indexing='ij')]
    gA, gB = at(M, S), at(M, S + L)
    N = S.size
    za, zb = np.resize([0.0, 100.0, -4000.0], N) * sc, np.resize([50.0, -20.0], N) * sc
    (la, loa), (lb, lob) = [[ref.f64(v) for v in ref.latlon(g)] for g in (gA, gB)]
    tz = 1e-8 * frame.a / 6e6
    T = np.array(TIMES)
    for ka, kb in (('geo', 'geo'), ('nvec', 'geo'), ('ecef', 'nvec'), ('geo', 'ecef')):
        def verify(X, sel, t, what):
            w, n = _want(gA[:, sel], gB[:, sel], t)
            k = w.shape[1]
            if not rec.ok(type(X) is nv.Nvector and X.frame == frame and np.shape(X.normal) == (3, k), what + ': n-vectors in the same frame', t=t,
                          shape=np.shape(X.normal)):
                return
            rec.cover(states=k, transitions=k, traces=k)
            tol = (60 + 500 * ('ecef' in (ka, kb))) * EPS * (1 + (1 + np.abs(t)) / n)
            rec.close(toG(axes, X.normal), w, tol, what + ': normalised straight line', S=S[sel], L=L[sel], t=np.asarray(t) + np.zeros(k))
            z = za[sel] + t * (zb[sel] - za[sel])
            rec.close(np.asarray(X.z, float) + np.zeros(k), z, tz * (1 + np.abs(t)), what + ': depth', S=S[sel], L=L[sel], t=np.asarray(t) + np.zeros(k))
        A, B = mk(ka, frame, axes, la, loa, za), mk(kb, frame, axes, lb, lob, zb)
        path = nv.GeoPath(A, B)
        for t in TIMES:
            verify(path.interpolate(t), np.arange(N), t, 'GeoPath.interpolate, many paths')
        verify(path.interpolate(np.resize(T, N)), np.arange(N), np.resize(T, N), 'GeoPath.interpolate, many paths, many times')
        for ix in pieces(N, 1):
            pth = nv.GeoPath(mk(ka, frame, axes, la[ix], loa[ix], za[ix]), mk(kb, frame, axes, lb[ix], lob[ix], zb[ix]))
            t = np.resize(np.roll(T, ix[0]), ix.size)
            verify(pth.interpolate(t), ix, t, 'GeoPath.interpolate, few paths, a time for each')
            verify(pth.interpolate(t[0]), ix, t[0], 'GeoPath.interpolate, few paths')
        for j in range(N):
            p1 = nv.GeoPath(mk(ka, frame, axes, la[j], loa[j], za[j]), mk(kb, frame, axes, lb[j], lob[j], zb[j]))
            for t in TIMES:
                X = p1.interpolate(t)
                rec.ok(X.scalar and is_scalar(X.z), 'one path and time give one position')
                verify(X, np.array([j]), t, 'GeoPath.interpolate, single')
            verify(p1.interpolate(T), np.array([j]), T, 'GeoPath.interpolate, many times')
            g = p1.interpolate(0.5).to_geo_point()
            rec.ok(is_scalar(g.latitude) and is_scalar(g.z), 'one geographical point')
        # depths that are integers, one of them or both
        if 'ecef' not in (ka, kb):
            for (ia, ib), t in itertools.product(((True, False), (False, True), (True, True)), (0, 1, 0.5, 0.3, T[:N])):
                def end(kind, lat, lon, z, whole, sel):
                    z = np.rint(z)[sel]
                    z = z.astype(int) if whole else z + (0.0 if ia and ib else 0.375)
                    if kind == 'geo':
                        return frame.GeoPoint(lat[sel], lon[sel], z)
                    return frame.Nvector(emb(axes, ref.nvec(np.atleast_1d(lat[sel]), np.atleast_1d(lon[sel]))), z)
                for sel in [np.arange(N)[:np.size(t)] if np.ndim(t) else np.arange(N)] + [3, 4, 5]:
                    X = nv.GeoPath(end(ka, la, loa, za, ia, sel), end(kb, lb, lob, zb, ib, sel)).interpolate(t)
                    z0, z1 = np.rint(za)[sel] + (0 if ia else 0.375), np.rint(zb)[sel] + (0 if ib else 0.375)
                    z = z0 + t * (z1 - z0)
                    rec.close(np.ravel(X.z) + np.zeros(np.size(z)), np.ravel(z), tz * (1 + np.max(np.abs(t))), 'GeoPath.interpolate: integer depths', which=(ia, ib))
                    rec.cover(states=np.size(z), transitions=np.size(z), traces=np.size(z))
        # midway between antipodal points
        if ka == kb == 'geo':
            p1 = nv.GeoPath(frame.Nvector(nE([0.3], [1.0], axes), 0), frame.Nvector(-nE([0.3], [1.0], axes), 0))
            rec.holds(np.isnan(p1.interpolate(0.5).normal), 'GeoPath.interpolate: midway between antipodal positions')
