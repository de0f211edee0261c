from mc.rings import *

BOUNDS = """all pairs of rings among a crossing x crossing-angle alphabet (perpendicular, oblique, nearly parallel, with crossing at poles
and antimeridian, octahedral) x start of either path at along-track angles all round (including exactly at, opposite and 90 degrees
from the crossing) x lengths and directions x axes, as arrays (one pair, many pairs, one path against many, lengths 1, 2, 3, 7),
single calls; the same through GeoPath on every ellipsoid x kinds x depths; identical paths and reversed paths; oracle: the line
common to the planes of the given float64 vectors in extended precision."""

ALONG = [0.0, np.pi, np.pi / 2, -np.pi / 2, 0.3, -1.2, 2.5, -2.9, np.pi / 2 - 1e-3, np.pi / 2 + 1e-3, 1e-6, np.pi / 2 - 1e-8, -np.pi / 2 + 3e-7, np.pi / 2 + 1e-10]
LENGTHS = [0.02, 1.1, np.pi / 2, -2.0, 3.0, 1e-8, np.pi - 1e-7]
ANGLES = [np.pi / 2, 0.6, -1.3, 1e-3, -2.8, 3.14, 1e-6]


def tasks(tier):
    q = tier == 'quick'
    out = []
    nr = len(rings(0 if q else 1))
    for axes in AXES:
        for r in range(nr):
            out.append(('functional', dict(axes=axes, r=r, level=0 if q else 1, full=not q)))
        out.append(('octahedral_pairs', dict(axes=axes)))
    for ell in (alph.ells(0) if q else alph.ells(2)):
        for axes in ('e', 'E'):
            for r in range(0, nr, 3 if q else 2):
                out.append(('objects_', dict(ell=ell, axes=axes, r=r, level=0 if q else 1)))
    return out


def _check(rec, A1, A2, B1, B2, what):
    k = max(v.shape[1] for v in (A1, A2, B1, B2))
    X = nv.intersect((A1, A2), (B1, B2))
    rec.cover(states=k, transitions=3 * k, traces=k)
    if np.shape(X) != (3, k):
        return rec.fail(what + ': wrong shape', shape=np.shape(X))
    a1, a2, b1, b2 = [ref.ld(v) for v in (A1, A2, B1, B2)]
    ca, cb = ref.cross(a1, a2), ref.cross(b1, b2)
    sa, sb = ref.norm(ca), ref.norm(cb)
    ca, cb = ca / sa, cb / sb
    x = ref.cross(ca, cb)
    sx = ref.norm(x)
    x = x / sx
    tol = 30 * EPS * (1 + 1 / sa + 1 / sb) * (1 + 1 / sx)
    info = dict(A1=A1, A2=A2, B1=B1, B2=B2)
    lx = ref.ld(X)
    rec.close(ref.norm(lx), np.ones(k), 8 * EPS, what + ': unit vector', **info)
    sgn = np.where(ref.dot(lx, x) < 0, -1, 1)
    rec.close(lx, x * sgn, tol, what + ': on both great circles', **info)
    c = ref.dot(x, a1) + np.zeros(k)
    clear = np.abs(c) > 2 * tol
    rec.holds(~clear | (sgn * np.sign(c) > 0), what + ": the one nearer to the first path's start", c=c, sgn=sgn, **info)
    rec.outcome('two equally near', np.sum(~clear))
    rec.outcome('nearer one', np.sum(clear))
    return X


def _pairs(M, level, full):
    """paths on ring M crossing, at its start, the rings turned by an angle there"""
    S, L, T, K, A = [v.ravel() for v in np.meshgrid(ALONG, LENGTHS[::1 if full else 2], ALONG[::1 if full else 2], LENGTHS[::1 if full else 2],
                                                    ANGLES, indexing='ij')]
    u, v, w = M[:, 0:1], M[:, 1:2], M[:, 2:3]
    Al = ref.ld(A)
    v2 = v * np.cos(Al) + w * np.sin(Al)
    def at2(t):
        t = ref.ld(t)
        return u * np.cos(t) + v2 * np.sin(t)
    return (S, L, T, K, A), (at(M, S), at(M, S + L), at2(T), at2(T + K))


def functional(rec, axes, r, level, full):
    name, M = rings(level)[r]
    rec.context = dict(ring=name)
    par, pts = _pairs(M, level, full)
    A1, A2, B1, B2 = [emb(axes, g) for g in pts]
    N = A1.shape[1]
    rec.sample(axes=axes, ring=name, parameters=[p[77] for p in par])
    _check(rec, A1, A2, B1, B2, 'many pairs')
    _check(rec, B1, B2, A1, A2, 'many pairs, exchanged')
    _check(rec, A2, A1, B1, B2, 'many pairs, first reversed')
    for j in range(0, N, 37):
        _check(rec, A1[:, [j]], A2[:, [j]], B1[:, [j]], B2[:, [j]], 'single')
        for k in (2, 3, 4, 5, 7):
            s = slice(j, j + k)
            _check(rec, A1[:, s], A2[:, s], B1[:, s], B2[:, s], '%d pairs' % k)
            _check(rec, A1[:, [j]], A2[:, [j]], B1[:, s], B2[:, s], 'one path against %d' % k)
            t = slice(j, j + k)
            _check(rec, B1[:, t], B2[:, t], A1[:, [j]], A2[:, [j]], '%d paths against one' % k)
    # identical paths and a path and its reverse have no single intersection
    ok = np.abs(np.sin(par[1])) > 1e-3
    for other in ((A1, A2), (A2, A1)):
        with warnings_caught() as w:
            X = nv.intersect((A1, A2), other)
        rec.holds(np.isnan(X), 'identical or reversed paths: undefined', A1=A1, A2=A2)
        rec.ok(len(w) > 0, 'identical or reversed paths: a warning')
    # only the undefined element is undefined
    C1, C2 = B1.copy(), B2.copy()
    C1[:, ::5], C2[:, ::5] = A1[:, ::5], A2[:, ::5]
    with warnings_caught() as w:
        X = nv.intersect((A1, A2), (C1, C2))
    Y = nv.intersect((A1, A2), (B1, B2))
    und = np.zeros(N, bool)
    und[::5] = True
    rec.holds(np.isnan(X[:, und]), 'identical paths among others: undefined')
    rec.ok(len(w) > 0, 'identical paths among others: a warning')
    rec.close(X[:, ~und], ref.ld(Y[:, ~und]), 4 * EPS, 'identical paths among others: the others unaffected')
    with warnings_caught() as w:
        nv.intersect((A1[:, ~und], A2[:, ~und]), (B1[:, ~und], B2[:, ~und]))
    rec.ok(not any('qual' in str(v.message) for v in w), 'no warning when every pair has an intersection')


class warnings_caught(object):
    def __enter__(self):
        import warnings
        self._w = warnings.catch_warnings(record=True)
        self.list = self._w.__enter__()
        warnings.simplefilter('always')
        return self.list

    def __exit__(self, *a):
        return self._w.__exit__(*a)


def octahedral_pairs(rec, axes):
    """every pair of paths between axis points (90 degrees long) and between lattice directions"""
    pts = [np.array(v, float) for v in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 0), (0, 1, -1), (1, 1, 1), (-1, 2, 0))]
    paths = [(p, q) for p in pts for q in pts if np.linalg.norm(np.cross(p, q)) > 0]
    rows = [(p, q) for p in paths for q in paths if np.linalg.norm(np.cross(np.cross(*p), np.cross(*q))) > 0]
    A1, A2, B1, B2 = [emb(axes, ref.unit(ref.ld(np.array(v).T))) for v in zip(*[(p[0], p[1], q[0], q[1]) for p, q in rows])]
    _check(rec, A1, A2, B1, B2, 'axis points')
    for j in range(0, A1.shape[1], 5):
        _check(rec, A1[:, [j]], A2[:, [j]], B1[:, [j]], B2[:, [j]], 'axis points, single')


def objects_(rec, ell, axes, r, level):
    name, M = rings(level)[r]
    rec.context = dict(ring=name)
    frame = frameE(ell, axes)
    sc = min(1.0, frame.a / 7e6)
    par, pts = _pairs(M, level, False)
    pick = slice(0, None, 7)
    pts = [g[:, pick] for g in pts]
    N = pts[0].shape[1]
    ll = [[ref.f64(v) for v in ref.latlon(g)] for g in pts]
    zz = [np.resize(v, N) * sc for v in ([0.0, 100.0, -4000.0], [50.0, -20.0], [-1.0, 3e3, 0.0, 7.0], [11.0])]
    depth = sum(zz) / 4
    ca, cb = ref.cross(pts[0], pts[1]), ref.cross(pts[2], pts[3])
    sa, sb = ref.norm(ca), ref.norm(cb)
    x = ref.cross(ca / sa, cb / sb)
    sx = ref.norm(x)
    x = x / sx
    c = ref.dot(x, pts[0])
    for kinds in (('geo',) * 4, ('nvec', 'geo', 'ecef', 'geo'), ('ecef', 'ecef', 'nvec', 'ecef')):
        tol = (100 + 500 * ('ecef' in kinds)) * EPS * (1 + 1 / sa + 1 / sb) * (1 + 1 / sx)
        P = [mk(k, frame, axes, la, lo, z) for k, (la, lo), z in zip(kinds, ll, zz)]
        clear = np.abs(c) > 2 * tol
        X = nv.GeoPath(P[0], P[1]).intersect(nv.GeoPath(P[2], P[3]))
        rec.cover(states=N, transitions=7 * N, traces=N)
        tz = 1e-8 * frame.a / 6e6

        def verify(X, sel, what):
            if not rec.ok(type(X) is nv.Nvector and X.frame == frame and np.shape(X.normal) == (3, sel.size), what + ': n-vectors in the frame of the path',
                          shape=np.shape(X.normal)):
                return
            lx = toG(axes, X.normal)
            sgn = np.where(ref.dot(lx, x[:, sel]) < 0, -1, 1)
            rec.close(lx, x[:, sel] * sgn, tol[sel], what + ': on both circles', sel=sel)
            rec.holds(~clear[sel] | (sgn * np.sign(c[sel]) > 0), what + ': the nearer one', sel=sel)
            rec.close(np.asarray(X.z, float) + np.zeros(sel.size), depth[sel], tz, what + ': mean depth', sel=sel)
        verify(X, np.arange(N), 'GeoPath.intersect')
        for j in range(0, N, 3):
            p = [mk(k, frame, axes, la[j], lo[j], z[j]) for k, (la, lo), z in zip(kinds, ll, zz)]
            X = nv.GeoPath(p[0], p[1]).intersect(nv.GeoPath(p[2], p[3]))
            rec.cover(states=1, transitions=8, traces=1)
            rec.ok(is_scalar(X.z) and X.scalar, 'one pair has one intersection')
            verify(X, np.array([j]), 'GeoPath.intersect, single')
            g = X.to_geo_point()
            rec.ok(is_scalar(g.latitude), 'one geographical point')
