from mc.rings import *

BOUNDS = """rings (octahedral, rational, oblique) x path start and length (either way round) x candidate positions at along-track angles
around the whole circle x cross-track angles in [-90, 90] degrees (on the circle, exactly at its poles) x axes; optimality checked
against the exact answer and against every position of a fine ring; functional (arrays, broadcast, single), through GeoPath on
every ellipsoid x point kinds x depths; segments: every (start, end, along, across) combination, compared with every position
of the discretised segment."""

LENGTHS = [1e-4, 1e-8, np.pi - 1e-9, 0.01, 0.7, np.pi / 2, 2.6, -0.4, -2.0]
BETAS = [0.0, 1e-9, -1e-9, 1e-5, -1e-3, 0.3, -0.8, 1.5, -1.57, 1.2, -1e-14, np.pi / 2, -np.pi / 2,
         np.pi / 2 - 1e-5, -np.pi / 2 + 1e-6, np.pi / 2 - 1e-7, -np.pi / 2 + 3e-8, np.pi / 2 - 1e-9]


def tasks(tier):
    q = tier == 'quick'
    out = []
    nr = len(rings(0 if q else 1))
    for axes in AXES:
        for r in range(nr):
            out.append(('functional', dict(axes=axes, r=r, level=0 if q else 1, n=12 if q else 48)))
    for ell in (alph.ells(0) if q else alph.ells(2)):
        for axes in ('e', 'E'):
            for r in range(0, nr, 2 if q else 1):
                out.append(('objects_', dict(ell=ell, axes=axes, r=r, level=0 if q else 1)))
                out.append(('segments', dict(ell=ell, axes=axes, r=r, level=0 if q else 1)))
    return out


def _check(rec, A, B, P, what, ring=None):
    k = max(A.shape[1], B.shape[1], P.shape[1])
    C = nv.closest_point_on_great_circle((A, B), P)
    rec.cover(states=k, transitions=k, traces=k)
    if np.shape(C) != (3, k):
        return rec.fail(what + ': wrong shape', shape=np.shape(C))
    la, lb, lp, lc = [ref.ld(v) for v in (A, B, P, C)]
    c = ref.unit(ref.cross(la, lb))
    sl = ref.norm(ref.cross(la, lb)) + np.zeros(k)
    tol = 24 * EPS * (1 + 1 / sl)
    rec.close(ref.norm(lc), np.ones(k), 8 * EPS, what + ': unit vector', A=A, B=B, P=P)
    rec.close(ref.dot(c, lc) + np.zeros(k), np.zeros(k), tol, what + ': on the great circle', A=A, B=B, P=P)
    s = -ref.dot(c, lp) + np.zeros(k)
    co = ref.norm(ref.cross(c, lp)) + np.zeros(k)
    xt = np.abs(np.arctan2(s, co))
    lpu = ref.unit(lp)
    rec.close(ref.angle(lpu, lc) + np.zeros(k), xt, 2 * tol, what + ': as far away as the circle is', A=A, B=B, P=P)
    ok = co > 1e-11
    want = np.where(ok, lp + s * c, 1)
    want = ref.unit(want)
    rec.close(np.where(ok, lc, 0), np.where(ok, want, 0), np.where(ok, 2 * tol * (1 + 1 / np.where(ok, co, 1)), 1), what + ': the foot of the perpendicular',
              A=A, B=B, P=P)
    rec.outcome('foot unique', np.sum(ok))
    rec.outcome('position at a pole of the circle', np.sum(~ok))
    if ring is not None:
        d = ref.angle(lpu, lc) + np.zeros(k)
        for j in range(ring.shape[1]):
            other = ref.angle(lpu, ring[:, [j]])
            rec.holds(other - d > -4 * tol, what + ': no other point of the circle is closer', A=A, B=B, P=P, d=d, other=other + np.zeros(k))
        rec.cover(transitions=k * ring.shape[1])


def functional(rec, axes, r, level, n):
    name, M = rings(level)[r]
    rec.context = dict(ring=name)
    th = 2 * np.pi * np.arange(n) / n
    S, L, T, X = [v.ravel() for v in np.meshgrid(th[::n // 6], LENGTHS, th + 0.05 * (r % 2), BETAS, indexing='ij')]
    A, B, P = emb(axes, at(M, S)), emb(axes, at(M, S + L)), emb(axes, at(M, T, X))
    ring = toE(axes, at(M, np.arange(0, 360, 10 if level == 0 else 4) * ref.PI / 180))
    if r < 2:
        rec.sample(axes=axes, ring=name, start=S[40], length=L[40], along=T[40], right=X[40])
    _check(rec, A, B, P, 'arrays', ring)
    _check(rec, A, B, A, 'the start itself')
    _check(rec, A, B, -B, 'opposite the end')
    # a position on the circle is its own closest point
    on = X == 0
    C = nv.closest_point_on_great_circle((A[:, on], B[:, on]), P[:, on])
    rec.close(C, ref.ld(P[:, on]), 60 * EPS * (1 + 1 / np.abs(np.sin(L[on]))), 'a position on the circle is its own closest point', S=S[on], L=L[on], T=T[on])
    for ix in pieces(S.size, 6):
        _check(rec, A[:, ix], B[:, ix], P[:, ix], 'short arrays')
        _check(rec, A[:, ix[:1]], B[:, ix[:1]], P[:, ix], 'one path, few positions')
        _check(rec, A[:, ix], B[:, ix], P[:, ix[:1]], 'few paths, one position')
    for L1 in LENGTHS:
        a, b = emb(axes, at(M, th[2])), emb(axes, at(M, th[2] + L1))
        _check(rec, a, b, P[:, :len(BETAS) * n], 'one path, many positions')
        _check(rec, A[:, ::11], B[:, ::11], P[:, [5]], 'many paths, one position')
        for j in range(0, n * len(BETAS), 13):
            _check(rec, a, b, P[:, [j]], 'single')
        # exactly at the pole of the circle as the library computes it
        w = nv.great_circle_normal(a, b)
        for v in (w, -w):
            _check(rec, a, b, v, 'at the pole of the circle')
            _check(rec, a, b, np.concatenate([P[:, :3], v, P[:, 3:5]], axis=1), 'at the pole of the circle among others')


def _objs(rec, M, frame, axes, level, coarse=False):
    al = [0.1, 1.3, 2.9, -2.0, np.pi, -0.7]
    Ls = [0.02, 1.0, -2.7, np.pi / 2]
    S, L, T, X = [v.ravel() for v in np.meshgrid([0.0, 2.1, -1.0], Ls, al, BETAS[:11], indexing='ij')]
    return S, L, T, X


def objects_(rec, ell, axes, r, level):
    name, M = rings(level)[r]
    rec.context = dict(ring=name)
    frame = frameE(ell, axes)
    sc = min(1.0, frame.a / 7e6)
    S, L, T, X = _objs(rec, M, frame, axes, level)
    gA, gB, gP = at(M, S), at(M, S + L), at(M, T, X)
    N = S.size
    za, zb, zp = np.resize([0.0, 100.0, -4000.0], N) * sc, np.resize([50.0, -20.0], N) * sc, np.resize([-1.0, 3e3, 0.0, 7.0, -1e4], N) * sc
    (la, loa), (lb, lob), (lp, lop) = [[ref.f64(v) for v in ref.latlon(g)] for g in (gA, gB, gP)]
    want = at(M, T)
    for ka, kb, kp in (('geo', 'geo', 'geo'), ('nvec', 'geo', 'ecef'), ('ecef', 'nvec', 'nvec'), ('geo', 'ecef', 'geo')):
        tol = (200 + 800 * ('ecef' in (ka, kb, kp))) * EPS * (1 + 1 / np.abs(np.sin(L))) * (1 + 1 / np.cos(X))
        tz = 1e-8 * frame.a / 6e6
        path = nv.GeoPath(mk(ka, frame, axes, la, loa, za), mk(kb, frame, axes, lb, lob, zb))
        C = path.closest_point_on_great_circle(mk(kp, frame, axes, lp, lop, zp))
        rec.cover(states=N, transitions=N, traces=N)
        if rec.ok(type(C) is nv.GeoPoint and C.frame == frame, 'closest point is a GeoPoint of the same frame', got=type(C)):
            rec.close(ref.norm(ref.nvec(C.latitude, C.longitude) - want), np.zeros(N), tol, 'GeoPath.closest_point_on_great_circle', S=S, L=L, T=T, X=X)
            rec.close(np.asarray(C.z), 0.5 * (za + zb), tz, 'at the average depth', S=S, L=L)
        for j in range(0, N, 7):
            p1 = nv.GeoPath(mk(ka, frame, axes, la[j], loa[j], za[j]), mk(kb, frame, axes, lb[j], lob[j], zb[j]))
            C = p1.closest_point_on_great_circle(mk(kp, frame, axes, lp[j], lop[j], zp[j]))
            rec.cover(states=1, transitions=1, traces=1)
            rec.ok(is_scalar(C.latitude) and is_scalar(C.z), 'closest point is a single point')
            rec.close(ref.norm(ref.nvec([C.latitude], [C.longitude]) - want[:, [j]]), np.zeros(1), tol[j], 'GeoPath.closest_point_on_great_circle, single',
                      S=S[j], L=L[j], T=T[j], X=X[j])
            rec.close(np.atleast_1d(C.z), [0.5 * (za[j] + zb[j])], tz, 'at the average depth, single')
        for ix in pieces(N, 2):
            pth = nv.GeoPath(mk(ka, frame, axes, la[ix], loa[ix], za[ix]), mk(kb, frame, axes, lb[ix], lob[ix], zb[ix]))
            C = pth.closest_point_on_great_circle(mk(kp, frame, axes, lp[ix], lop[ix], zp[ix]))
            rec.cover(states=ix.size, transitions=ix.size, traces=ix.size)
            rec.close(ref.norm(ref.nvec(C.latitude, C.longitude) - want[:, ix]), np.zeros(ix.size), tol[ix], 'GeoPath.closest_point_on_great_circle, short arrays',
                      S=S[ix], L=L[ix], T=T[ix], X=X[ix])
            rec.close(np.asarray(C.z), 0.5 * (za + zb)[ix], tz, 'at the average depth, short arrays', S=S[ix], L=L[ix])
        p1 = nv.GeoPath(mk(ka, frame, axes, la[0], loa[0], za[0]), mk(kb, frame, axes, lb[0], lob[0], zb[0]))
        sel = (S == S[0]) & (L == L[0])
        C = p1.closest_point_on_great_circle(mk(kp, frame, axes, lp[sel], lop[sel], zp[sel]))
        rec.close(ref.norm(ref.nvec(C.latitude, C.longitude) - want[:, sel]), np.zeros(sel.sum()), tol[sel], 'one path, many positions', T=T[sel], X=X[sel])
        rec.close(np.asarray(C.z) + np.zeros(sel.sum()), np.full(sel.sum(), 0.5 * (za[0] + zb[0])), tz, 'one path, many positions: average depth')


def segments(rec, ell, axes, r, level):
    name, M = rings(level)[r]
    rec.context = dict(ring=name)
    frame = frameE(ell, axes)
    a = frame.a
    sc = min(1.0, a / 7e6)
    al = np.radians([-170.0, -100.0, -31.0, -1.0, -1e-3, 1e-3, 0.5, 20.0, 57.0, 90.5, 100.0, 149.0, 179.0])
    for S in (0.0, 2.1, -1.0):
        for L in (0.01, 1.0, -2.7, np.pi / 2, 3.0):
            gA, gB = at(M, S), at(M, S + L)
            for zi, (za, zb) in enumerate(((0.0, 0.0), (100.0 * sc, -40.0 * sc))):
                (la, loa), (lb, lob) = [[float(v[0]) for v in ref.latlon(g)] for g in (gA, gB)]
                ka, kb, kp = [('geo', 'geo', 'geo'), ('nvec', 'ecef', 'geo'), ('geo', 'nvec', 'ecef')][(zi + r) % 3]
                path = nv.GeoPath(mk(ka, frame, axes, la, loa, za), mk(kb, frame, axes, lb, lob, zb))
                T = np.concatenate([al, L + np.sign(L) * np.array([1e-3, -1e-3, 0.3, -0.3 * abs(L)])]) + S
                for X in (0.0, 1e-6, -0.02, 0.9, -1.5):
                    for t in T:
                        k = np.mod((t - S) * np.sign(L), 2 * np.pi)
                        gP = at(M, t, X)
                        lp, lop = [float(v[0]) for v in ref.latlon(gP)]
                        C = path.closest_point_on_path(mk(kp, frame, axes, lp, lop, 7.0 * sc))
                        rec.cover(states=1, transitions=1, traces=1)
                        rec.ok(type(C) is nv.GeoPoint and C.frame == frame and is_scalar(C.latitude), 'a single GeoPoint of the same frame')
                        g = ref.nvec([C.latitude], [C.longitude])
                        inside = k < abs(L)
                        edge = min(abs(k), abs(k - abs(L)), abs(k - 2 * np.pi)) < 1e-8
                        near_a = ref.angle(gP, gA)[0] - ref.angle(gP, gB)[0]
                        info = dict(S=S, L=L, along=t, across=X, za=za, zb=zb, kinds=(ka, kb, kp))
                        tol = 4e-12 * (1 + 1 / abs(np.sin(L))) * (1 + 1 / np.cos(X))
                        if edge:
                            continue
                        if inside:
                            want, z = at(M, t), 0.5 * (za + zb)
                        elif near_a < 0:
                            want, z = gA, za
                        else:
                            want, z = gB, zb
                        if not inside and abs(near_a) < 1e-9:
                            continue
                        rec.outcome('foot' if inside else 'end')
                        rec.close(ref.norm(g - want), np.zeros(1), tol, 'closest_point_on_path', inside=inside, **info)
                        rec.close(np.atleast_1d(C.z), [z], 1e-8 * a / 6e6, 'depth of the closest point on the path', inside=inside, **info)
                        # no point of the discretised segment is closer
                        seg = at(M, S + L * np.arange(25) / ref.LD(24))
                        d = ref.angle(gP, g)[0]
                        rec.holds(ref.angle(gP, seg) - d > -10 * tol, 'no point of the segment is closer', **info)
                        rec.cover(transitions=25)
