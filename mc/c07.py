from mc.common import *

BOUNDS = """positions (latitude x longitude alphabets with polar neighbourhoods down to 10^-12 rad, and the integer lattice of
directions) x axes x wander azimuths x attitudes, single and array, functional and through FrameN, FrameL and FrameB."""

WA = [0.0, np.pi / 2, -2.5, np.pi, 3.5, -10.0, 1e-9]
ATT = [(0., 0., 0.), (0.2, 0., 0.), (0., 0.3, 0.), (0., 0., 0.4), (-2.9, -1.5, 3.0), (1.0, np.pi / 2, -0.7), (12., 4., -8.)]


def tasks(tier):
    q = tier == 'quick'
    out = []
    for axes in AXES:
        out.append(('arrays', dict(axes=axes, level=1 if q else 2)))
        out.append(('lattice_dirs', dict(axes=axes, m=4 if q else 9)))
        lats = alph.lats(0 if q else 1)
        for lo, hi in chunks(len(lats), 6):
            out.append(('single', dict(axes=axes, level=0 if q else 1, lo=lo, hi=hi)))
    for axes in ('e', 'E'):
        for kind in KINDS:
            for lo, hi in chunks(len(lats), 6):
                out.append(('frames', dict(axes=axes, kind=kind, level=0 if q else 1, lo=lo, hi=hi)))
            out.append(('frame_arrays', dict(axes=axes, kind=kind)))
    return out


def _check(rec, R, n, axes, wa_, ypr_, what, **info):
    """R: answer (3,3,k) for normals n (E axes, k) ; wa / ypr arrays of length k or None"""
    k = n.shape[1]
    R = np.asarray(R)
    if R.ndim == 2:
        R = R[:, :, None]
    if not rec.ok(R.shape == (3, 3, k), what + ': shape', got=R.shape, want=(3, 3, k), **info):
        return
    G = np.stack([toG(axes, R[:, j, :]) for j in range(3)], axis=1)
    rec.close(mm3(tr3(G), G), np.eye(3)[:, :, None] * np.ones(k), 32 * EPS, what + ': orthogonal', n=n, **info)
    det = ref.dot(ref.cross(G[:, 0], G[:, 1]), G[:, 2])
    rec.close(det, np.ones(k), 32 * EPS, what + ': right handed', n=n, **info)
    g = ref.unit(toG(axes, n))
    if ypr_ is None:
        rec.close(G[:, 2], -g, 24 * EPS, what + ': third axis straight down', n=n, **info)
    h = np.hypot(g[0], g[1])
    lim = 1e-15 if exact_axes(axes) else 1e-6
    ok = h > lim
    if not ok.any():
        return
    hh = np.where(ok, h, 1)
    tol = np.where(ok, 40 * EPS * (1 if exact_axes(axes) else 1 + 1 / hh), 10)
    gg = np.where(ok, g, np.array([[1], [0], [0]]))
    north, east, down = ref.ned_n(gg)
    M = np.stack([north, east, down], axis=1)
    if wa_ is not None:
        M = mm3(M, ref.rot(2, wa_))
    if ypr_ is not None:
        M = mm3(mm3(mm3(M, ref.rot(2, ypr_[0])), ref.rot(1, ypr_[1])), ref.rot(0, ypr_[2]))
    rec.close(np.where(ok, G, 0), np.where(ok, M, 0), tol, what + ': axes', n=n, **info)
    rec.outcome('away from poles', np.sum(ok))
    rec.outcome('pole', np.sum(~ok))


def _normals(axes, lat, lon):
    n = nE(lat, lon, axes)
    poles = ref.f64(toE(axes, np.array([[0, 0], [0, 0], [1, -1]])))
    return np.concatenate([n, poles], axis=1)


def _suite(rec, n, axes, what, call=whole):
    kw = kwR(axes)
    k = n.shape[1]
    R = call(lambda v: nv.n_E2R_EN(v, **kw).reshape(3, 3, -1), n)
    _check(rec, R, n, axes, None, None, what + ' N')
    rec.close(call(nv.R_EN2n_E, R), ref.unit(ref.ld(n)), 24 * EPS, what + ': n-vector from R_EN', n=n)
    rec.cover(transitions=2 * k)
    was = [np.full(k, w) for w in WA] + [np.resize(np.array(WA), k)]
    g = toG(axes, n)
    h = np.hypot(g[0], g[1]) / ref.norm(g)
    for i, wa in enumerate(was):
        arg = float(wa[0]) if i < len(WA) else wa
        R = call(lambda v, w: nv.n_E_and_wa2R_EL(v, w, **kw).reshape(3, 3, -1), n, arg)
        _check(rec, R, n, axes, wa, None, what + ' L', wa=wa)
        rec.close(call(nv.R_EL2n_E, R), ref.unit(ref.ld(n)), 24 * EPS, what + ': n-vector from R_EL', n=n)
        rec.cover(transitions=2 * k)


def arrays(rec, axes, level):
    lat, lon = alph.grid(alph.lats(level), alph.lons(0 if level == 1 else 1))
    n = _normals(axes, lat, lon)
    rec.cover(states=n.shape[1], traces=n.shape[1])
    rec.sample(axes=axes, n=n[:, 0])
    _suite(rec, n, axes, 'array')
    _suite(rec, n, axes, 'short arrays', by_parts)
    _suite(rec, n * 1.03, axes, 'array, not quite unit')


def lattice_dirs(rec, axes, m):
    n = ref.f64(toE(axes, ref.unit(ref.ld(lattice(m)))))
    rec.cover(states=n.shape[1], traces=n.shape[1])
    _suite(rec, n, axes, 'lattice')


def single(rec, axes, level, lo, hi):
    for lat in alph.lats(level)[lo:hi]:
        for lon in alph.lons(0)[::3]:
            n = nE([lat], [lon], axes)
            rec.cover(states=1, traces=1)
            R = nv.n_E2R_EN(n, **kwR(axes))
            rec.ok(np.shape(R) == (3, 3), 'one 3x3 matrix for one position', got=np.shape(R))
            _suite(rec, n, axes, 'single')
    for s in (1, -1):
        n = ref.f64(toE(axes, np.array([[0], [0], [s]])))
        _suite(rec, n, axes, 'single pole')


def frames(rec, axes, kind, level, lo, hi):
    frame = nv.FrameE(axes=axes)
    for lat in alph.lats(level)[lo:hi]:
        for j, lon in enumerate(alph.lons(0)[::3]):
            z = (0.0, 500.0, -3000.0)[j % 3]
            p = mk(kind, frame, axes, lat, lon, z)
            n = p.to_nvector().normal
            h = max(abs(np.cos(lat)), 1e-17)
            rec.close(n, ref.ld(nE([lat], [lon], axes)), 64 * EPS, 'n-vector of the position')
            rec.cover(states=1, transitions=3, traces=1)
            fN = nv.FrameN(p)
            _check(rec, fN.R_EN, n, axes, None, None, 'FrameN')
            rec.ok(fN.nvector.frame == frame and np.all(fN.nvector.z == 0), 'origin at the surface, same frame', z=fN.nvector.z)
            for wa in WA[j % 2::2]:
                _check(rec, nv.FrameL(p, wander_azimuth=wa).R_EN, n, axes, [wa], None, 'FrameL', wa=wa)
            _check(rec, nv.FrameL(p).R_EN, n, axes, [0.0], None, 'FrameL default')
            for ypr in ATT:
                y = [np.array([v]) for v in ypr]
                fB = nv.FrameB(p, *ypr)
                _check(rec, fB.R_EN, n, axes, None, y, 'FrameB', ypr=ypr)
                _check(rec, nv.FrameB(p, *np.degrees(ypr), degrees=True).R_EN, n, axes, None, y, 'FrameB in degrees', ypr=ypr)
                _check(rec, nv.FrameB(p, roll=ypr[2], yaw=ypr[0]).R_EN, n, axes, None, [y[0], 0 * y[1], y[2]], 'FrameB pitch 0',
                       ypr=ypr)
                rec.ok(np.all(fB.nvector.z == p.to_nvector().z), 'FrameB origin at the position')


def frame_arrays(rec, axes, kind):
    frame = nv.FrameE(axes=axes)
    lat, lon = alph.grid(alph.lats(0), alph.lons(0))
    N = lat.size
    for n_ in (1, 2, 3, 4, 9, N):
        for s in range(0, N - n_ + 1, max(1, (N - n_) // 6 or 1)):
            sl = slice(s, s + n_)
            p = mk(kind, frame, axes, lat[sl], lon[sl], np.linspace(-10, 900, n_))
            n = p.to_nvector().normal
            rec.cover(states=n_, transitions=3 * n_, traces=n_)
            _check(rec, nv.FrameN(p).R_EN, n, axes, None, None, 'FrameN array')
            wa = np.resize(np.array(WA), n_)
            _check(rec, nv.FrameL(p, wander_azimuth=wa).R_EN, n, axes, wa, None, 'FrameL array')
            _check(rec, nv.FrameL(p, wander_azimuth=0.6).R_EN, n, axes, np.full(n_, 0.6), None, 'FrameL array, one azimuth')
            ypr = np.array([ATT[(s + i) % len(ATT)] for i in range(n_)]).T
            _check(rec, nv.FrameB(p, ypr[0], ypr[1], ypr[2]).R_EN, n, axes, None, ypr, 'FrameB array')
            one = [np.full(n_, v) for v in ATT[4]]
            _check(rec, nv.FrameB(p, *ATT[4]).R_EN, n, axes, None, one, 'FrameB array, one attitude')
            if n_ > 1:
                q = mk(kind, frame, axes, float(lat[s]), float(lon[s]), 0.0)
                nn = np.repeat(q.to_nvector().normal, n_, axis=1)
                _check(rec, nv.FrameB(q, ypr[0], ypr[1], ypr[2]).R_EN, nn, axes, None, ypr, 'FrameB one position, many attitudes')
                _check(rec, nv.FrameL(q, wander_azimuth=wa).R_EN, nn, axes, wa, None, 'FrameL one position, many azimuths')
