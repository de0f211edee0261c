import itertools
from scipy.interpolate import interp1d
from mc.common import *

BOUNDS = """all tracks of 2-4 positions over a position alphabet (with repetition of positions), longer tracks up to 41 (linear: every length to 130 and some to 4097, as many queries), x sample
time spacings (uniform, uneven, negative, large, integer) x query orders (sorted, reversed, every permutation of a small set,
repeated, scalar) x kinds (linear, nearest, zero, slinear, quadratic, cubic, spline orders) x depths (shared scalar, one element, per
position) x axes x smoothing windows (odd, even), polynomial orders and edge modes; functional and Nvector.interpolate; oracles: sample exactness, explicit
piecewise-linear formula, tracks that are polynomials, scalar by scalar scipy interpolants."""

POS = [0, 1, 3, 4, 6, 8, 11, 15]


def tasks(tier):
    q = tier == 'quick'
    out = []
    for axes in AXES:
        for size in (2, 3) if q else (2, 3, 4):
            out.append(('small', dict(axes=axes, size=size, m=5 if q or size == 4 else 8)))
        out.append(('query_orders', dict(axes=axes)))
        out.append(('long', dict(axes=axes)))
        for size in (4, 5, 9) if q else (4, 5, 7, 9, 16, 41):
            out.append(('kinds', dict(axes=axes, size=size)))
        for size in (7, 15) if q else (5, 7, 11, 15, 41):
            out.append(('smoothing', dict(axes=axes, size=size)))
    for ell in (alph.ells(0) if q else alph.ells(2)):
        for axes in ('e', 'E'):
            out.append(('objects_', dict(ell=ell, axes=axes, full=not q)))
    return out


def _times(n):
    return {'uniform': np.arange(n, dtype=float), 'integer': np.arange(n), 'uneven': np.cumsum(np.resize([0.1, 3.0, 0.5, 10.0], n)) - 2.0,
            'large': 1.5e9 + 10.0 * np.arange(n), 'tiny': 1e-6 * np.arange(n)}


def _linear(t, v, q):
    """v (d, n) longdouble; piecewise linear at q, NaN outside"""
    t, q = ref.ld(t), np.atleast_1d(ref.ld(q))
    i = np.clip(np.searchsorted(t, q, side='right') - 1, 0, t.size - 2)
    w = (q - t[i]) / (t[i + 1] - t[i])
    out = v[:, i] + w * (v[:, i + 1] - v[:, i])
    return np.where((q < t[0]) | (q > t[-1]), np.nan, out)


def _cmp(rec, X, want, tol, what, **info):
    """want: direction (3,m), NaN where undefined"""
    m = want.shape[1]
    if np.shape(X) != (3, m):
        return rec.fail(what + ': wrong shape', shape=np.shape(X), **info)
    rec.cover(states=m, transitions=2 * m, traces=m)
    n = ref.norm(want)
    rec.close(X, want / n, tol * (1 + 1 / n), what, **info)
    ok = ~np.isnan(want[0])
    rec.close(ref.norm(ref.ld(X))[ok], np.ones(ok.sum()), 8 * EPS, what + ': unit vectors', **{k: v for k, v in info.items() if np.size(v) != m})


def _queries(t):
    t = np.asarray(t, float)
    mid = 0.5 * (t[1:] + t[:-1])
    third = t[:-1] + (t[1:] - t[:-1]) / 3
    d = t[-1] - t[0]
    # just outside the track: from the neighbouring number to ten lengths away
    e = np.array([10.0 ** k for k in range(-15, 2)])
    before, after = np.minimum(t[0] - e * d, np.nextafter(t[0], -np.inf)), np.maximum(t[-1] + e * d, np.nextafter(t[-1], np.inf))
    return np.concatenate([mid[::-1], t, third, before, [t[0] - 0.1 * d, t[-1] + 0.1 * d, t[0] - 10 * d], after, t[::-1]])


def small(rec, axes, size, m):
    la, lo, _ = positions_deg()
    N = nE(la, lo, axes)
    for combo in itertools.product(POS[:m], repeat=size):
        n = N[:, list(combo)]
        for name, t in _times(size).items():
            q = _queries(t)
            want = _linear(t, ref.ld(n), q)
            nn = ref.norm(want)
            keep = ~(nn < 1e-6)          # opposite neighbours
            tol = 60 * EPS * (1 + np.max(np.abs(t)) / np.min(np.diff(t)))
            X = nv.interp_nvectors(q, t, n)
            if np.shape(X) == (3, q.size):
                _cmp(rec, X[:, keep], want[:, keep], tol, 'linear: straight line between the neighbours', combo=list(combo), times=name)
            else:
                rec.fail('linear: wrong shape', shape=np.shape(X))
            X = nv.interp_nvectors(t, t, n)
            rec.close(X, ref.ld(n), 8 * EPS, 'exact at the samples', combo=list(combo), times=name)
            rec.outcome('outside', np.sum(np.isnan(want[0])))
    rec.sample(axes=axes, size=size, alphabet=[alph.POSITIONS[i] for i in POS[:m]])


def query_orders(rec, axes):
    la, lo, _ = positions_deg()
    n = nE(la, lo, axes)[:, [0, 3, 12, 13, 5]]
    for name, t in _times(5).items():
        tt = np.asarray(t, float)
        d = tt[-1] - tt[0]
        qs = np.array([tt[0], tt[0] + 0.3 * d, tt[2], tt[0] + 0.77 * d, tt[4] + d])
        w = _linear(t, ref.ld(n), qs)
        tol = 60 * EPS * (1 + np.max(np.abs(tt)) / np.min(np.diff(tt)))
        for size in range(1, 6):
            for perm in itertools.permutations(range(5), size):
                p = list(perm)
                _cmp(rec, nv.interp_nvectors(qs[p], t, n), w[:, p], tol, 'any order of query times', perm=p, times=name)
        for p in itertools.product(range(3), repeat=3):
            p = list(p)
            _cmp(rec, nv.interp_nvectors(qs[p], t, n), w[:, p], tol, 'repeated query times', perm=p, times=name)
            _cmp(rec, nv.interp_nvectors(list(qs[p]), list(t), n), w[:, p], tol, 'lists of times', perm=p, times=name)
        for i in range(5):
            _cmp(rec, nv.interp_nvectors(float(qs[i]), t, n), w[:, [i]], tol, 'one query time', i=i, times=name)
        # times just outside the track, alone or among others
        e = np.array([10.0 ** k for k in range(-15, 2)])
        for side, out in ((0, np.minimum(tt[0] - e * d, np.nextafter(tt[0], -np.inf))), (1, np.maximum(tt[-1] + e * d, np.nextafter(tt[-1], np.inf)))):
            for q0 in np.concatenate([out, [tt[-side] - e[k] if side == 0 else tt[-1] + e[k] for k in range(6, 17)]]):
                for q in ([q0], [q0, tt[2]], [tt[0], q0, tt[-1]], [q0, q0]):
                    _cmp(rec, nv.interp_nvectors(np.array(q), t, n), _linear(t, ref.ld(n), q), tol, 'just outside the track', times=name, q=str(q))
                    X = nv.Nvector(n, 5.0).interpolate(np.array(q), t)
                    _cmp(rec, X.normal, _linear(t, ref.ld(n), q), tol, 'Nvector: just outside the track', times=name, q=str(q))
                    rec.ok(np.array_equal(np.isnan(X.z), np.isnan(X.normal[0])), 'depth undefined with the position', times=name, q=str(q))
        # unsorted sample times denote the same track
        for perm in itertools.permutations(range(5)):
            p = list(perm)
            _cmp(rec, nv.interp_nvectors(qs, np.asarray(t)[p], n[:, p]), w, tol, 'samples in any order', perm=p, times=name)
            for i in (1, 2, 3):
                for q1 in (float(qs[i]), qs[[i]], [float(qs[i])]):
                    _cmp(rec, nv.interp_nvectors(q1, np.asarray(t)[p], n[:, p]), w[:, [i]], tol, 'samples in any order, one query', perm=p, times=name, i=i)
            z = np.array([3.0, -10.0, 250.0, 0.0, 8000.0])
            wz = _linear(t, ref.ld(z)[None, :], qs)[0]
            for i in ([0, 1, 2, 3, 4], [1], [3], 2):
                X = nv.Nvector(n[:, p], z[p]).interpolate(float(qs[i]) if i == 2 else qs[i], np.asarray(t)[p])
                ii = [2] if i == 2 else i
                _cmp(rec, X.normal, w[:, ii], tol, 'Nvector: samples in any order', perm=p, times=name, i=ii)
                rec.close(np.ravel(X.z), wz[ii], 1e5 * tol, 'Nvector: samples in any order, depth', perm=p, times=name, i=ii)
            for kind in ('nearest', 'zero', 'quadratic', 'cubic', 3):
                for qq in (qs, float(qs[1]), qs[[3]]):
                    X, Y = nv.interp_nvectors(qq, np.asarray(t)[p], n[:, p], kind=kind), nv.interp_nvectors(qq, np.asarray(t), n, kind=kind)
                    rec.cover(transitions=2)
                    rec.close(X, ref.ld(Y), 1e-12, 'samples in any order for every kind', perm=p, times=name, kind=kind)


def long(rec, axes):
    """tracks and queries of every length"""
    lengths = list(range(4, 131)) + [200, 255, 256, 257, 499, 500, 501, 999, 1000, 1001, 1024, 2000, 4096, 4097]
    for size in lengths:
        n = nE(*_track(size, size), axes=axes)
        z = 100.0 * np.cos(np.arange(size)) + size
        for name in ('uniform', 'uneven'):
            t = _times(size)[name]
            q = t[0] + (t[-1] - t[0]) * np.linspace(0, 1, size)[::-1] ** 2
            q[-1], q[0] = t[0], t[-1]
            want = _linear(t, ref.ld(n), q)
            _cmp(rec, nv.interp_nvectors(q, t, n), want, 1e-12, 'long track', length=size, times=name)
            P = nv.Nvector(n, z).interpolate(q, t)
            _cmp(rec, P.normal, want, 1e-12, 'Nvector: long track', length=size, times=name)
            rec.close(P.z, _linear(t, ref.ld(z)[None], q)[0], 1e-9, 'Nvector: depths of a long track', length=size, times=name)
            # one query on a long track, many on a short one
            rec.close(nv.interp_nvectors(q[1:2], t, n), ref.unit(want[:, 1:2]), 1e-12, 'one query on a long track', length=size, times=name)
            t4 = _times(4)[name]
            q4 = t4[0] + (t4[-1] - t4[0]) * np.linspace(0, 1, size)
            q4[-1] = t4[-1]
            _cmp(rec, nv.interp_nvectors(q4, t4, n[:, :4]), _linear(t4, ref.ld(n[:, :4]), q4), 1e-12, 'many queries on a short track', length=size, times=name)


def _track(size, seed):
    """an irregular but smooth track"""
    i = np.arange(size)
    return np.radians(20 + 3.1 * np.sin(1.3 * i + seed) + 0.7 * i), np.radians(-170 + 5.0 * i * (-1) ** seed + 2 * np.cos(i + seed))


def kinds(rec, axes, size):
    for seed in range(3):
        la, lo = _track(size, seed)
        n = nE(la, lo, axes)
        for name, t in _times(size).items():
            q = _queries(t)
            inside = (q >= t[0]) & (q <= t[-1])
            for kind in ('linear', 'nearest', 'zero', 'slinear', 'quadratic', 'cubic', 1, 2, 3):
                order = {'quadratic': 2, 'cubic': 3}.get(kind, kind if isinstance(kind, int) else 1)
                if size < order + 1:
                    continue
                X = nv.interp_nvectors(q, t, n, kind=kind)
                want = np.array([[float(interp1d(t, row, kind=kind)(v)) if ok else np.nan for v, ok in zip(q, inside)] for row in n])
                tol = 1e-9 if name == 'large' and order > 1 else 1e-12 if name != 'large' else 1e-9
                _cmp(rec, X, ref.ld(want), tol, 'follows the kind of interpolation asked for', kind=kind, times=name, size=size)
                X = nv.interp_nvectors(t, t, n, kind=kind)
                rec.close(X, ref.ld(n), 1e-8 if name == 'large' else 1e-12, 'exact at the samples for every kind', kind=kind, times=name, size=size)
                # explicit meaning of the piecewise constant kinds
                if kind in ('nearest', 'zero') and name == 'uniform':
                    for f in (0.2, 0.4, 0.7, 0.95):
                        qq = np.arange(size - 1) + f
                        X = nv.interp_nvectors(qq, t, n, kind=kind)
                        k = np.arange(size - 1) + (1 if kind == 'nearest' and f > 0.5 else 0)
                        rec.close(X, ref.ld(n[:, k]), 8 * EPS, 'piecewise constant kinds', kind=kind, f=f)


def _poly(coef, i):
    return sum(ref.ld(c)[:, None] * ref.ld(i) ** k for k, c in enumerate(coef))


def smoothing(rec, axes, size):
    t = np.arange(size, dtype=float)
    i = (t - size / 2.0) / size
    coefs = [np.array([0.9, 0.1, 0.3]), np.array([-0.2, 0.7, 0.15]), np.array([0.1, -0.3, 0.2]), np.array([-0.05, 0.02, 0.2])]
    q = _queries(t)
    for deg_ in (0, 1, 2, 3):
        v = ref.f64(_poly(coefs[:deg_ + 1], i))     # the raw vectors are polynomials in time (n-vectors up to their length)
        want = _linear(t, ref.ld(v), q)
        for window in range(0, size + 1):
            for polyorder in (1, 2, 3, 4, 5, 6):
                odd = window + (window + 1) % 2 if window else 0
                if window and (polyorder >= odd or odd > size):
                    continue
                if polyorder < deg_ and window:
                    continue
                X = nv.interp_nvectors(q, t, v, window_length=window, polyorder=polyorder)
                _cmp(rec, X, want, 1e-11, 'smoothing leaves a polynomial track unchanged', degree=deg_, window=window, polyorder=polyorder)
                z = ref.f64(_poly([np.array([5.0]), np.array([-40.0]), np.array([30.0]), np.array([11.0])][:deg_ + 1], i))[0]
                Y = nv.Nvector(v, z).interpolate(q, t, window_length=window, polyorder=polyorder)
                _cmp(rec, Y.normal, want, 1e-11, 'Nvector: smoothing leaves a polynomial track unchanged', degree=deg_, window=window, polyorder=polyorder)
                wz = _linear(t, ref.ld(z)[None, :], q)[0]
                rec.close(np.asarray(Y.z), wz, 1e-9, 'Nvector: smoothing leaves polynomial depths unchanged', degree=deg_, window=window, polyorder=polyorder)
    # constant tracks are unchanged by every edge mode
    v = np.repeat(nE([0.7], [2.0], axes), size, axis=1)
    for mode in ('mirror', 'nearest', 'wrap', 'interp'):
        for window in (3, 4, 5):
            if window + (window + 1) % 2 > size:
                continue
            X = nv.interp_nvectors(q, t, v, window_length=window, polyorder=2, mode=mode)
            _cmp(rec, X, _linear(t, ref.ld(v), q), 1e-11, 'smoothing a constant track', mode=mode, window=window)
    # an impulse is spread: smoothing does something, and by the Savitzky-Golay coefficients
    from scipy.signal import savgol_coeffs
    base = np.repeat(nE([0.7], [2.0], axes), size, axis=1)
    bump = base.copy()
    mid = size // 2
    bump[:, mid] = nE([0.9], [2.4], axes)[:, 0]
    for window in (3, 5, 4, 7, 9):
        odd = window + (window + 1) % 2
        if odd > size - 2:
            continue
        for polyorder in (0, 1, 2, 3, 4):
            if polyorder >= odd:
                continue
            c = savgol_coeffs(odd, polyorder, use='dot')
            raw = np.array([[sum(c[j] * bump[d, min(max(k + j - odd // 2, 0), size - 1)] for j in range(odd)) for k in range(size)] for d in range(3)])
            X = nv.interp_nvectors(t, t, bump, window_length=window, polyorder=polyorder)
            inner = slice(odd // 2, size - odd // 2)
            _cmp(rec, X[:, inner], ref.ld(raw[:, inner]), 1e-12, 'smoothing weights', window=window, polyorder=polyorder)
            # at the edges: the polynomial fitted to the outermost window
            k = np.arange(odd)
            for d in range(3):
                raw[d, :odd // 2] = np.polyval(np.polyfit(k, bump[d, :odd], polyorder), k)[:odd // 2]
                raw[d, size - odd // 2:] = np.polyval(np.polyfit(k, bump[d, size - odd:], polyorder), k)[-(odd // 2):]
            _cmp(rec, X, ref.ld(raw), 1e-10, 'smoothing weights at the edges', window=window, polyorder=polyorder)
            for mode in ('constant', 'nearest'):
                cval = 0.25
                def val(d, k):
                    return bump[d, min(max(k, 0), size - 1)] if mode == 'nearest' or 0 <= k < size else cval
                raw = np.array([[sum(c[j] * val(d, k + j - odd // 2) for j in range(odd)) for k in range(size)] for d in range(3)])
                X = nv.interp_nvectors(t, t, bump, window_length=window, polyorder=polyorder, mode=mode, cval=cval)
                _cmp(rec, X, ref.ld(raw), 1e-12, 'smoothing weights with edge mode', window=window, polyorder=polyorder, mode=mode)


def objects_(rec, ell, axes, full):
    frame = frameE(ell, axes)
    la, lo, zz = positions_deg()
    for combo in itertools.product(POS[:4] if not full else POS[:6], repeat=3):
        c = list(combo)
        n = nE(la[c], lo[c], axes)
        for name, t in _times(3).items():
            q = _queries(t)
            want = _linear(t, ref.ld(n), q)
            keep = ~(ref.norm(want) < 1e-6)
            tol = 60 * EPS * (1 + np.max(np.abs(t)) / np.min(np.diff(t)))
            for z in (zz[c], 25.0, 0, np.array([-3.0]), [1.0, 2.0, -400.0], 7):
                zr = np.broadcast_to(np.atleast_1d(np.asarray(z, float)), (3,))
                X = frame.Nvector(n, z).interpolate(q, t)
                rec.ok(type(X) is nv.Nvector and X.frame == frame, 'interpolated n-vectors of the same frame')
                _cmp(rec, X.normal[:, keep], want[:, keep], tol, 'Nvector.interpolate', combo=c, times=name)
                wz = _linear(t, ref.ld(zr)[None, :], q)[0]
                rec.close(np.asarray(X.z), wz, tol * (1 + np.max(np.abs(zr))), 'Nvector.interpolate: depth', combo=c, times=name, z=zr)
            X = frame.Nvector(n, 25.0).interpolate(float(q[0]), t)
            rec.ok(np.shape(X.normal) == (3, 1), 'one query time gives one position')
            g = frame.GeoPoint(la[c], lo[c], zz[c]).to_nvector().interpolate(t, t).to_geo_point()
            same = ref.norm(ref.nvec(g.latitude, g.longitude) - ref.nvec(la[c], lo[c]))
            rec.close(same, np.zeros(3), 40 * EPS, 'track of geographical points is exact at its samples', combo=c)
            rec.close(np.asarray(g.z), zz[c], 1e-11 * (1 + np.abs(zz[c])), 'track depths are exact at its samples', combo=c)
    n = nE(*_track(9, 1), axes)
    z = np.linspace(-3, 50, 9) ** 2
    t = np.arange(9.0)
    q = _queries(t)
    inside = (q >= 0) & (q <= 8)
    for kind in ('linear', 'nearest', 'zero', 'slinear', 'quadratic', 'cubic', 1, 2, 3):
        X = frame.Nvector(n, z).interpolate(q, t, kind=kind)
        want = np.array([[float(interp1d(t, row, kind=kind)(v)) if ok else np.nan for v, ok in zip(q, inside)] for row in np.vstack([n, z])])
        _cmp(rec, X.normal, ref.ld(want[:3]), 1e-12, 'Nvector.interpolate follows the kind', kind=kind)
        rec.close(np.asarray(X.z), want[3], 1e-9, 'Nvector.interpolate follows the kind: depth', kind=kind)
        for window, polyorder in ((3, 2), (5, 2), (4, 3), (7, 1), (7, 4), (9, 6), (7, 5)):
            from scipy.signal import savgol_filter
            w = window + (window + 1) % 2
            sm = savgol_filter(np.vstack([n, z]), w, polyorder, axis=1)
            want = np.array([[float(interp1d(t, row, kind=kind)(v)) if ok else np.nan for v, ok in zip(q, inside)] for row in sm])
            X = frame.Nvector(n, z).interpolate(q, t, kind=kind, window_length=window, polyorder=polyorder)
            _cmp(rec, X.normal, ref.ld(want[:3]), 1e-11, 'Nvector.interpolate smooths first', kind=kind, window=window)
            rec.close(np.asarray(X.z), want[3], 1e-8, 'Nvector.interpolate smooths first: depth', kind=kind, window=window)
