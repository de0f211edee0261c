import itertools
from mc.ops import *

BOUNDS = """every operation of the catalogue (functional and object interface) x every parameter x every component of it x NaN at every position of arrays of 1-5 elements (and single
calls) x windows of the element table x axes x figures (WGS84, a sphere, a prolate one); which answers depend on the component is established by finite perturbation of the same call, answers of all other elements must
be those of the call without NaN; path operations x every degenerate pair (ends exactly coincident or exactly opposite for every lattice direction, identical and reversed
paths) at every position of an array; tracks with NaN samples; latitudes outside the documented range."""


def tasks(tier):
    q = tier == 'quick'
    out = []
    for name, o in OPS.items():
        for axes in ('e', 'E') if o.axes else ('e', ):
            out.append(('isolate', dict(name=name, axes=axes, full=not q)))
        out += [('isolate', dict(name=name, axes='e', full=not q, ell=e)) for e in (('sphere', 'prolate') if o.axes else ())]
    for axes in ('e', 'E'):
        out += [('degenerate', dict(axes=axes, m=1 if q else 3)), ('tracks', dict(axes=axes, full=not q)), ('means', dict(axes=axes))]
    out += [('geodesics', {}), ('out_of_range', dict(full=not q)), ('equality', {})]
    return out


BIG = {'lat': (1e-3, 0.25), 'lon': (1e-3, 0.25), 'z': (1.0, 5e3), 'g': (1e-3, 0.4), 'p': (10.0, 3e5), 'x': (1e-3, 0.3), 'm': (1e-3, 0.3)}


def kind_of(p, c):
    if p[0] == 'P':
        return ('lat', 'lon', 'z')[c[0]]
    if p[0] == 'g':
        return 'g'
    if p in ('p', 'dp'):
        return 'p'
    if p in ('z', 'z2'):
        return 'z'
    if p == 's':
        return 'p'
    if p in ('M', 'M2', 'R'):
        return 'm'
    return 'x'


def comps(v):
    """index tuples of the components of one element of a raw value"""
    return list(np.ndindex(*v.shape[:-1]))


def differs(kind, g, w):
    d = np.abs(g - w)
    if kind in ('a', 'lon'):
        d = np.abs(np.mod(g - w + np.pi, 2 * np.pi) - np.pi)
    if kind == 'b':
        return g != w
    return ~(d <= 1e-9 * np.maximum(1, np.abs(w)))


def isolate(rec, name, axes, full, ell='wgs84'):
    o = OPS[name]
    E = 24
    el = elements(E)
    rec.context = dict(op=name, axes=axes, ell=ell)
    cs = Cx(axes=axes, ell=ell, single=True)
    ca = Cx(axes=axes, ell=ell)

    def vals(idx):
        return [np.array(take(el, p, idx), dtype=float) for p in o.params]
    which = range(E) if full else (0, 1, 3, 5, 9, 13, 17)
    fails = 0
    for i in which:
        base = vals([i])
        clean = o.run(cs, base, 1)
        for ip, p in enumerate(o.params):
            for c in comps(base[ip]):
                dep = [np.zeros(v.shape, dtype=bool) for _, v, _ in clean]
                for d in BIG[kind_of(p, c)]:
                    v = [x.copy() for x in base]
                    v[ip][c] += d
                    out = o.run(cs, v, 1)
                    for q, ((k, w, _), (_, g, _)) in enumerate(zip(clean, out)):
                        dep[q] |= differs(k, g, w) & ~np.isnan(g)
                v = [x.copy() for x in base]
                v[ip][c] = np.nan
                rec.cover(states=1, transitions=1 + len(BIG[kind_of(p, c)]), traces=1)
                try:
                    out = o.run(cs, v, 1)
                except Exception as exc:
                    rec.fail('NaN raises no error', param=p, component=c, element=i, error=repr(exc)[:150])
                    continue
                judge(rec, clean, out, dep, 'single call', param=p, component=c, element=i)
                for q, (k, g, note) in enumerate(out):
                    rec.outcome('%s undefined' % k, np.sum(np.isnan(g)))
                    rec.outcome('%s unaffected' % k, np.sum(~np.isnan(g)))
                if o.onlysingle:
                    continue
                # the same element in an array
                for n in (1, 2, 3, 5) if full else (1, 3):
                    for at in range(n) if full else {0, n - 1}:
                        idx = (i - at + np.arange(n)) % E
                        cl = vals(idx)
                        nan = [x.copy() for x in cl]
                        nan[ip][c + (at, )] = np.nan
                        keep = [x.copy() for x in nan]
                        want = cached(rec, o, ca, axes, idx, cl)
                        rec.cover(states=n, transitions=1, traces=1)
                        try:
                            out = o.run(ca, nan, n)
                        except Exception as exc:
                            rec.fail('NaN in an array raises no error', param=p, component=c, element=i, size=n, at=at, error=repr(exc)[:150])
                            continue
                        others = [j for j in range(n) if j != at]
                        same(rec, out, want, 'other elements', only=others, param=p, component=c, size=n, at=at, start=idx[0]) if others else None
                        judge(rec, [(k, w[:, at:at + 1], nt) for k, w, nt in want], [(k, g[:, at:at + 1], nt) for k, g, nt in out], dep,
                              'array call', param=p, component=c, element=i, size=n, at=at)
    rec.sample(op=name, params=o.params, axes=axes)


_clean = {}


def cached(rec, o, ca, axes, idx, cl):
    key = (o.name, axes, ca.ell, tuple(idx))
    if key not in _clean:
        if len(_clean) > 5000:
            _clean.clear()
        _clean[key] = o.run(ca, cl, len(idx))
    return _clean[key]


def judge(rec, clean, out, dep, what, **info):
    for q, ((k, w, _), (_, g, note), d) in enumerate(zip(clean, out, dep)):
        if note:
            rec.fail('%s: %s' % (what, note), output=q, **info)
            continue
        nan = np.isnan(g)
        if k == 'b':
            ok = (g == 0) | (~d & (g == w))
            rec.holds(ok, '%s: a predicate of an undefined position is not true' % what, output=q, answer=g, **info)
            continue
        if k in ('n', 'v', 'l'):       # a vector is undefined as a whole
            vec = d.any()
            if vec:
                rec.ok(nan[d].all(), '%s: an answer that depends on NaN is NaN' % what, output=q, answer=g, clean=w, **info)
                if k == 'n':
                    rec.ok(nan.all(), '%s: an n-vector that depends on NaN is NaN' % what, output=q, answer=g, clean=w, **info)
            continue
        rec.holds(nan | ~d, '%s: an answer that depends on NaN is NaN' % what, output=q, kind=k, answer=g, clean=w, **info)
        rec.holds(nan | d | ~differs(k, g, w), '%s: an answer that does not depend on it stays' % what, output=q, kind=k, answer=g, clean=w, **info)


# ------------------------------------------------------------------ degenerate pairs
def nvs(fr, n, z):
    return fr.Nvector(n, z)


def _fc(f):
    return lambda a, b, c, fr: f((a, b), c)


FUN = {
    'great_circle_normal': (lambda a, b, c, fr: nv.great_circle_normal(a, b), True, True),
    'cross_track_distance': (lambda a, b, c, fr: nv.cross_track_distance((a, b), c), True, True),
    'cross_track_distance euclidean': (lambda a, b, c, fr: nv.cross_track_distance((a, b), c, method='euclidean'), True, True),
    'on_great_circle': (lambda a, b, c, fr: nv.on_great_circle((a, b), c), True, True),
    'on_great_circle_path': (lambda a, b, c, fr: nv.on_great_circle_path((a, b), c), True, True),
    'closest_point_on_great_circle': (lambda a, b, c, fr: nv.closest_point_on_great_circle((a, b), c), True, True),
    'intersect first': (lambda a, b, c, fr: nv.intersect((a, b), (c, np.roll(c, 1, axis=0) + 0.1)), True, True),
    'intersect second': (lambda a, b, c, fr: nv.intersect((c, np.roll(c, 1, axis=0) + 0.1), (a, b)), True, True),
    'interpolate midway': (lambda a, b, c, fr: nv.interpolate((a, b), 0.5), False, True),
    'intersect itself': (lambda a, b, c, fr: nv.intersect((a, c), (b, c)), True, False),
    'intersect its reverse': (lambda a, b, c, fr: nv.intersect((a, c), (c, b)), True, False),
    'intersect opposite': (lambda a, b, c, fr: nv.intersect((a, c), (b, -c)), False, True),
}


def _path(a, b, fr):
    k = np.shape(a)[1]
    return nv.GeoPath(fr.Nvector(a, np.full(k, 10.0) if k > 1 else 10.0), fr.Nvector(b, np.full(k, 4.0) if k > 1 else 4.0))


def _pt(c, fr):
    return fr.Nvector(c, 1.0)


FUN.update({
    'GeoPath.cross_track_distance': (lambda a, b, c, fr: _path(a, b, fr).cross_track_distance(_pt(c, fr)), True, True),
    'GeoPath.on_great_circle': (lambda a, b, c, fr: _path(a, b, fr).on_great_circle(_pt(c, fr)), True, True),
    'GeoPath.on_path': (lambda a, b, c, fr: _path(a, b, fr).on_path(_pt(c, fr)), True, True),
    'GeoPath.closest_point_on_great_circle': (lambda a, b, c, fr: np.array(np.atleast_1d(*_path(a, b, fr).closest_point_on_great_circle(_pt(c, fr)).latlon[:2])), True, True),
    'GeoPath.intersect': (lambda a, b, c, fr: _path(a, b, fr).intersect(_path(c, np.roll(c, 1, axis=0) + 0.1, fr)).normal, True, True),
    'GeoPath.intersect second': (lambda a, b, c, fr: _path(c, np.roll(c, 1, axis=0) + 0.1, fr).intersect(_path(a, b, fr)).normal, True, True),
    'GeoPath.intersect itself': (lambda a, b, c, fr: _path(a, c, fr).intersect(_path(b, c, fr)).normal, True, False),
    'GeoPath.intersect its reverse': (lambda a, b, c, fr: _path(a, c, fr).intersect(_path(c, b, fr)).normal, True, False),
    'GeoPath.interpolate midway': (lambda a, b, c, fr: _path(a, b, fr).interpolate(0.5).normal, False, True),
})
NO_RAISE = {
    'GeoPath.track_distance': lambda a, b, c, fr: _path(a, b, fr).track_distance(),
    'GeoPath.track_distance euclidean': lambda a, b, c, fr: _path(a, b, fr).track_distance(method='euclidean'),
    'distance_and_azimuth': lambda a, b, c, fr: _path(a, b, fr).geo_points()[0].distance_and_azimuth(_path(a, b, fr).geo_points()[1])[0],
    'distance_and_azimuth greatcircle': lambda a, b, c, fr: _path(a, b, fr).geo_points()[0].distance_and_azimuth(_path(a, b, fr).geo_points()[1], method='greatcircle')[0],
    'delta_N': lambda a, b, c, fr: nv.delta_N(*_path(a, b, fr).nvectors()).pvector,
}


def degenerate(rec, axes, m):
    fr = nv.FrameE(axes=axes)
    D = ref.unit(lattice(m).astype(np.longdouble))
    D = np.concatenate([ref.f64(D), nE(*positions_deg()[:2], axes)], axis=1)
    C = np.array([[0.36, 0.48, 0.8]]).T
    C2 = np.array([[-0.6, 0.64, 0.48]]).T
    good = np.array([[0.8, 0.0, 0.6]]).T, np.array([[0.0, 0.6, 0.8]]).T
    for name, (f, same_, opp) in FUN.items():
        rec.context = dict(op=name, axes=axes)
        clean = {1: np.atleast_2d(f(good[0], good[1], C, fr))}
        for i in range(D.shape[1]):
            a = D[:, i:i + 1]
            for sign in (1, -1):
                if (sign == 1 and not same_) or (sign == -1 and not opp):
                    continue
                for c in (C, C2):
                    g = np.asarray(f(a.copy(), sign * a, c, fr), dtype=float)
                    truth = name.split('.')[-1].startswith('on_')
                    rec.ok(not g.any() if truth else np.isnan(g).all(), 'degenerate: undefined', start=a, sign=sign, answer=g)
                    rec.outcome('undefined')
                    rec.cover(states=1, transitions=1, traces=1)
                for n in (2, 3):
                    for at in range(n):
                        A, B, CC = [np.repeat(x, n, axis=1) for x in (good[0], good[1], C)]
                        A[:, at:at + 1], B[:, at:at + 1] = a, sign * a
                        g = np.atleast_2d(np.asarray(f(A, B, CC, fr), dtype=float))
                        rec.cover(states=n, transitions=1, traces=1)
                        if g.shape[-1] != n:
                            rec.fail('one answer per element', shape=g.shape)
                            continue
                        rec.ok(not g[:, at].any() if truth else np.isnan(g[:, at]).all(), 'degenerate element: undefined', start=a, sign=sign, answer=g)
                        for j in range(n):
                            if j != at:
                                rec.close(g[:, j], clean[1][:, 0].astype(float), 1e-6, 'other elements of a call with a degenerate one', sign=sign, start=a)
        rec.ok(np.isfinite(clean[1].astype(float)).all(), 'ordinary element')
    for name, f in NO_RAISE.items():
        rec.context = dict(op=name, axes=axes)
        for i in range(D.shape[1]):
            a = D[:, i:i + 1]
            for sign in (1, -1):
                g = np.asarray(f(a, sign * a, C, fr), dtype=float)
                rec.holds(np.isfinite(g), 'distances of degenerate pairs are defined', sign=sign)
                rec.cover(states=1, transitions=1, traces=1)
    # closest point of the segment
    rec.context = dict(op='GeoPath.closest_point_on_path', axes=axes)
    for i in range(D.shape[1]):
        a = D[:, i:i + 1]
        for sign in (1, -1):
            p = nv.GeoPath(fr.Nvector(a, 2.0), fr.Nvector(sign * a, 2.0)).closest_point_on_path(_pt(C, fr))
            q = p.to_nvector().normal
            undefined = np.isnan(np.asarray(q, dtype=float)).all()
            rec.ok(undefined or (sign == 1 and np.allclose(q, a, rtol=0, atol=1e-9)), 'closest point of a degenerate path', start=a, sign=sign, got=q)
            rec.cover(states=1, transitions=1, traces=1)
        nan = np.full((3, 1), np.nan)
        for A, B, P in ((nan, a, C), (a, nan, C), (a, C2, nan), (a, a, nan)):
            p = nv.GeoPath(fr.Nvector(A, 2.0), fr.Nvector(B, 2.0)).closest_point_on_path(_pt(P, fr))
            rec.ok(np.isnan(p.latitude) and np.isnan(p.longitude), 'closest point of undefined positions', got=repr(p.latlon))
            rec.cover(states=1, transitions=1, traces=1)


def tracks(rec, axes, full):
    """NaN among the samples or query times of a track"""
    fr = nv.FrameE(axes=axes)
    n0 = nE(TRACK[0], TRACK[1], axes)
    m = n0.shape[1]
    ti = np.concatenate([np.linspace(0, 1, 41), TRACK_T])
    for kind in ('linear', 'nearest', 'slinear', 'zero'):
        clean = nv.interp_nvectors(ti, TRACK_T, n0, kind=kind)
        cleanz = fr.Nvector(n0, TRACK[2]).interpolate(ti, TRACK_T, kind=kind).z
        for i in range(m):
            for c in range(3):
                n = n0.copy()
                n[c, i] = np.nan
                g = nv.interp_nvectors(ti, TRACK_T, n, kind=kind)
                lo, hi = TRACK_T[max(i - 1, 0)], TRACK_T[min(i + 1, m - 1)]
                far = (ti < lo - 1e-12) | (ti > hi + 1e-12)
                inside = (ti > lo + 1e-12) & (ti < hi - 1e-12) if kind == 'linear' else ti == TRACK_T[i]
                if kind == 'slinear':        # solved as a spline: only the sample itself is certain
                    far = np.zeros(far.shape, dtype=bool)
                rec.close(g[:, far], clean[:, far], 1e-14, 'positions away from an undefined sample', kind=kind, sample=i)
                rec.holds(np.isnan(g[:, inside]), 'positions next to an undefined sample', kind=kind, sample=i)
                rec.holds(np.isnan(g).all(axis=0) | np.isfinite(g).all(axis=0), 'all or nothing')
                z = TRACK[2].copy()
                X = fr.Nvector(n, z).interpolate(ti, TRACK_T, kind=kind)
                rec.close(X.normal, g, 1e-12, 'the same for objects')
                rec.close(X.z, cleanz, 1e-9, 'depth does not depend on the direction')
                rec.cover(states=ti.size, transitions=2, traces=1)
            z = TRACK[2].copy()
            z[i] = np.nan
            X = fr.Nvector(n0, z).interpolate(ti, TRACK_T, kind=kind)
            rec.close(X.normal, clean, 1e-12, 'positions do not depend on depths')
            if kind != 'slinear':
                rec.close(X.z[far], cleanz[far], 1e-9, 'depths away from an undefined depth', kind=kind)
            rec.holds(np.isnan(X.z[ti == TRACK_T[i]]), 'undefined depth at its sample', kind=kind)
            rec.cover(states=ti.size, transitions=1, traces=1)
        for i in range(ti.size):
            t2 = ti.copy()
            t2[i] = np.nan
            other = np.arange(ti.size) != i
            for kw in (dict(kind=kind), dict(kind='cubic'), dict(kind='quadratic'), dict(kind='cubic', window_length=5)):
                g = nv.interp_nvectors(t2, TRACK_T, n0, **kw)
                w = nv.interp_nvectors(ti, TRACK_T, n0, **kw)
                rec.holds(np.isnan(g[:, i]), 'undefined time', kw=str(kw))
                rec.close(g[:, other], w[:, other], 1e-12, 'other times', kw=str(kw))
                X = fr.Nvector(n0, TRACK[2]).interpolate(t2, TRACK_T, **kw)
                rec.holds(np.isnan(X.normal[:, i]) & np.isnan(X.z[i]), 'undefined time, objects', kw=str(kw))
                rec.cover(states=ti.size, transitions=3, traces=1)
    # between opposite samples
    n = np.stack([n0[:, 0], -n0[:, 0], n0[:, 1]], axis=1)
    g = nv.interp_nvectors([0.25, 0.5, 0.75, 1.5], [0.0, 1.0, 2.0], n)
    rec.ok(np.isnan(g[:, 1]).all() and np.isfinite(g[:, [0, 2, 3]]).all(), 'midway between opposite samples only', got=g)


def means(rec, axes):
    fr = nv.FrameE(axes=axes)
    n0 = nE(*positions_deg(7)[:2], axes)
    for k in range(1, 8):
        for i in range(k):
            for c in range(3):
                n = n0[:, :k].copy()
                n[c, i] = np.nan
                g = nv.mean_horizontal_position(n)
                rec.ok(np.isnan(g[c]).all(), 'mean of an undefined position', got=g)
                X = fr.Nvector(n, np.arange(k) * 1.0).mean()
                rec.ok(np.isnan(X.normal[c]).all() and abs(X.z - np.mean(np.arange(k))) < 1e-12, 'mean of an undefined position, object')
                rec.cover(states=1, transitions=2, traces=1)
            z = np.arange(k) * 1.0
            z[i] = np.nan
            X = fr.Nvector(n0[:, :k], z).mean()
            rec.ok(np.isnan(X.z) and np.isfinite(X.normal).all(), 'mean of an undefined depth')
    for a in lattice(2).T:
        a = a[:, None] / 4.0
        for n in (np.hstack([a, -a]), np.hstack([a, -a, 2 * a, -2 * a]), np.hstack([-a, a + 0, a, -a])):
            g = nv.mean_horizontal_position(n)
            rec.ok(np.isnan(g).all(), 'mean of positions that cancel', got=g)
            g = fr.Nvector(n, 0.0).mean()
            rec.ok(np.isnan(g.normal).all(), 'mean of positions that cancel, object', got=g.normal)
            rec.cover(states=1, transitions=2, traces=1)


def geodesics(rec):
    """distance and azimuths are undefined on every figure when a coordinate or the depth is"""
    figures = [(6378137.0, 1 / 298.257223563), (6371009.0, 0.0), (6371009.0, -1 / 300.0), (6378137.0, 0.02), (1.0, 1e-9)]
    good = [(10.0, 20.0, 30.0, 40.0), (0.0, 0.0, 0.0, 100.0), (0.0, 0.0, 0.0, 180.0), (0.0, -5.0, 0.0, -5.0), (90.0, 0.0, 10.0, 5.0), (-90.0, 0.0, 90.0, 5.0),
            (10.0, 20.0, -10.0, -160.0), (10.0, 20.0, 10.0, 20.0), (35.0, 180.0, -20.0, -180.0), (0.0, 0.0, 0.0, 179.7)]
    for a, f in figures:
        fr = nv.FrameE(a=a, f=f)
        for v in good:
            for which in itertools.chain.from_iterable(itertools.combinations(range(5), k) for k in (1, 2)):
                w = np.array(v + (0.0, ))
                w[list(which)] = np.nan
                for deg in (True, False):
                    x = w.copy()
                    if not deg:
                        x[:4] = np.radians(x[:4])
                    rec.cover(states=1, transitions=3, traces=1)
                    try:
                        one = fr.inverse(*x[:4], z=x[4], degrees=deg)
                        many = fr.inverse(*[np.array([u, u2]) for u, u2 in zip(x[:4], v if deg else np.radians(v))], z=np.array([x[4], 0.0]), degrees=deg)
                        p, q = fr.GeoPoint(x[0], x[1], x[4], degrees=deg), fr.GeoPoint(x[2], x[3], x[4], degrees=deg)
                        obj = p.distance_and_azimuth(q, degrees=deg) + (nv.GeoPath(p, q).track_distance(method='ellipsoidal'), )
                    except Exception as exc:
                        rec.fail('an undefined coordinate raises no error', figure=(a, f), at=v, which=which, error=repr(exc)[:100])
                        continue
                    rec.ok(all(np.isnan(u) for u in one), 'all undefined', figure=(a, f), at=v, which=which, answer=str(one))
                    rec.ok(all(np.isnan(u[0]) for u in many), 'all undefined in an array', figure=(a, f), at=v, which=which, answer=str(many))
                    rec.ok(not any(np.isnan(u[1]) for u in many), 'the other pair is defined', figure=(a, f), at=v, which=which, answer=str(many))
                    rec.ok(all(np.isnan(u) for u in obj), 'all undefined between points', figure=(a, f), at=v, which=which, answer=str(obj))
    rec.sample(figures=figures, pairs=len(good))


def out_of_range(rec, full):
    """latitudes outside [-90, 90] degrees are documented to be set to NaN by the ellipsoidal methods"""
    for fr in (nv.FrameE(), nv.FrameE(a=6371009.0, f=0)):
        good = [(10.0, 20.0, 30.0, 40.0), (-5.0, 170.0, 60.0, -170.0), (0.0, 0.0, 1.0, 1.0)]
        for bad in (90.0001, -90.0001, 91.0, 100.0, -120.0, 180.0, 270.0, 1e4, np.nan):
            for k in (1, 2, 3):
                for at in range(k):
                    for which in (0, 2):
                        a = np.array(good[:k]).T.copy()
                        clean = fr.inverse(*a, degrees=True)
                        a[which, at] = bad
                        got = fr.inverse(*a, degrees=True)
                        gotr = fr.inverse(*np.radians(a))
                        for g, h, w in zip(got, gotr, clean):
                            other = np.arange(k) != at
                            rec.ok(np.isnan(g[at]) and np.isnan(h[at]), 'inverse: latitude out of range', bad=bad, which=which, got=g)
                            rec.close(g[other], w[other], 1e-9, 'inverse: other elements')
                        rec.cover(states=k, transitions=2, traces=1)
                    a = np.array(good[:k]).T.copy()
                    clean = fr.direct(a[0], a[1], a[2], 1e6, degrees=True)
                    a[0, at] = bad
                    for unroll in (False, True):
                        got = fr.direct(a[0], a[1], a[2], 1e6, degrees=True, long_unroll=unroll)
                        other = np.arange(k) != at
                        for g, w in zip(got, clean):
                            rec.ok(np.isnan(g[at]), 'direct: latitude out of range', bad=bad, got=g)
                            if not unroll:
                                rec.close(g[other], w[other], 1e-9, 'direct: other elements')
                        rec.cover(states=k, transitions=1, traces=1)


def equality(rec):
    """comparisons with undefined coordinates are not true and raise nothing"""
    fr = nv.FrameE()
    nan = np.nan
    for k in (1, 3):
        lat, lon, z = [np.linspace(0.1, 0.3, k) for _ in range(3)]
        n = nE(lat, lon)
        objs = {}
        for at in range(k):
            for c in range(3):
                a = [lat.copy(), lon.copy(), z.copy()]
                a[c][at] = nan
                objs['geo', at, c] = fr.GeoPoint(*a), fr.GeoPoint(lat, lon, z)
                m = n.copy()
                m[c, at] = nan
                objs['nvec', at, c] = fr.Nvector(m, z), fr.Nvector(n, z)
                objs['ecef', at, c] = fr.ECEFvector(1e6 * m), fr.ECEFvector(1e6 * n)
        for key, (u, v) in objs.items():
            rec.ok(not (u == v) and not (v == u) and (u != v) and (v != u), 'an undefined position equals no defined one', key=key)
            rec.ok(isinstance(repr(u), str), 'can be shown')
            rec.cover(states=1, transitions=4, traces=1)
