"""Catalogue of the library's operations in a uniform, axes-independent form.

A raw parameter is a float array whose last axis enumerates elements:
  lat, lon, a (angle), z, x (scalar)   (k,)
  g   direction or n-vector (3,k) in the g frame;  v  Cartesian vector (3,k), g frame
  P   position (lat, lon, depth) (3,k)
  R   rotation matrices with rows on the Earth axes (3,3,k), g frame;  M  plain rotation matrices (3,3,k)
An operation receives a Cx (axes, ellipsoid, degrees or radians, layout of the arrays handed over) and raw parameters,
calls the library and returns a list of (kind, value); canon() maps that back to plain (c, k) arrays in the g frame.
"""
from mc.common import *

TOL = {'n': 1e-12, 'R': 1e-12, 'a': 1e-11, 'v': 1e-7, 'm': 1e-7, 'z': 1e-7, 'b': 0, 'x': 1e-12, 'l': 1e-7}


class Cx(object):
    def __init__(self, axes='e', ell='wgs84', deg=False, lay=None, single=False, sc=1.0):
        self.axes, self.ell, self.deg, self.lay, self.single = axes, ell, deg, lay or (lambda v, what: v), single
        self.sc = sc   # metres per unit of length, inverted: every length given is multiplied by this
        self._frame = None

    @property
    def frame(self):
        if self._frame is None:
            if self.sc == 1.0:
                self._frame = frameE(self.ell, self.axes)
            else:
                a, f = alph.ELLIPSOIDS[self.ell]
                self._frame = nv.FrameE(a=a * self.sc, f=f, axes=self.axes)
        return self._frame

    @property
    def mean(self):
        """mean radius of the Earth, where it is not the default"""
        return {} if self.sc == 1 else dict(radius=6371009.0 * self.sc)

    @property
    def depths(self):
        """those of the track"""
        return TRACK[2] * self.sc

    @property
    def kw(self):
        return kwR(self.axes)

    @property
    def af(self):
        a, f = alph.ELLIPSOIDS[self.ell]
        return dict(a=a * self.sc, f=f)

    # -- raw -> arguments
    def g(self, raw):
        return self.lay(emb_exact(self.axes, raw), 'vec')

    v = g

    def _one(self, raw, what):
        raw = np.asarray(raw)
        if self.single and raw.shape[-1] == 1:
            return raw[..., 0].item() if raw.ndim == 1 else raw[..., 0]
        return self.lay(raw, what)

    def x(self, raw):
        return self._one(raw, 'num')

    def a(self, raw):
        return self._one(np.degrees(raw) if self.deg else raw, 'num')

    def rad(self, raw):
        return self._one(raw, 'num')

    def P(self, raw, kind='geo'):
        lat, lon, z = raw
        fr = self.frame
        if kind == 'geo':
            return fr.GeoPoint(self.a(lat), self.a(lon), self.x(z), degrees=self.deg)
        k = lat.shape[-1]
        if kind == 'nvec':
            return fr.Nvector(self.lay(nE(lat, lon, self.axes), 'vec'), self.x(z))
        p = ref.f64(toE(self.axes, ref.ecef(ref.nvec(lat, lon), z, fr.a, fr.f)))
        return fr.ECEFvector(self.lay(p, 'vec'), scalar=True if self.single and k == 1 else (None if k == 1 else False))

    def R(self, raw):
        k = raw.shape[-1]
        E = np.stack([emb_exact(self.axes, raw[:, j, :]) for j in range(3)], axis=1)
        if self.single and k == 1:
            return E[:, :, 0]
        return self.lay(E, 'mat')

    def M(self, raw):
        if self.single and raw.shape[-1] == 1:
            return raw[:, :, 0]
        return self.lay(raw, 'mat')

    # -- answers
    def ang(self, value):
        return np.radians(value) if self.deg else value


def emb_exact(axes, raw):
    """raw (3,k) float in g -> components on the Earth axes; exact for permutation axes"""
    G = np.asarray(g2E(axes), dtype=float)
    if exact_axes(axes):
        G = np.round(G).astype(raw.dtype)
        return np.stack([sum(G[i, j] * raw[j] for j in range(3) if G[i, j]) for i in range(3)])
    return ref.f64(ref.mm(g2E(axes), raw))


def obj_out(o, angles=True):
    """library object -> list of (kind, value)"""
    if isinstance(o, nv.GeoPoint):
        return [('a', o.latitude), ('lon', o.longitude), ('z', o.z)]
    if isinstance(o, nv.Nvector):
        g = o.to_geo_point()
        return [('n', o.normal), ('z', o.z), ('a', g.latitude), ('z', g.z)]
    if isinstance(o, nv.ECEFvector):
        return [('v', o.pvector), ('m', o.length)]
    if isinstance(o, nv.Pvector):
        return [('l', o.pvector), ('m', o.length), ('a', o.azimuth), ('a', o.elevation)]
    raise TypeError(type(o))


def canon(cx, out, k):
    """list of (kind, value) -> list of (kind, (c,k) float array, note); note is None or a shape complaint"""
    res = []
    for kind, val in out:
        note = None
        arr = np.asarray(val, dtype=float)
        if kind in ('n', 'v', 'l'):
            if arr.shape != (3, k):
                note = 'shape %s for %d element(s)' % (arr.shape, k)
                arr = np.full((3, k), np.nan)
            elif kind != 'l':
                arr = ref.f64(toG(cx.axes, arr))
        elif kind in ('R', 'M'):
            if arr.shape == (3, 3) and k == 1:
                arr = arr[:, :, None]
            if arr.shape != (3, 3, k):
                note = 'shape %s for %d element(s)' % (arr.shape, k)
                arr = np.full((9, k), np.nan)
            else:
                if kind == 'R':
                    arr = np.stack([ref.f64(toG(cx.axes, arr[:, j, :])) for j in range(3)], axis=1)
                arr = arr.reshape(9, k)
        else:
            if arr.ndim == 0:
                if k != 1 and kind != 'z' and kind != 'z0':
                    note = 'one answer for %d elements' % k
                arr = np.full((1, k), float(arr))
            elif arr.shape == (k,) or (kind == 'z' and arr.shape == (1,)):
                arr = np.broadcast_to(arr, (k,)).reshape(1, k)
            else:
                note = 'shape %s for %d element(s)' % (arr.shape, k)
                arr = np.full((1, k), np.nan)
        res.append(('z' if kind == 'z0' else kind, arr, note))
    return res


def same(rec, got, want, msg, scale=1.0, only=None, **info):
    """compare two canonical answers; longitudes and angles modulo a turn"""
    if len(got) != len(want):
        return rec.fail(msg + ': different kind of answer', **info)
    good = True
    for i, ((kind, g, note), (_, w, wnote)) in enumerate(zip(got, want)):
        if note:
            rec.fail(msg + ': ' + note, output=i, kind=kind, **info)
            good = False
            continue
        if wnote:
            continue
        if only is not None:
            g, w = g[:, only], w[:, only]
        tol = TOL['a' if kind in ('a', 'lon') else kind] * scale
        if kind in ('a', 'lon'):
            d = g - w
            d = np.where(np.isfinite(d), np.mod(d + np.pi, 2 * np.pi) - np.pi, d)
            good &= rec.close(d, np.where(np.isnan(w), np.nan, 0.0), tol, '%s: angle' % msg, answer=g, wanted=w, output=i, **info)
        elif kind == 'b':
            good &= rec.holds((g == w) | (np.isnan(g) & np.isnan(w)), '%s: truth value' % msg, answer=g, wanted=w, output=i, **info)
        else:
            fin = np.abs(w[np.isfinite(w)])
            big = np.max(fin) if fin.size and kind in ('v', 'l', 'm', 'z', 'x') else 1.0
            t = tol * max(1.0, big / 1e7) if kind != 'x' else tol * max(1.0, big)
            good &= rec.close(g, w, t, '%s: %s' % (msg, {'n': 'n-vector', 'R': 'matrix', 'M': 'matrix', 'v': 'vector', 'l': 'vector', 'm': 'length',
                                                         'z': 'depth', 'x': 'number'}[kind]), output=i, **info)
    return bool(good)


TOL['M'] = 1e-12
TOL['lon'] = 1e-11


class Op(object):
    def __init__(self, name, params, fn, group='f', onlysingle=False, listok=True, deg=False, axes=True, tags=()):
        self.name, self.params, self.fn, self.group = name, params, fn, group
        self.onlysingle, self.listok, self.deg, self.axes, self.tags = onlysingle, listok, deg, axes, set(tags)

    def run(self, cx, vals, k):
        return canon(cx, self.fn(cx, *vals), k)


OPS = {}


def op(name, params, **kw):
    def deco(fn):
        OPS[name] = Op(name, params.split(), fn, **kw)
        return fn
    return deco


# ------------------------------------------------------------------ functional interface
F = dict(group='f')


@op('lat_lon2n_E', 'lat lon', **F)
def _(cx, lat, lon):
    return [('n', nv.lat_lon2n_E(cx.rad(lat), cx.rad(lon), **cx.kw))]


@op('n_E2lat_lon', 'gA', **F)
def _(cx, n):
    la, lo = nv.n_E2lat_lon(cx.g(n), **cx.kw)
    return [('a', la), ('lon', lo)]


@op('n_EB_E2p_EB_E', 'gA z', **F)
def _(cx, n, z):
    return [('v', nv.n_EB_E2p_EB_E(cx.g(n), cx.x(z), **cx.af, **cx.kw))]


@op('p_EB_E2n_EB_E', 'p', **F)
def _(cx, p):
    n, z = nv.p_EB_E2n_EB_E(cx.v(p), **cx.af, **cx.kw)
    return [('n', n), ('z', z)]


@op('n_EA_E_and_n_EB_E2p_AB_E', 'gA gB z z2', **F)
def _(cx, a, b, za, zb):
    return [('v', nv.n_EA_E_and_n_EB_E2p_AB_E(cx.g(a), cx.g(b), cx.x(za), cx.x(zb), **cx.af, **cx.kw))]


@op('n_EA_E_and_p_AB_E2n_EB_E', 'gA dp z', **F)
def _(cx, a, d, za):
    n, z = nv.n_EA_E_and_p_AB_E2n_EB_E(cx.g(a), cx.v(d), cx.x(za), **cx.af, **cx.kw)
    return [('n', n), ('z', z)]


@op('n_EA_E_and_n_EB_E2azimuth', 'gA gB', **F)
def _(cx, a, b):
    return [('a', nv.n_EA_E_and_n_EB_E2azimuth(cx.g(a), cx.g(b), **cx.af, **cx.kw))]


@op('n_EA_E_distance_and_azimuth2n_EB_E', 'gA drad az', **F)
def _(cx, a, d, az):
    return [('n', nv.n_EA_E_distance_and_azimuth2n_EB_E(cx.g(a), cx.rad(d), cx.rad(az), **cx.kw))]


@op('great_circle_distance', 'gA gB', **F)
def _(cx, a, b):
    return [('m', nv.great_circle_distance(cx.g(a), cx.g(b), radius=6371e3 * cx.sc))]


@op('euclidean_distance', 'gA gB', **F)
def _(cx, a, b):
    return [('m', nv.euclidean_distance(cx.g(a), cx.g(b), radius=6371e3 * cx.sc))]


@op('great_circle_normal', 'gA gB', **F)
def _(cx, a, b):
    return [('n', nv.great_circle_normal(cx.g(a), cx.g(b)))]


@op('cross_track_distance', 'gA gB gC', **F)
def _(cx, a, b, c):
    return [('m', nv.cross_track_distance((cx.g(a), cx.g(b)), cx.g(c), **cx.mean))]


@op('cross_track_distance_euclidean', 'gA gB gC', **F)
def _(cx, a, b, c):
    return [('m', nv.cross_track_distance((cx.g(a), cx.g(b)), cx.g(c), method='euclidean', radius=2.0 * cx.sc))]


@op('on_great_circle', 'gA gB gOn', **F)
def _(cx, a, b, c):
    return [('b', nv.on_great_circle((cx.g(a), cx.g(b)), cx.g(c), atol=1e-2 * cx.sc, **cx.mean))]


@op('on_great_circle_path', 'gA gB gOn', **F)
def _(cx, a, b, c):
    return [('b', nv.on_great_circle_path((cx.g(a), cx.g(b)), cx.g(c), atol=1e-2 * cx.sc, **cx.mean))]


@op('closest_point_on_great_circle', 'gA gB gC', **F)
def _(cx, a, b, c):
    return [('n', nv.closest_point_on_great_circle((cx.g(a), cx.g(b)), cx.g(c)))]


@op('intersect', 'gA gB gC gD', **F)
def _(cx, a, b, c, d):
    return [('n', nv.intersect((cx.g(a), cx.g(b)), (cx.g(c), cx.g(d))))]


@op('interpolate', 'gA gB t', **F)
def _(cx, a, b, t):
    return [('n', nv.interpolate((cx.g(a), cx.g(b)), cx.x(t)))]


TRACK = np.array([[0.1, 0.4, 0.45, 0.7, 1.0, 0.9], [3.0, 3.1, -3.1, -2.9, -2.6, -2.5], [0.0, 10.0, -30.0, 5.0, 80.0, 81.0]])
TRACK_T = np.array([0.0, 0.2, 0.5, 0.6, 0.9, 1.0])


@op('interp_nvectors', 't', **F)
def _(cx, t):
    n = cx.lay(nE(TRACK[0], TRACK[1], cx.axes), 'vec')
    return [('n', nv.interp_nvectors(cx.x(t), TRACK_T, n))]


@op('interp_nvectors_cubic', 't', **F)
def _(cx, t):
    n = cx.lay(nE(TRACK[0], TRACK[1], cx.axes), 'vec')
    return [('n', nv.interp_nvectors(cx.x(t), TRACK_T, n, kind='cubic', window_length=3, polyorder=1))]


@op('n_E2R_EN', 'gA', **F)
def _(cx, n):
    return [('R', nv.n_E2R_EN(cx.g(n), **cx.kw))]


@op('n_E_and_wa2R_EL', 'gA az', **F)
def _(cx, n, wa):
    return [('R', nv.n_E_and_wa2R_EL(cx.g(n), cx.rad(wa), **cx.kw))]


@op('R_EN2n_E', 'R', **F)
def _(cx, R):
    return [('n', nv.R_EN2n_E(cx.R(R)))]


@op('R_EL2n_E', 'R', **F)
def _(cx, R):
    return [('n', nv.R_EL2n_E(cx.R(R)))]


@op('xyz2R', 'az lat lon', axes=False, **F)
def _(cx, x, y, z):
    return [('M', nv.xyz2R(cx.rad(x), cx.rad(y), cx.rad(z)))]


@op('zyx2R', 'az lat lon', axes=False, **F)
def _(cx, x, y, z):
    return [('M', nv.zyx2R(cx.rad(x), cx.rad(y), cx.rad(z)))]


@op('R2xyz', 'M', axes=False, **F)
def _(cx, M):
    return [('a', v) for v in nv.R2xyz(cx.M(M))]


@op('R2zyx', 'M', axes=False, **F)
def _(cx, M):
    return [('a', v) for v in nv.R2zyx(cx.M(M))]


@op('unit', 'p', **F)
def _(cx, p):
    return [('n', nv.unit(cx.v(p)))]


@op('mdot', 'M M2', axes=False, **F)
def _(cx, A, B):
    return [('M', nv.mdot(cx.lay(A, 'mat'), cx.lay(B, 'mat')))]


@op('deg_rad', 'lat lon', axes=False, **F)
def _(cx, a, b):
    c, d = nv.deg(cx.rad(a), cx.rad(b))
    e, f = nv.rad(cx.rad(a), cx.rad(b))
    n = max(np.size(a), np.size(b))
    return [('x', v if np.size(v) == n else np.broadcast_to(v, (n,))) for v in (c, d, e, f)]


@op('nthroot', 'pos', axes=False, **F)
def _(cx, x):
    return [('x', nv.nthroot(cx.x(x), 3)), ('x', nv.nthroot(cx.x(x), 2))]


@op('isclose', 'lat latnear', axes=False, **F)
def _(cx, a, b):
    return [('b', util.isclose(cx.x(a), cx.x(b), rtol=1e-3, atol=1e-2))]


# ------------------------------------------------------------------ object interface
O = dict(group='o', deg=True)

for _k in KINDS:
    @op('to_nvector_' + _k, 'PA', **O)
    def _(cx, A, kind=_k):
        return obj_out(cx.P(A, kind).to_nvector())

    @op('to_ecef_vector_' + _k, 'PA', **O)
    def _(cx, A, kind=_k):
        return obj_out(cx.P(A, kind).to_ecef_vector())

    @op('to_geo_point_' + _k, 'PA', **O)
    def _(cx, A, kind=_k):
        return obj_out(cx.P(A, kind).to_geo_point())

for _ka, _kb in (('geo', 'geo'), ('nvec', 'geo'), ('geo', 'ecef'), ('ecef', 'nvec')):
    @op('delta_E_%s_%s' % (_ka, _kb), 'PA PB', **O)
    def _(cx, A, B, ka=_ka, kb=_kb):
        d = nv.delta_E(cx.P(A, ka), cx.P(B, kb))
        return obj_out(d) + [('m', d.length)]

    @op('delta_N_%s_%s' % (_ka, _kb), 'PA PB', **O)
    def _(cx, A, B, ka=_ka, kb=_kb):
        d = nv.delta_N(cx.P(A, ka), cx.P(B, kb))
        return obj_out(d) + [('m', d.length), ('a', d.azimuth), ('a', d.elevation)]

    @op('delta_to_%s_%s' % (_ka, _kb), 'PA PB', **O)
    def _(cx, A, B, ka=_ka, kb=_kb):
        d = cx.P(A, ka).delta_to(cx.P(B, kb))
        return obj_out(d) + [('a', np.radians(d.azimuth_deg)), ('a', np.radians(d.elevation_deg))]

    @op('gc_distance_%s_%s' % (_ka, _kb), 'PA PB', **O)
    def _(cx, A, B, ka=_ka, kb=_kb):
        p = nv.GeoPath(cx.P(A, ka), cx.P(B, kb))
        return [('m', p.track_distance()), ('m', p.track_distance(method='euclidean')), ('m', p.track_distance(radius=7e6 * cx.sc))]


@op('delta_L', 'PA PB wa', **O)
def _(cx, A, B, wa):
    return obj_out(nv.delta_L(cx.P(A), cx.P(B), wander_azimuth=cx.rad(wa)))


@op('change_frame_N', 'PA PB', **O)
def _(cx, A, B):
    p = cx.P(A).to_ecef_vector().change_frame(nv.FrameN(cx.P(B)))
    return obj_out(p) + obj_out(p.to_ecef_vector())


@op('change_frame_L', 'PA PB wa', **O)
def _(cx, A, B, wa):
    p = cx.P(A).to_ecef_vector().change_frame(nv.FrameL(cx.P(B, 'nvec'), cx.rad(wa)))
    return obj_out(p) + obj_out(p.to_ecef_vector())


@op('change_frame_B', 'PA PB wa lat2 t', **O)
def _(cx, A, B, yaw, pitch, roll):
    p = cx.P(A).to_ecef_vector().change_frame(nv.FrameB(cx.P(B, 'geo'), cx.a(yaw), cx.a(pitch), cx.a(roll), degrees=cx.deg))
    return obj_out(p) + obj_out(p.to_ecef_vector()) + obj_out(p.to_nvector())


@op('frame_N', 'PA', **O)
def _(cx, A):
    return [('R', nv.FrameN(cx.P(A)).R_EN)]


@op('frame_L', 'PA wa', **O)
def _(cx, A, wa):
    return [('R', nv.FrameL(cx.P(A), cx.rad(wa)).R_EN)]


@op('frame_B', 'PA wa lat2 t', **O)
def _(cx, A, yaw, pitch, roll):
    return [('R', nv.FrameB(cx.P(A), cx.a(yaw), cx.a(pitch), cx.a(roll), degrees=cx.deg).R_EN)]


@op('displace_greatcircle', 'PA s az', **O)
def _(cx, A, s, az):
    B, a2 = cx.P(A).displace(cx.x(s), cx.a(az), degrees=cx.deg, method='greatcircle')
    return obj_out(B) + [('a', cx.ang(a2))]


@op('displace_ellipsoid', 'PA s az', **O)
def _(cx, A, s, az):
    B, a2 = cx.P(A).displace(cx.x(s), cx.a(az), degrees=cx.deg)
    return obj_out(B) + [('a', cx.ang(a2))]


@op('displace_unrolled', 'PA s az', **O)
def _(cx, A, s, az):
    B, a2 = cx.P(A).displace(cx.x(s), cx.a(az), long_unroll=True, degrees=cx.deg)
    return obj_out(B) + [('x', B.longitude), ('a', cx.ang(a2))]


for _kb in KINDS:
    @op('distance_and_azimuth_ellipsoid_' + _kb, 'PA PB', **O)
    def _(cx, A, B, kb=_kb):
        s, a, b = cx.P(A).distance_and_azimuth(cx.P(B, kb), degrees=cx.deg)
        return [('m', s), ('a', cx.ang(a)), ('a', cx.ang(b))]

    @op('distance_and_azimuth_greatcircle_' + _kb, 'PA PB', **O)
    def _(cx, A, B, kb=_kb):
        s, a, b = cx.P(A).distance_and_azimuth(cx.P(B, kb), degrees=cx.deg, method='greatcircle')
        return [('m', s), ('a', cx.ang(a)), ('a', cx.ang(b))]


@op('FrameE_inverse', 'lat lon lat2 lon2 z', axes=False, **O)
def _(cx, la, lo, lb, lob, z):
    s, a, b = cx.frame.inverse(cx.a(la), cx.a(lo), cx.a(lb), cx.a(lob), z=cx.x(z), degrees=cx.deg)
    return [('m', s), ('a', cx.ang(a)), ('a', cx.ang(b))]


@op('FrameE_direct', 'lat lon az s z', axes=False, **O)
def _(cx, la, lo, az, s, z):
    lb, lob, b = cx.frame.direct(cx.a(la), cx.a(lo), cx.a(az), cx.x(s), z=cx.x(z), degrees=cx.deg)
    return [('a', cx.ang(lb)), ('lon', cx.ang(lob)), ('a', cx.ang(b))]


@op('FrameE_direct_unrolled', 'lat lon az s', axes=False, **O)
def _(cx, la, lo, az, s):
    lb, lob, b = cx.frame.direct(cx.a(la), cx.a(lo), cx.a(az), cx.x(s), long_unroll=True, degrees=cx.deg)
    return [('a', cx.ang(lb)), ('x', cx.ang(lob)), ('a', cx.ang(b))]


@op('GeoPath_cross_track_distance', 'PA PB PC', **O)
def _(cx, A, B, C):
    p = nv.GeoPath(cx.P(A), cx.P(B, 'nvec'))
    return [('m', p.cross_track_distance(cx.P(C))), ('m', p.cross_track_distance(cx.P(C, 'ecef'), method='euclidean')),
            ('m', p.cross_track_distance(cx.P(C), radius=6e6 * cx.sc))]


@op('GeoPath_on_great_circle', 'PA PB POn', **O)
def _(cx, A, B, C):
    return [('b', nv.GeoPath(cx.P(A), cx.P(B)).on_great_circle(cx.P(C), atol=1e-2 * cx.sc))]


@op('GeoPath_on_path', 'PA0 PB0 POn', **O)
def _(cx, A, B, C):
    return [('b', nv.GeoPath(cx.P(A), cx.P(B)).on_path(cx.P(C), atol=1e-2 * cx.sc))]


@op('GeoPath_on_path_ellipsoid', 'PA0 PB0 PGeod', **O)
def _(cx, A, B, C):
    return [('b', nv.GeoPath(cx.P(A), cx.P(B)).on_path(cx.P(C), method='ellipsoid', atol=1e-5))]


@op('GeoPath_closest_point_on_great_circle', 'PA PB PC', **O)
def _(cx, A, B, C):
    return obj_out(nv.GeoPath(cx.P(A), cx.P(B)).closest_point_on_great_circle(cx.P(C)))


@op('GeoPath_closest_point_on_path', 'PA PB PC', onlysingle=True, **O)
def _(cx, A, B, C):
    return obj_out(nv.GeoPath(cx.P(A), cx.P(B)).closest_point_on_path(cx.P(C)))


@op('GeoPath_intersect', 'PA PB PC PD', **O)
def _(cx, A, B, C, D):
    return obj_out(nv.GeoPath(cx.P(A), cx.P(B)).intersect(nv.GeoPath(cx.P(C), cx.P(D))))


@op('GeoPath_interpolate', 'PA PB t', **O)
def _(cx, A, B, t):
    return obj_out(nv.GeoPath(cx.P(A), cx.P(B)).interpolate(cx.x(t)))


@op('GeoPath_ellipsoidal_distance', 'PA PB', **O)
def _(cx, A, B):
    return [('m', nv.GeoPath(cx.P(A), cx.P(B)).track_distance(method='ellipsoidal'))]


@op('GeoPath_ends', 'PA PB', **O)
def _(cx, A, B):
    p = nv.GeoPath(cx.P(A), cx.P(B))
    out = []
    for pair in (p.nvectors(), p.geo_points(), p.ecef_vectors()):
        out.append([x for o in pair for x in obj_out(o)])
    return out[0] + out[1] + out[2] + [('n', v) for v in p.nvector_normals()] if np.shape(A) == np.shape(B) else \
        [('n', p.nvector_normals()[0 if np.shape(A)[-1] > np.shape(B)[-1] else 1])]


@op('Nvector_interpolate', 't', **O)
def _(cx, t):
    track = cx.frame.Nvector(cx.lay(nE(TRACK[0], TRACK[1], cx.axes), 'vec'), cx.depths)
    X = track.interpolate(cx.x(t), TRACK_T)
    return [('n', X.normal), ('z0', X.z)]   # documented for vectors of times


@op('Nvector_arithmetic', 'PA PB', **O)
def _(cx, A, B):
    a, b = cx.P(A, 'nvec'), cx.P(B, 'nvec')
    return obj_out(a + b) + obj_out(a - b)


@op('Nvector_scaled', 'PA', **O)
def _(cx, A):
    a = cx.P(A, 'nvec')
    return obj_out(a * 3) + obj_out(2.5 * a) + obj_out(a / 4) + obj_out(-a)


@op('Nvector_unit', 'PA', **O)
def _(cx, A):
    a = cx.P(A, 'nvec') * 7.5
    a.unit()
    return obj_out(a)


@op('ECEFvector_arithmetic', 'PA PB', **O)
def _(cx, A, B):
    a, b = cx.P(A, 'ecef'), cx.P(B, 'ecef')
    return obj_out(a + b) + obj_out(a - b) + [('m', (b - a).length)]


@op('ECEFvector_negation', 'PA', **O)
def _(cx, A):
    a = -cx.P(A, 'ecef')
    return obj_out(a) + [('m', a.length)]


@op('GeoPoint_degrees', 'PA', **O)
def _(cx, A):
    p = cx.P(A)
    la, lo, z = p.latlon_deg
    lr, lor, z2 = p.latlon
    return [('x', p.latitude_deg), ('x', p.longitude_deg), ('x', la), ('x', lo), ('z', z), ('x', lr), ('x', lor), ('z', z2),
            ('x', p.latitude), ('x', p.longitude)]


# ------------------------------------------------------------------ elements
def elements(E=24, poles=True):
    """raw values of every parameter kind for E elements (cyclic over the alphabets)"""
    pos = np.array(alph.POSITIONS if poles else [p for p in alph.POSITIONS if abs(p[0]) < 89])
    m = len(pos)
    i = np.arange(E)
    def P(mul, off):
        q = pos[(mul * i + off * (1 + i // m)) % m]
        return np.stack([np.radians(q[:, 0]), np.radians(q[:, 1]), q[:, 2]])
    A, B = P(1, 0), P(5, 3)
    C, D = P(7, 1), P(3, 9)
    # no pair of an element coincides or is antipodal
    for u in (B, C, D):
        u[0] += 0.013 * (1 - 2 * (u[0] > 1)) * (1 + (i % 3))
    C[1] += 0.4
    D[1] -= 0.7
    out = dict(PA=A, PB=B, PC=C, PD=D)
    gs = {k: ref.f64(ref.nvec(v[0], v[1])) for k, v in out.items()}
    out.update(gA=gs['PA'], gB=gs['PB'], gC=gs['PC'], gD=gs['PD'])
    # positions on / off the path from A to B: fraction of the arc
    frac = np.array([0.3, 1.4, 0.8, -0.2, 0.5, 0.62])[i % 6]
    la, lb = ref.nvec(A[0], A[1]), ref.nvec(B[0], B[1])
    c = ref.unit(ref.cross(la, lb))
    d = ref.cross(c, la)
    ang = ref.angle(la, lb) * frac
    on = la * np.cos(ang) + d * np.sin(ang)
    off = np.where(i % 6 == 5, 0.01, 0.0)
    on = on * np.cos(off) + c * np.sin(off)
    out['gOn'] = ref.f64(on)
    latlon = ref.latlon(on)
    out['PA0'], out['PB0'] = A.copy(), B.copy()
    out['PA0'][2] = 10.0
    out['PB0'][2] = 10.0
    out['POn'] = np.stack([ref.f64(latlon[0]), ref.f64(latlon[1]), np.where(i % 4 == 3, 25.0, 10.0)])
    from geographiclib.geodesic import Geodesic
    geo = Geodesic(6378137.0 - 10.0, 1 / 298.257223563)
    q = []
    for k in range(E):
        w = geo.Inverse(*np.degrees([A[0, k], A[1, k], B[0, k], B[1, k]]))
        e = geo.Direct(*np.degrees([A[0, k], A[1, k]]), w['azi1'] + (0.5 if k % 6 == 5 else 0.0), w['s12'] * frac[k])
        q.append((np.radians(e['lat2']), np.radians(e['lon2']), 10.0))
    out['PGeod'] = np.array(q).T
    out.update(lat=A[0], lon=A[1], z=A[2], lat2=B[0], lon2=B[1], z2=B[2])
    fr = (6378137.0, 1 / 298.257223563)
    out['p'] = ref.f64(ref.ecef(ref.nvec(A[0], A[1]), A[2], *fr))
    out['dp'] = np.stack([1e3 * np.cos(3.0 * i) * (1 + i), -2e5 * np.sin(2.0 * i), 7e4 * np.cos(i) + 1.0])
    out['latnear'] = A[0] + np.array([0.0, 5e-3, 0.3, -0.05, 9e-3])[i % 5]
    out['drad'] = np.array([0.3, 1e-3, 2.0, 1.1, 3.0, 4.4, -0.6])[i % 7]
    out['az'] = np.array([0.4, -1.3, 3.0, 2.2, 1.5707, -2.9, 5.0, 0.01])[i % 8]
    out['wa'] = np.array([0.0, 1.0, -2.0, 0.3, 7.0])[i % 5]
    out['t'] = np.array([0.25, 0.0, 0.6, 0.85, 0.1, 1.0, 0.33])[i % 7]
    out['s'] = np.array([1e3, 5e6, 12.5, 9e6, 2e5, 1.5e7])[i % 6]
    out['pos'] = np.array([27.0, 0.3, 1e5, 2.0, 1e-3, 64.0, 1e9])[i % 7]
    R = np.stack([np.stack(v, axis=0) for v in zip(*[ref.ned(A[0], A[1])])], axis=0) if False else None
    n, e, dn = ref.ned(A[0], A[1])
    out['R'] = ref.f64(mm3(np.stack([n, e, dn], axis=1), ref.rot(2, out['wa'])))
    out['M'] = ref.f64(mm3(mm3(ref.rot(2, out['az']), ref.rot(1, 0.8 * B[0])), ref.rot(0, out['lon'])))
    out['M2'] = ref.f64(mm3(ref.rot(0, out['t']), ref.rot(2, out['az'])))
    return out


def take(el, name, idx):
    return el[name][..., idx]
