import itertools
from mc.common import *

BOUNDS = """every operation that combines positions (sums, differences, deltas, changes of frame, distances, path operations, interpolation) x all ordered
pairs over an alphabet of reference frames (equal by value but distinct or differently named; different semi-axis, flattening or axes by large and by
small amounts, singly and together; frames altered after creation) x all representations of the operands x single/array x operand order. Oracle: an error exactly when the
parameters of the two frames differ; otherwise the frame of the result is theirs."""

WGS = (6378137.0, 1 / 298.257223563)
FRAMES = [
    ('wgs84', (0, 0, 'e'), lambda: nv.FrameE()),
    ('wgs84 by value', (0, 0, 'e'), lambda: nv.FrameE(a=WGS[0], f=WGS[1], name='local datum')),
    ('wgs84 lower case', (0, 0, 'e'), lambda: nv.FrameE(name='wgs 84')),
    ('wgs84 E', (0, 0, 'E'), lambda: nv.FrameE(axes='E')),
    ('wgs84 E again', (0, 0, 'E'), lambda: nv.FrameE(a=WGS[0], f=WGS[1], name='x', axes='E')),
    ('wgs72', (1, 1, 'e'), lambda: nv.FrameE(name='WGS72')),
    ('wgs72 E', (1, 1, 'E'), lambda: nv.FrameE(name='WGS72', axes='E')),
    ('etrs89', (0, 2, 'e'), lambda: nv.FrameE(name='ETRS89')),
    ('sphere', (0, 3, 'e'), lambda: nv.FrameE(a=WGS[0], f=0)),
    ('other sphere', (4, 3, 'e'), lambda: nv.FrameE(a=6371009.0, f=0)),
    ('a + 1 mm', (5, 0, 'e'), lambda: nv.FrameE(a=WGS[0] + 1e-3, f=WGS[1], name='WGS84')),
    ('a - 1 km', (6, 0, 'e'), lambda: nv.FrameE(a=WGS[0] - 1e3, f=WGS[1], name='WGS84')),
    ('f + 1e-11', (0, 4, 'e'), lambda: nv.FrameE(a=WGS[0], f=WGS[1] + 1e-11, name='WGS84')),
    ('-f', (0, 5, 'e'), lambda: nv.FrameE(a=WGS[0], f=-WGS[1], name='WGS84')),
]


def reassigned(frame, key):
    """the same parameters reached by assigning attributes of another frame"""
    fr = nv.FrameE(name='Clarke 1866')
    fr.a, fr.f, fr.R_Ee = frame.a, frame.f, frame.R_Ee
    return fr


def make(kind, fr, lat, lon, z, arr):
    if arr:
        lat, lon, z = lat + 0.01 * np.arange(3), lon + 0.02 * np.arange(3), z + np.arange(3.0)
    p = fr.GeoPoint(lat, lon, z)
    return dict(geo=p, nvec=p.to_nvector(), ecef=p.to_ecef_vector())[kind] if kind in KINDS else p.to_ecef_vector().change_frame(nv.FrameN(fr.GeoPoint(0.1, 0.2)))


OPS = {
    'delta_E': (lambda a, b: nv.delta_E(a, b), KINDS, KINDS),
    'delta_N': (lambda a, b: nv.delta_N(a, b), KINDS, KINDS),
    'delta_L': (lambda a, b: nv.delta_L(a, b, wander_azimuth=0.3), KINDS, KINDS),
    'delta_to': (lambda a, b: a.delta_to(b), KINDS, KINDS),
    'diff_positions': (lambda a, b: nv.diff_positions(a, b), KINDS, KINDS),
    'Nvector sum': (lambda a, b: a + b, ('nvec',), ('nvec',)),
    'Nvector difference': (lambda a, b: a - b, ('nvec',), ('nvec',)),
    'ECEFvector sum': (lambda a, b: a + b, ('ecef',), ('ecef',)),
    'ECEFvector difference': (lambda a, b: a - b, ('ecef',), ('ecef',)),
    'change_frame N': (lambda a, b: a.change_frame(nv.FrameN(b)), ('ecef',), KINDS),
    'change_frame L': (lambda a, b: a.change_frame(nv.FrameL(b, 0.2)), ('ecef',), KINDS),
    'change_frame B': (lambda a, b: a.change_frame(nv.FrameB(b, 0.1, 0.2, 0.3)), ('ecef',), KINDS),
    'distance_and_azimuth': (lambda a, b: a.distance_and_azimuth(b), ('geo',), KINDS),
    'distance_and_azimuth great circle': (lambda a, b: a.distance_and_azimuth(b, method='greatcircle', degrees=True), ('geo',), KINDS),
    'track_distance': (lambda a, b: nv.GeoPath(a, b).track_distance(), KINDS, KINDS),
    'track_distance euclidean': (lambda a, b: nv.GeoPath(a, b).track_distance(method='euclidean', radius=1e6), KINDS, KINDS),
    'track_distance ellipsoidal': (lambda a, b: nv.GeoPath(a, b).track_distance(method='ellipsoidal'), KINDS, KINDS),
    'interpolate': (lambda a, b: nv.GeoPath(a, b).interpolate(0.3), KINDS, KINDS),
}


def third(a, fr):
    return fr.GeoPoint(0.35, 0.52, 3.0)


def _path_ops():
    out = {}
    methods = {
        'cross_track_distance': lambda p, c: p.cross_track_distance(c),
        'cross_track_distance with radius': lambda p, c: p.cross_track_distance(c, method='euclidean', radius=6e6),
        'on_great_circle': lambda p, c: p.on_great_circle(c),
        'on_path': lambda p, c: p.on_path(c),
        'on_path ellipsoid': lambda p, c: p.on_path(c, method='ellipsoid'),
        'closest_point_on_great_circle': lambda p, c: p.closest_point_on_great_circle(c),
        'closest_point_on_path': lambda p, c: p.closest_point_on_path(c),
    }
    for name, m in methods.items():
        # the odd one out is the position, the start or the end
        out[name + ', position'] = (lambda a, b, m=m: m(nv.GeoPath(a, third(a, a.frame)), b), KINDS, KINDS)
        out[name + ', start'] = (lambda a, b, m=m: m(nv.GeoPath(a, third(b, b.frame)), b), KINDS, KINDS)
        out[name + ', end'] = (lambda a, b, m=m: m(nv.GeoPath(third(b, b.frame), a), b), KINDS, KINDS)
    for pos in range(4):
        def f(a, b, pos=pos):
            pts = [b, third(b, b.frame), b.frame.GeoPoint(0.1, 0.9), b.frame.GeoPoint(0.7, 0.1)]
            pts[pos] = a
            return nv.GeoPath(pts[0], pts[1]).intersect(nv.GeoPath(pts[2], pts[3]))
        out['intersect, position %d' % pos] = (f, KINDS, KINDS)
    out['intersect, paths'] = (lambda a, b: nv.GeoPath(a, third(a, a.frame)).intersect(nv.GeoPath(b, b.frame.GeoPoint(0.7, 0.1))), KINDS, KINDS)
    return out


OPS.update(_path_ops())
SINGLE_ONLY = ('closest_point_on_path', )


def tasks(tier):
    q = tier == 'quick'
    return [('combine', dict(name=n, arrays=not q, alter=True)) for n in OPS] + [('special', dict(name=n)) for n in OPS] + [('results', {})]


def combine(rec, name, arrays, alter):
    fun, ka, kb = OPS[name]
    rec.context = dict(op=name)
    for (fa, keya, mka), (fb, keyb, mkb) in itertools.product(FRAMES, FRAMES):
        want = keya != keyb
        for A, B in itertools.product(ka, kb):
            for arr in ((False, False), (True, True), (True, False)) if not any(s in name for s in SINGLE_ONLY) else ((False, False),):
                if arr[0] and not arrays and (A, B) != (ka[0], kb[-1]):
                    continue
                for alt in (0, 1):
                    fra, frb = mka(), mkb()
                    if alt:
                        frb = reassigned(frb, keyb)
                    a, b = make(A, fra, 0.2, 0.4, 10.0, arr[0]), make(B, frb, 0.5, 0.45, -20.0, arr[1])
                    rec.cover(states=1, transitions=3 + 3 * alt, traces=1)
                    try:
                        res = fun(a, b)
                        raised = None
                    except Exception as e:
                        raised, res = e, None
                    rec.sample(op=name, frames=(fa, fb), operands=(A, B), refused=raised is not None)
                    if want:
                        rec.ok(raised is not None, 'positions of different frames are refused', frames=(fa, fb), kinds=(A, B), got=repr(res)[:100], arrays=arr)
                        rec.outcome('refused' if raised else 'not refused')
                    else:
                        rec.ok(raised is None, 'positions of equal frames are accepted', frames=(fa, fb), kinds=(A, B), error=repr(raised)[:100], arrays=arr)
                        rec.outcome('accepted')
                        got = getattr(res, 'frame', None)
                        if got is not None:
                            if not isinstance(got, nv.FrameE):
                                got = got.nvector.frame
                            rec.ok(got.a == fra.a and got.f == fra.f and np.array_equal(got.R_Ee, fra.R_Ee), 'the result carries the frame of its operands', frames=(fa, fb))


SPECIAL = [((0.2, 0.4, 10.0), (0.2, 0.4, 10.0)), ((0.0, 0.0, 0.0), (0.0, 0.0, 0.0)), ((np.pi / 2, 0.0, 0.0), (-np.pi / 2, 0.0, 0.0)), ((0.0, 0.0, 0.0), (0.0, np.pi, 0.0)),
           ((0.35, 0.52, 3.0), (0.35, 0.52, 3.0)), ((0.2, 0.4, 0.0), (0.2, 0.4, 5.0)), ((np.nan, np.nan, np.nan), (0.2, 0.4, 0.0)), ((0.2, 0.4, 0.0), (0.3, np.nan, 0.0)), 'zero left', 'zero right']


def special(rec, name):
    """coincident, opposite, polar and undefined positions and vectors of no length are refused and accepted like any others"""
    fun, ka, kb = OPS[name]
    for (fa, keya, mka), (fb, keyb, mkb) in itertools.product(FRAMES, FRAMES):
        for v, (A, B) in itertools.product(SPECIAL, itertools.product(ka, kb)):
            fra, frb = mka(), mkb()
            if isinstance(v, str):
                if dict(left=A, right=B)[v[5:]] != 'ecef':
                    continue
                p, q = make(A, fra, 0.2, 0.4, 10.0, False), make(B, frb, 0.5, 0.45, -20.0, False)
                zero = (fra if v == 'zero left' else frb).ECEFvector(np.zeros((3, 1)))
                p, q = (zero, q) if v == 'zero left' else (p, zero)
            else:
                p, q = make(A, fra, *v[0], False), make(B, frb, *v[1], False)
            rec.cover(states=1, transitions=1, traces=1)
            try:
                fun(p, q)
                raised = None
            except Exception as e:
                raised = e
            rec.ok((raised is not None) == (keya != keyb), 'refused exactly when the frames differ, whatever the positions', op=name, frames=(fa, fb), kinds=(A, B), positions=str(v), error=repr(raised)[:100])
    rec.sample(op=name, positions=str(SPECIAL[3]))


RESULTS = {
    'to_nvector': lambda p: p.to_nvector(), 'to_geo_point': lambda p: p.to_geo_point(), 'to_ecef_vector': lambda p: p.to_ecef_vector(),
    'there and back': lambda p: p.to_nvector().to_ecef_vector().to_geo_point().to_ecef_vector().to_nvector(),
    'displace': lambda p: p.to_geo_point().displace(1e4, 1.0)[0],
    'displace great circle': lambda p: p.to_geo_point().displace(1e4, 1.0, method='greatcircle')[0],
    'mean': lambda p: p.to_nvector().mean(), 'negation': lambda p: -p.to_nvector(), 'multiple': lambda p: 2 * p.to_nvector(),
    'multiple right': lambda p: p.to_nvector() * 2, 'quotient': lambda p: p.to_nvector() / 2, 'negated vector': lambda p: -p.to_ecef_vector(),
    'FrameN': lambda p: nv.FrameN(p).nvector, 'FrameL': lambda p: nv.FrameL(p, 0.2).nvector, 'FrameB': lambda p: nv.FrameB(p, 0.2).nvector,
    'local and back': lambda p: p.to_ecef_vector().change_frame(nv.FrameN(p)).to_ecef_vector(),
    'local and back to n-vector': lambda p: p.to_ecef_vector().change_frame(nv.FrameB(p, 1, 2, 3)).to_nvector(),
    'local and back to point': lambda p: p.to_ecef_vector().change_frame(nv.FrameL(p, 1)).to_geo_point(),
    'Pvector': lambda p: nv.FrameN(p).Pvector(np.ones((3, 1))).to_ecef_vector(),
    'track': lambda p: p.frame.Nvector(np.tile(p.to_nvector().normal[:, :1], 4), 0).interpolate([0.5], np.arange(4.0)),
    'GeoPoint': lambda p: p.frame.GeoPoint(0.1, 0.2), 'Nvector': lambda p: p.frame.Nvector(np.ones((3, 1))), 'ECEFvector': lambda p: p.frame.ECEFvector(np.ones((3, 1))),
}


def results(rec):
    for (name, key, mkf), kind, arr in itertools.product(FRAMES, KINDS, (False, True)):
        for op, fun in RESULTS.items():
            fr = mkf()
            want = (fr.a, fr.f, fr.R_Ee.copy())
            p = make(kind, fr, 0.2, -2.0, 30.0, arr)
            got = fun(p).frame
            rec.ok(isinstance(got, nv.FrameE) and got.a == want[0] and got.f == want[1] and np.array_equal(got.R_Ee, want[2]),
                   'the result carries the frame of its operand', op=op, frame=name, kind=kind)
            rec.cover(states=1, transitions=2, traces=1)
    # the default is WGS84 with the documented axes
    for p in (nv.GeoPoint(0.1, 0.2), nv.Nvector(np.ones((3, 1))), nv.ECEFvector(np.ones((3, 1)))):
        rec.ok(p.frame == nv.FrameE() and p.frame.a == 6378137.0 and np.array_equal(p.frame.R_Ee, AXES['e']), 'the default frame is WGS84')
