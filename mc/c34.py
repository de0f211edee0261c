import itertools
from mc.common import *
from mc.ops import TRACK, TRACK_T

BOUNDS = """every public function, class and method x every combination of its options (each left out, given as its documented default, or given as one of several other values) x every way of
writing the call (each number of leading arguments by position, the rest by name in declared and in reverse order) x single and array arguments; every deprecated or alternative name.
Oracle: the call with every argument given by name and every option left out replaced by the default documented for it; all answers exactly of the same kind and shape."""

RE = np.array([[0, 0, 1.0], [0, 1.0, 0], [-1.0, 0, 0]])      # documented default: the 'e' axes
RI = np.eye(3)
A84, F84, RM = 6378137, 1.0 / 298.257223563, 6371009.0
LAT, LON = np.array([0.8, -0.3, 0.02, 1.2]), np.array([0.3, -2.0, 3.0, 0.9])
LAT2, LON2 = np.array([0.1, 0.6, -0.9, 0.4]), np.array([0.5, -1.0, 2.2, 2.0])
Z = np.array([10.0, -300.0, 5.0, 7.5])


def N(lat, lon):
    return ref.f64(ref.nvec(np.atleast_1d(lat), np.atleast_1d(lon)))


def values(single):
    """arguments of the functions"""
    pick = (lambda v: float(v[0])) if single else (lambda v: v.copy())
    cut = (lambda n: n[:, :1]) if single else (lambda n: n)
    n1, n2 = cut(N(LAT, LON)), cut(N(LAT2, LON2))
    n3, n4 = cut(N(LAT - 0.4, LON + 0.3)), cut(N(LAT2 + 0.2, LON2 - 0.7))
    on = ref.f64(ref.unit(ref.ld(n1) * 0.7 + ref.ld(n2) * 0.3))
    p = cut(ref.f64(ref.ecef(ref.nvec(LAT, LON), Z, A84, F84)))
    return dict(lat=pick(LAT), lon=pick(LON), lat2=pick(LAT2), lon2=pick(LON2), z=pick(Z), z2=pick(-2 * Z), n1=n1, n2=n2, n3=n3, n4=n4, on=on, near=ref.f64(ref.unit(on + 1e-3 * ref.cross(n1, n2))), p=p,
                dp=cut(np.array([[1e3, 2e3, -5e3, 7.0], [4e3, 0.0, 1e2, 1.0], [1.0, 2.0, 3.0, -8.0]])), az=pick(np.array([0.4, -1.2, 3.0, 2.0])), d=pick(np.array([0.3, 1.0, 2.0, 0.01])),
                s=pick(np.array([1e7, 2e5, 3e6, 1e3])), t=0.3 if single else np.array([0.3, 0.0, 0.5, 1.2]), tt=0.07 if single else np.array([0.33, 0.05, 0.71, 0.9]))


REQ = object()


def functions(single):
    """name -> (callable, [(parameter, REQ, value) or (parameter, documented default, [other values])])"""
    v = values(single)
    two = ('a', A84, [6371000.0]), ('f', F84, [0.0, 0.01])
    re = ('R_Ee', RE, [RI, AXES['R3']])
    def r(name, key):
        return (name, REQ, v[key] if isinstance(key, str) else key)
    path = (v['n1'], v['n2'])
    pathb = (v['n3'], v['n4'])
    smooth = [('kind', 'linear', ['cubic', 'nearest', 2]), ('window_length', 0, [3, 5]), ('polyorder', 2, [1]), ('mode', 'interp', ['nearest', 'constant']), ('cval', 0.0, [0.25])]
    track = N(TRACK[0], TRACK[1])
    R = np.stack([N(0.3, 1.0)[:, 0]] * 3) if False else ref.f64(ref.rot(2, np.array([0.4]))[:, :, 0] @ ref.rot(0, np.array([0.7]))[:, :, 0])
    out = {
        'lat_lon2n_E': (nv.lat_lon2n_E, [r('latitude', 'lat'), r('longitude', 'lon'), re]),
        'n_E2lat_lon': (nv.n_E2lat_lon, [r('n_E', 'n1'), re]),
        'n_EB_E2p_EB_E': (nv.n_EB_E2p_EB_E, [r('n_EB_E', 'n1'), ('depth', 0, [v['z'], 100]), *two, re]),
        'p_EB_E2n_EB_E': (nv.p_EB_E2n_EB_E, [r('p_EB_E', 'p'), *two, re]),
        'n_EA_E_and_n_EB_E2p_AB_E': (nv.n_EA_E_and_n_EB_E2p_AB_E, [r('n_EA_E', 'n1'), r('n_EB_E', 'n2'), ('z_EA', 0, [v['z']]), ('z_EB', 0, [v['z2']]), *two, re]),
        'n_EA_E_and_p_AB_E2n_EB_E': (nv.n_EA_E_and_p_AB_E2n_EB_E, [r('n_EA_E', 'n1'), r('p_AB_E', 'dp'), ('z_EA', 0, [v['z']]), *two, re]),
        'n_EA_E_and_n_EB_E2azimuth': (nv.n_EA_E_and_n_EB_E2azimuth, [r('n_EA_E', 'n1'), r('n_EB_E', 'n2'), *two, re]),
        'n_EA_E_distance_and_azimuth2n_EB_E': (nv.n_EA_E_distance_and_azimuth2n_EB_E, [r('n_EA_E', 'n1'), r('distance_rad', 'd'), r('azimuth', 'az'), re]),
        'great_circle_distance': (nv.great_circle_distance, [r('n_EA_E', 'n1'), r('n_EB_E', 'n2'), ('radius', RM, [1.0, 7e6])]),
        'euclidean_distance': (nv.euclidean_distance, [r('n_EA_E', 'n1'), r('n_EB_E', 'n2'), ('radius', RM, [1.0, 7e6])]),
        'great_circle_normal': (nv.great_circle_normal, [r('n_EA_E', 'n1'), r('n_EB_E', 'n2')]),
        'cross_track_distance': (nv.cross_track_distance, [r('path', path), r('n_EB_E', 'n3'), ('method', 'greatcircle', ['euclidean']), ('radius', RM, [1.0, 7e6])]),
        'on_great_circle': (nv.on_great_circle, [r('path', path), r('n_EB_E', 'near'), ('radius', RM, [1.0]), ('atol', 1e-8, [1e4, 1.0])]),
        'on_great_circle (on)': (nv.on_great_circle, [r('path', path), r('n_EB_E', 'on'), ('radius', RM, [1e16]), ('atol', 1e-8, [1e-2])]),
        'on_great_circle_path': (nv.on_great_circle_path, [r('path', path), r('n_EB_E', 'near'), ('radius', RM, [1.0]), ('atol', 1e-8, [1e4, 1.0])]),
        'on_great_circle_path (on)': (nv.on_great_circle_path, [r('path', path), r('n_EB_E', 'on'), ('radius', RM, []), ('atol', 1e-8, [1e-2])]),
        'closest_point_on_great_circle': (nv.closest_point_on_great_circle, [r('path', path), r('n_EB_E', 'n3')]),
        'intersect': (nv.intersect, [r('path_a', path), r('path_b', pathb)]),
        'interpolate': (nv.interpolate, [r('path', path), r('ti', 't')]),
        'interp_nvectors': (nv.interp_nvectors, [r('t_i', 'tt'), r('t', TRACK_T), r('nvectors', track)] + smooth),
        'mean_horizontal_position': (nv.mean_horizontal_position, [r('n_EB_E', 'n1')]),
        'E_rotation': (nv.E_rotation, [('axes', 'e', ['E'])]),
        'n_E2R_EN': (nv.n_E2R_EN, [r('n_E', 'n1'), re]),
        'n_E_and_wa2R_EL': (nv.n_E_and_wa2R_EL, [r('n_E', 'n1'), r('wander_azimuth', 'az'), re]),
        'xyz2R': (nv.xyz2R, [r('x', 'az'), r('y', 'lat'), r('z', 'd')]),
        'zyx2R': (nv.zyx2R, [r('z', 'az'), r('y', 'lat'), r('x', 'd')]),
        'R2xyz': (nv.R2xyz, [r('R_AB', R)]), 'R2zyx': (nv.R2zyx, [r('R_AB', R)]),
        'R_EN2n_E': (nv.R_EN2n_E, [r('R_EN', R)]), 'R_EL2n_E': (nv.R_EL2n_E, [r('R_EL', R)]),
        'unit': (nv.unit, [r('vector', np.array([[3.0, 0, 1e-3], [4.0, 0, 2e-3], [0.0, 0, 5e-3]])), ('norm_zero_vector', 1, [np.nan, 0])]),
        'mdot': (nv.mdot, [r('a', R), r('b', R[:, :, None] * np.array([1.0, 2.0]))]),
        'nthroot': (nv.nthroot, [r('x', 's'), r('n', 3)]),
        'get_ellipsoid': (nv.get_ellipsoid, [r('name', 'WGS72')]) if False else (nv.get_ellipsoid, [('name', REQ, 'WGS72')]),
        'isclose': (util.isclose, [r('a', np.array([1.0, 2.0, np.nan, 0.0, 3.0])), r('b', np.array([1 + 1e-8, 2 + 1e-11, np.nan, 1e-5, 3.0 + 2e-9])), ('rtol', 1e-9, [1e-7]), ('atol', 0.0, [1e-4]), ('equal_nan', False, [True])]),
        'allclose': (util.allclose, [r('a', np.array([1.0, 2.0, 0.0])), r('b', np.array([1 + 2e-8, 2.0, 1e-15])), ('rtol', 1e-7, [1e-9]), ('atol', 1e-14, [0.0, 1e-3]), ('equal_nan', False, [True])]),
        'allclose (nan)': (util.allclose, [r('a', np.array([1.0, np.nan])), r('b', np.array([1.0, np.nan])), ('rtol', 1e-7, [1e-9]), ('atol', 1e-14, [0.0]), ('equal_nan', False, [True])]),
    }
    return out


def objects_(single):
    v = values(single)
    def r(name, val):
        return (name, REQ, val)
    fr, fe = nv.FrameE(a=A84, f=F84), nv.FrameE(name='WGS72', axes='E')
    A = lambda f=fr: nv.GeoPoint(v['lat'], v['lon'], v['z'], f)
    B = lambda f=fr: nv.GeoPoint(v['lat2'], v['lon2'], v['z'], f)
    C = lambda f=fr: nv.GeoPoint(v['lat'] - 0.4, v['lon'] + 0.3, v['z2'], f)
    frames = ('frame', fr, [fe])
    flags = [('long_unroll', False, [True]), ('degrees', False, [True])]
    methods = ('method', 'ellipsoid', ['greatcircle'])
    smooth = [('kind', 'linear', ['cubic', 2]), ('window_length', 0, [3]), ('polyorder', 2, [1]), ('mode', 'interp', ['nearest', 'constant']), ('cval', 0.0, [0.25])]
    track = nv.Nvector(N(TRACK[0], TRACK[1]), TRACK[2], fr)
    gp = nv.GeoPath
    on = gp(A(), B()).interpolate(0.4).to_geo_point()
    near = nv.GeoPoint(on.latitude + 1e-9, on.longitude, on.z + 1e-7, fr)
    ned, deg = nv.FrameN(A()), 180 / np.pi
    P = v['dp']
    out = {
        'GeoPoint': (nv.GeoPoint, [r('latitude', v['lat']), r('longitude', v['lon']), ('z', 0, [v['z']]), frames, ('degrees', False, [True])]),
        'Nvector': (nv.Nvector, [r('normal', v['n1']), ('z', 0, [v['z']]), frames]),
        'ECEFvector': (nv.ECEFvector, [r('pvector', v['p']), frames, ('scalar', None, [False] + [True] * single)]),
        'Pvector': (nv.Pvector, [r('pvector', P), r('frame', ned), ('scalar', None, [False] + [True] * single)]),
        'GeoPath': (nv.GeoPath, [r('point_a', A()), r('point_b', B())]),
        'FrameE': (nv.FrameE, [('a', None, [6371000.0]), ('f', None, [0.0, 0.01]), ('name', 'WGS84', ['WGS72', 'Clarke 1880']), ('axes', 'e', ['E'])]),
        'FrameN': (nv.FrameN, [r('point', A())]),
        'FrameL': (nv.FrameL, [r('point', A()), ('wander_azimuth', 0, [0.7, v['az']])]),
        'FrameB': (nv.FrameB, [r('point', A()), ('yaw', 0, [0.3]), ('pitch', 0, [-0.5]), ('roll', 0, [2.0, v['az']]), ('degrees', False, [True])]),
        'delta_E': (nv.delta_E, [r('point_a', A()), r('point_b', B())]), 'delta_N': (nv.delta_N, [r('point_a', A()), r('point_b', B())]),
        'delta_L': (nv.delta_L, [r('point_a', A()), r('point_b', B()), ('wander_azimuth', 0, [0.7])]),
        'delta_to': (A().delta_to, [r('other', B())]),
        'change_frame': (A().to_ecef_vector().change_frame, [r('frame', nv.FrameN(B()))]),
        'local Pvector': (ned.Pvector, [r('pvector', P)]),
        'displace': (A().displace, [r('distance', v['s'] * 7), r('azimuth', v['az'])] + flags + [methods]),
        'distance_and_azimuth': (A().distance_and_azimuth, [r('point', B())] + flags + [methods]),
        'Nvector.interpolate': (track.interpolate, [r('t_i', np.array([0.33, 0.05, 0.71])), r('t', TRACK_T)] + smooth),
        'FrameE.inverse': (fe.inverse, [r('lat_a', v['lat']), r('lon_a', v['lon']), r('lat_b', v['lat2']), r('lon_b', v['lon2']), ('z', 0, [1000.0])] + flags),
        'FrameE.direct': (fe.direct, [r('lat_a', v['lat']), r('lon_a', v['lon']), r('azimuth', v['az']), r('distance', v['s'] * 7), ('z', 0, [1000.0])] + flags),
        'path.cross_track_distance': (gp(A(), B()).cross_track_distance, [r('point', C()), ('method', 'greatcircle', ['euclidean']), ('radius', None, [7e6, 1.0])]),
        'path.track_distance': (gp(A(), B()).track_distance, [('method', 'greatcircle', ['euclidean', 'ellipsoidal', 'exact']), ('radius', None, [7e6, 1.0])]),
        'path.on_great_circle': (gp(A(), B()).on_great_circle, [r('point', near), ('atol', 1e-8, [1.0, 1e-12])]),
        'path.on_path': (gp(A(), B()).on_path, [r('point', near), ('method', 'greatcircle', ['ellipsoid', 'exact']), ('rtol', 1e-6, [1e-3]), ('atol', 1e-8, [1.0, 1e-5])]),
        'path.on_path (on)': (gp(A(), B()).on_path, [r('point', on), ('method', 'greatcircle', ['ellipsoid']), ('rtol', 1e-6, [1e-3]), ('atol', 1e-8, [1.0])]),
        'path.intersect': (gp(A(), B()).intersect, [r('path', gp(C(), on))]),
        'path.closest_point_on_great_circle': (gp(A(), B()).closest_point_on_great_circle, [r('point', C())]),
        'path.interpolate': (gp(A(), B()).interpolate, [r('ti', v['t'])]),
    }
    if single:
        out['path.closest_point_on_path'] = (gp(A(), B()).closest_point_on_path, [r('point', C())])
    return out


def tables(single, group):
    return functions(single) if group == 'f' else objects_(single)


def tasks(tier):
    out = []
    for single in (True, False):
        for group in 'fo':
            for name in tables(single, group):
                out.append(('forms', dict(group=group, name=name, single=single, full=tier != 'quick')))
    out.append(('names', {}))
    out.append(('frames', {}))
    out.append(('tolerances', {}))
    return out


def show(x):
    """answer as nested plain values"""
    if isinstance(x, tuple) and not hasattr(x, '_fields'):
        return tuple(show(v) for v in x)
    if hasattr(x, '_fields'):
        return (type(x).__name__,) + tuple(show(v) for v in x)
    if isinstance(x, (nv.GeoPoint, nv.Nvector, nv.ECEFvector, nv.Pvector, nv.FrameE, nv.FrameN, nv.FrameB, nv.GeoPath)):
        d = {k: show(w) for k, w in vars(x).items() if not k.startswith('_')}
        for k in ('R_EN', 'scalar', 'length'):
            if hasattr(type(x), k):
                d[k] = show(getattr(x, k))
        return (type(x).__name__, tuple(sorted(d.items(), key=lambda i: i[0])))
    return x


def alike(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(alike(u, w) for u, w in zip(a, b))
    if isinstance(a, (str, bool)) or a is None or isinstance(b, (str, bool)) or b is None:
        return type(a) is type(b) and a == b
    u, w = np.asarray(a), np.asarray(b)
    if u.shape != w.shape or u.dtype.kind == 'O' or w.dtype.kind == 'O':
        return u.shape == w.shape and repr(a) == repr(b)
    if u.dtype.kind == 'b' or w.dtype.kind == 'b':
        return u.dtype.kind == w.dtype.kind and bool(np.all(u == w))
    with np.errstate(all='ignore'):
        same = (u == w) | (np.isnan(u) & np.isnan(w)) | (np.abs(u - w) <= 1e-13 * np.maximum(1, np.abs(w)))
    return bool(np.all(same))


def attempt(fun, *args, **kw):
    try:
        return show(fun(*args, **kw))
    except Exception as e:   # a refused combination has to be refused in every form
        return ('raised', type(e).__name__)


# the scale of the Earth does not change directions; unrolling acts on longitudes; the same question asked with other arguments
NO_EFFECT = {('n_EA_E_and_n_EB_E2azimuth', 'a'), ('distance_and_azimuth', 'long_unroll'), ('FrameE.inverse', 'long_unroll'), ('allclose', 'equal_nan')}


def irrelevant(name, p, o, single):
    """options that by their meaning do nothing next to the others"""
    if name.startswith(('on_great', 'path.on_', 'isclose', 'allclose')) or (name, p) in NO_EFFECT:
        return True        # truth values need not change with every tolerance
    if p == 'R_Ee' and 'f' in o and o['f'] == 0:
        return True        # a sphere looks the same from everywhere
    if 'window_length' in o:
        smooth = o['window_length'] - 1 > o['polyorder']
        return {'polyorder': o['window_length'] == 0, 'mode': not smooth or (o['kind'] == 'nearest' and single), 'cval': not smooth or o['mode'] != 'constant' or o['kind'] == 'nearest',
                'window_length': o['polyorder'] == 2 and name.startswith('Nv')}.get(p, False)
    return (name == 'FrameB' and p == 'degrees' and all(np.all(np.asarray(o[q]) == 0) for q in ('yaw', 'pitch', 'roll'))) or (p == 'long_unroll' and o['method'] == 'greatcircle') or \
        (p == 'radius' and o['method'][0] == 'e' and o['method'] != 'euclidean') or (p == 'scalar' and not single)


def refused(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0] == 'raised'


def forms(rec, group, name, single, full):
    rec.context = dict(operation=name, single=single)
    fun, params = tables(single, group)[name]
    names = [p for p, _, _ in params]
    choices = []
    for p, default, other in params:
        if default is REQ:
            choices.append([('given', other)])
        else:
            choices.append([('left out', default), ('default', default)] + [('other', o) for o in other])
    memo = {}
    base = attempt(fun, **{p: c[0][1] for p, c in zip(names, choices)})
    rec.holds(not (refused(base)), 'call with every default', answer=str(base))
    for combo in itertools.product(*[range(len(c)) for c in choices]):
        picked = [c[i] for c, i in zip(choices, combo)]
        key = tuple(i if k == 'other' or k == 'given' else -1 for (k, _), i in zip(picked, combo))
        if key not in memo:
            memo[key] = attempt(fun, **{p: v for p, (_, v) in zip(names, picked)})
        want = memo[key]
        lead = 0
        while True:
            rest = [(p, v) for p, (k, v) in list(zip(names, picked))[lead:] if k != 'left out']
            for order in ((rest, rest[::-1]) if len(rest) > 1 else (rest, )):
                got = attempt(fun, *[v for _, v in picked[:lead]], **dict(order))
                if not alike(got, want):
                    rec.fail('answer depends on how the arguments are written', positional=lead, options={p: (k, str(v)[:60]) for p, (k, v) in zip(names, picked) if k != 'given'},
                             answer=str(got)[:400], wanted=str(want)[:400])
                else:
                    rec.holds(True, 'answer depends on how the arguments are written')
                rec.cover(transitions=1, traces=1)
            if lead == len(names) or picked[lead][0] == 'left out':
                break
            lead += 1
        rec.cover(states=1)
    for j, (p, default, other) in enumerate(params):
        if default is REQ or not other:
            continue
        acts = any(not alike(memo[k], memo[k[:j] + (-1,) + k[j + 1:]]) for k in memo if k[j] != -1)
        # in every combination of the others that is not listed as making it irrelevant
        for k in memo:
            if k[j] != -1 or refused(memo[k]):
                continue
            others = {p2: (c[max(i, 0)][1] if i != -1 else c[0][1]) for (p2, _, _), c, i in zip(params, choices, k)}
            turned = any(not alike(memo[k[:j] + (i,) + k[j + 1:]], memo[k]) for i in range(2, len(choices[j])))
            if not turned and not irrelevant(name, p, others, single):
                rec.fail('option without effect next to others', option=p, others={a: str(b)[:40] for a, b in others.items() if a != p})
        rec.holds(acts or name.endswith(')') or (p == 'scalar' and not single) or (name, p) in NO_EFFECT, 'option changes the answer for some values', option=p)
        rec.outcome('options that change the answer' if acts else 'options without effect on these answers')
    total = sum(1 for p, d, o in params if d is not REQ)
    rec.outcome('options', total)
    rec.outcome('combinations', len(memo))
    rec.outcome('refused combinations', sum(1 for v in memo.values() if refused(v)))
    rec.sample(operation=name, parameters=names)


def names(rec):
    """alternative names and shorthands are the operations they stand for"""
    import warnings
    fr = nv.FrameE(a=A84, f=F84)
    A, B = fr.GeoPoint(0.3, 0.4, 10.0), fr.GeoPoint(0.5, -0.2, 30.0)
    C, D = fr.GeoPoint(0.2, 0.1), fr.GeoPoint(0.6, 0.0)
    path, other = nv.GeoPath(A, B), nv.GeoPath(C, D)
    many = fr.GeoPoint(LAT, LON, Z).to_nvector()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        pairs = [('diff_positions', lambda: nv.diff_positions(A, B), lambda: nv.delta_E(A, B)), ('delta_to', lambda: A.delta_to(B), lambda: nv.delta_N(A, B)),
                 ('intersection', lambda: path.intersection(other), lambda: path.intersect(other)),
                 ('mean_horizontal_position', lambda: many.mean_horizontal_position(), lambda: many.mean()),
                 ('select_ellipsoid', lambda: nv.select_ellipsoid('Krassovsky'), lambda: nv.get_ellipsoid('Krassovsky')),
                 ('positionA', lambda: path.positionA, lambda: path.point_a), ('positionB', lambda: path.positionB, lambda: path.point_b),
                 ('scalar n-vector method', lambda: A.to_nvector().delta_to(B), lambda: nv.delta_N(A, B)),
                 ('ECEF method', lambda: A.to_ecef_vector().delta_to(B), lambda: nv.delta_N(A, B)),
                 ('quotient', lambda: many / 4, lambda: many * 0.25), ('reflected product', lambda: 3 * many, lambda: many * 3),
                 ('deg', lambda: nv.deg(0.3, 1.0), lambda: (nv.deg(0.3), nv.deg(1.0))), ('rad', lambda: nv.rad(0.3, 100.0), lambda: (nv.rad(0.3), nv.rad(100.0))),
                 ('degrees of azimuth', lambda: np.radians(nv.delta_N(A, B).azimuth_deg), lambda: nv.delta_N(A, B).azimuth),
                 ('degrees of elevation', lambda: np.radians(nv.delta_N(A, B).elevation_deg), lambda: nv.delta_N(A, B).elevation)]
        for name, one, two in pairs:
            rec.holds(alike(attempt(one), attempt(two)), 'another name for the same', name=name, answer=str(attempt(one))[:300], wanted=str(attempt(two))[:300])
            rec.cover(states=1, transitions=2, traces=1)
    rec.outcome('names', len(pairs))


def frames(rec):
    """objects made through a frame are those made with the frame as argument; without a frame it is WGS-84 with axes 'e'"""
    n, p = N(LAT, LON), ref.f64(ref.ecef(ref.nvec(LAT, LON), Z, A84, F84))
    for single in (True, False):
        la, lo, z = (0.8, 0.3, 10.0) if single else (LAT, LON, Z)
        nn, pp = (n[:, :1], p[:, :1]) if single else (n, p)
        for fr in (nv.FrameE(a=A84, f=F84), nv.FrameE(name='WGS72', axes='E'), nv.FrameE(a=1.0, f=0.0), nv.FrameE(f=0.0, axes='E')):
            makers = [('GeoPoint', nv.GeoPoint, fr.GeoPoint, [('latitude', la), ('longitude', lo), ('z', z), ('degrees', True)], 2, 'frame'),
                      ('Nvector', nv.Nvector, fr.Nvector, [('normal', nn), ('z', z)], 1, 'frame'), ('ECEFvector', nv.ECEFvector, fr.ECEFvector, [('pvector', pp), ('scalar', False)], 1, 'frame')]
            for name, plain, bound, args, need, key in makers:
                for keep in itertools.product((0, 1), repeat=len(args) - need):
                    kw = dict([a for a in args[:need]] + [a for a, k in zip(args[need:], keep) if k])
                    want = attempt(plain, frame=fr, **kw)
                    rec.holds(want[0] == name, 'object of the right kind', name=name)
                    for lead in range(need + 1):
                        got = attempt(bound, *[v for _, v in args[:lead]], **{k: v for k, v in kw.items() if k not in [a for a, _ in args[:lead]]})
                        rec.holds(alike(got, want), 'object made through its frame', name=name, single=single, options=sorted(kw), positional=lead, answer=str(got)[:300], wanted=str(want)[:300])
                        rec.cover(states=1, transitions=2, traces=1)
        for make in (lambda **k: nv.GeoPoint(la, lo, z, **k), lambda **k: nv.Nvector(nn, z, **k), lambda **k: nv.ECEFvector(pp, **k)):
            base = make()
            for k in (dict(frame=None), dict(frame=nv.FrameE(a=A84, f=F84, axes='e')), dict(frame=nv.FrameE())):
                o = make(**k)
                rec.holds(o == base and base == o and float(o.frame.a) == A84 and abs(o.frame.f - F84) < 1e-16 and np.array_equal(o.frame.R_Ee, RE), 'frame left out', options=str(k))
                rec.cover(states=1, transitions=1, traces=1)
    figures = {'WGS84': (6378137.0, 1 / 298.257223563), 'WGS72': (6378135.0, 1 / 298.26), 'Clarke 1880': (6378249.145, 1 / 293.465)}
    for name, axes, a, f in itertools.product([None] + list(figures), (None, 'e', 'E'), (None, 1.0, 6e6), (None, 0.0, 0.02)):
        opts = {k: v for k, v in (('name', name), ('axes', axes), ('a', a), ('f', f)) if v is not None}
        want = figures[name or 'WGS84']
        fr = nv.FrameE(**opts)
        rec.close(float(fr.a), want[0] if a is None else a, 1e-9 * want[0] * 1e-3, 'semi-axis of a frame', options=str(opts))
        rec.close(float(fr.f), want[1] if f is None else f, 1e-14, 'flattening of a frame', options=str(opts))
        rec.close(fr.R_Ee, RI if axes == 'E' else RE, 0, 'axes of a frame', options=str(opts))
        rec.cover(states=1, transitions=1, traces=1)
    rec.outcome('frames', 4)


def tolerances(rec):
    """tolerances left out, defaulted or given act for either method as documented"""
    fr = nv.FrameE(a=A84, f=F84)
    absent = object()
    for mean, (la, lo, lb, lob) in itertools.product((100.0, -4000.0, 0.0), ((0.1, 0.2, 0.4, 0.2), (0.0, -0.3, 0.0, 0.9))):
        # along a meridian or the equator the great circle and the geodesic agree
        path = nv.GeoPath(fr.GeoPoint(la, lo, mean), fr.GeoPoint(lb, lob, mean))
        mid = (0.5 * (la + lb) + 0.01, 0.5 * (lo + lob) if la != lb else 0.3)
        mid = mid if la != lb else (0.0, 0.3)
        for method, rtol, atol in itertools.product((absent, 'greatcircle', 'ellipsoid', 'exact'), (absent, 1e-6, 1e-9, 1e-2), (absent, 1e-8, 1e-3, 1.0, 50.0)):
            opts = {k: v for k, v in (('method', method), ('rtol', rtol), ('atol', atol)) if v is not absent}
            bound = max((1e-6 if rtol is absent else rtol) * abs(mean), 1e-8 if atol is absent else atol)
            for rel in (0.0, 0.5, 0.95, 1.06, 2.0, 30.0, -0.9, -1.1):
                dz = rel * bound
                if 0 < abs(dz) < 1e-9 * abs(mean) or (abs(rel) < 1) != (abs(dz) < max((1e-6 if rtol is absent else rtol) * max(abs(mean), abs(mean + dz)), 1e-8 if atol is absent else atol)):
                    continue
                point = fr.GeoPoint(mid[0], mid[1], mean + dz)
                got = path.on_path(point, **opts)
                rec.holds(bool(got) == (abs(rel) < 1), 'depth within the tolerance', options=str(opts), mean=mean, path=(la, lo, lb, lob), offset=dz)
                rec.cover(states=1, transitions=1, traces=1)
                rec.outcome('within' if abs(rel) < 1 else 'beyond')
        for atol in (absent, 1e-8, 1e-3, 1.0, 5e4):
            value = 1e-8 if atol is absent else atol
            opts = {} if atol is absent else dict(atol=atol)
            r = float(np.mean([p.length for p in path.ecef_vectors()]))
            n = [p.normal for p in path.nvectors()]
            for rel in (0.9, 1.1, -0.9, -1.1, 0.1, 40.0) if value > 1e-6 else (0.4, -0.5, 1.7, -2.0, 40.0, 0.0):
                q = ref.nvec(np.array([mid[0]]), np.array([mid[1]]))
                c = ref.unit(ref.cross(ref.ld(n[0]), ref.ld(n[1])))
                off = rel * value / r
                near = ref.f64(q * np.cos(ref.ld(off)) + c * np.sin(ref.ld(off)))
                for what, got in (('method', path.on_great_circle(fr.Nvector(near, mean), **opts)), ('function', nv.on_great_circle(tuple(n), near, radius=r, **opts)[0]),
                                  ('path function', nv.on_great_circle_path(tuple(n), near, radius=r, **opts)[0]), ('path method', path.on_path(fr.Nvector(near, mean), rtol=1e-9, **opts))):
                    rec.holds(bool(got) == (abs(rel) < 1), 'distance across within the tolerance', what=what, options=str(opts), path=(la, lo, lb, lob), offset=rel * value)
                    rec.cover(states=1, transitions=1, traces=1)
