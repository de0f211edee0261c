import contextlib
import copy
import importlib
import itertools
import os
import pickle
from mc.ops import *

BOUNDS = """object pool (two frames, points, n-vectors, Cartesian vectors, single and array, local frames, local vectors, paths, shared argument arrays):
every sequence of at most depth (quick 2, thorough 3) actions out of all operations and all reassignments of every public attribute, followed by every
operation. After each action all public attributes, argument arrays, module constants and numpy's error state are compared with the model state; each answer with
the answer on freshly built objects of the same public attribute values. Catalogue: every ordered pair (thorough: triple) of catalogue operations with other
arguments, frames, axes and sizes before, and with buffers reused in place, against the answer in a fresh process."""

TASKS_PER_CHILD = 1


# ------------------------------------------------------------------------------------------------ pool
def pool():
    W = nv.FrameE(name='WGS84')
    S = nv.FrameE(a=6378137.0, f=0.01, name='WGS84', axes='E')
    d = {'W': W, 'S': S}
    d['p'] = W.GeoPoint(0.3, 0.4, 10.0)
    d['q'] = W.GeoPoint(-0.2, 1.5, -20.0)
    d['P'] = W.GeoPoint([0.1, 0.9], [0.5, -2.5], [1.0, 2.0])
    d['s'] = S.GeoPoint(0.3, 0.4, 10.0)
    d['t'] = S.GeoPoint(0.35, 0.1, 0.0)
    d['n'] = W.Nvector(nE([0.25], [0.7]), 5.0)
    d['N'] = W.Nvector(nE([0.2, -0.6, 0.4], [1.0, 1.2, 1.4]), np.array([3.0, 4.0, 5.0]))
    d['m'] = S.Nvector(nE([0.25], [0.7], 'E'), 5.0)
    given = nE([0.5], [0.1]) * 1.04
    d['u'] = W.Nvector(given, 7.0)
    d['u2'] = W.Nvector(given, 8.0)
    d['FU'] = nv.FrameN(d['u'])
    d['BU'] = nv.FrameB(d['u2'], 0.3, 0.2, 0.1)
    d['e'] = W.ECEFvector(np.array([[4e6], [3e6], [4.1e6]]))
    d['E'] = W.ECEFvector(np.array([[4e6, -1e6], [3e6, 6e6], [4.1e6, 2e6]]))
    d['FN'] = nv.FrameN(d['p'])
    d['FL'] = nv.FrameL(d['n'], 0.6)
    d['FB'] = nv.FrameB(d['q'], 0.1, 0.2, 0.3)
    d['v'] = d['FN'].Pvector(np.array([[100.0], [200.0], [-300.0]]))
    d['w'] = d['FB'].Pvector(np.array([[100.0, 5.0], [200.0, -7e5], [-300.0, 20.0]]))
    d['g'] = nv.GeoPath(d['p'], d['q'])
    d['h'] = nv.GeoPath(d['n'], d['e'])
    d['G'] = nv.GeoPath(d['P'], d['q'])
    d['arr'] = {'given': given, 'n1': nE([0.3], [0.4]), 'n3': nE([0.1, 0.2, 0.3], [1.0, -1.0, 3.0]), 'z3': np.array([1.0, 2.0, 3.0]), 't': np.array([0.0, 0.4, 1.0]),
                'ti': np.array([0.9, 0.1, 0.5]), 'p3': np.array([[4e6, 1e5, -2e6], [3e6, 5e6, 3e6], [4.1e6, -4e6, 5e6]]), 'R': np.eye(3) * 1.0,
                'lat': np.array([10.0, 20.0]), 'lon': np.array([30.0, -40.0]), 'az': np.array([0.1, 2.0, -1.0]), 'lst': [1.0, 2.0, 3.0]}
    return d


PUBLIC = {'FrameE': ('a', 'f', 'name', 'R_Ee'), 'GeoPoint': ('latitude', 'longitude', 'z', 'frame'), 'Nvector': ('normal', 'z', 'frame'),
          'ECEFvector': ('pvector', 'frame', 'scalar'), 'Pvector': ('pvector', 'frame', 'scalar'), 'FrameN': ('nvector',), 'FrameL': ('nvector', 'wander_azimuth'),
          'FrameB': ('nvector', 'yaw', 'pitch', 'roll'), 'GeoPath': ('point_a', 'point_b')}


def val(x):
    """hashable copy of a public value"""
    if type(x).__name__ in PUBLIC:
        return (type(x).__name__,) + tuple(val(getattr(x, a)) for a in PUBLIC[type(x).__name__])
    if isinstance(x, dict):
        return tuple((k, val(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(val(v) for v in x)
    if isinstance(x, np.ndarray):
        return ('array', x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (float, int, str, bool, np.generic)) or x is None:
        return repr(x)
    raise TypeError(type(x))


def constants():
    return (tuple(sorted((k, val(v)) for k, v in getattr(rotation, 'E_ROTATION_MATRIX', {}).items())), tuple(sorted((k, tuple(v)) for k, v in getattr(util, 'ELLIPSOID', {}).items())),
            tuple(sorted(getattr(util, 'ELLIPSOID_IX', {}).items(), key=repr)), tuple(sorted(np.geterr().items())), repr(np.get_printoptions()))


def snap(d):
    return tuple((k, val(v)) for k, v in d.items()) + (constants(),)


def clone(d):
    """fresh objects with the current public attribute values; sharing between objects is kept"""
    memo = {}

    def c(x):
        if id(x) in memo:
            return memo[id(x)][1]
        t = type(x).__name__
        if t == 'FrameE':
            y = nv.FrameE(a=x.a, f=x.f, name=x.name, axes='E' if np.array_equal(x.R_Ee, np.eye(3)) else 'e')
        elif t == 'GeoPoint':
            y = nv.GeoPoint(np.array(x.latitude), np.array(x.longitude), np.array(x.z), c(x.frame))
        elif t == 'Nvector':
            y = nv.Nvector(np.array(x.normal), copy.deepcopy(x.z), c(x.frame))
        elif t == 'ECEFvector':
            y = nv.ECEFvector(np.array(x.pvector), c(x.frame), x.scalar)
        elif t == 'Pvector':
            y = nv.Pvector(np.array(x.pvector), c(x.frame), x.scalar)
        elif t in ('FrameN', 'FrameL'):
            y = nv.FrameN(c(x.nvector)) if t == 'FrameN' else nv.FrameL(c(x.nvector), x.wander_azimuth)
            if np.any(np.asarray(x.nvector.z) != 0):
                y.nvector = c(x.nvector)
        elif t == 'FrameB':
            y = nv.FrameB(c(x.nvector), x.yaw, x.pitch, x.roll)
        elif t == 'GeoPath':
            y = nv.GeoPath(c(x.point_a), c(x.point_b))
        elif isinstance(x, dict):
            y = {k: c(v) for k, v in x.items()}
        else:
            y = copy.deepcopy(x)
        memo[id(x)] = (x, y)
        return y
    return {k: c(v) for k, v in d.items()}


def flat(x):
    """numbers in an answer"""
    t = type(x).__name__
    if t in PUBLIC:
        return [t] + [w for a in PUBLIC[t] for w in flat(getattr(x, a))]
    if isinstance(x, Exception):
        return [type(x).__name__]
    if isinstance(x, (tuple, list)):
        return [t, len(x)] + [w for v in x for w in flat(v)]
    if isinstance(x, str) or x is None:
        return [x]
    x = np.asarray(x)
    return [x.shape, x.astype(float).ravel()]


def differ(a, b):
    if len(a) != len(b):
        return True
    for x, y in zip(a, b):
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            if x.shape != y.shape:
                return True
            if not np.all((np.abs(x - y) <= 1e-9 * np.maximum(1.0, np.abs(y))) | (np.isnan(x) & np.isnan(y)) | (x == y)):
                return True
        elif isinstance(x, np.ndarray) or isinstance(y, np.ndarray) or x != y:
            return True
    return False


def run(fn, d):
    try:
        return fn(d)
    except (ValueError, AttributeError, TypeError, IndexError, NotImplementedError) as e:
        return e


def tries(*fns):
    """what each does: fail, or answer"""
    out = []
    for f in fns:
        try:
            out.append(f())
        except Exception as e:
            out.append(type(e).__name__)
    return tuple(out)


OPS_ = {
    'refused': lambda d: tries(lambda: nv.get_ellipsoid('nowhere'), lambda: nv.FrameE(name='nowhere'), lambda: nv.FrameE(axes='x'), lambda: nv.delta_N(d['p'], d['s']), lambda: d['n'] + d['m'].to_geo_point(),
                               lambda: d['n'] * d['n'], lambda: nv.GeoPath(d['p'], d['s']).intersect(d['g']), lambda: d['g'].cross_track_distance(d['s']),
                               lambda: d['p'].distance_and_azimuth(d['s']), lambda: d['e'].change_frame(nv.FrameN(d['s'])), lambda: d['N'].interpolate(d['arr']['ti'], d['arr']['t'], kind='none'),
                               lambda: nv.interp_nvectors(d['arr']['ti'], d['arr']['t'], d['arr']['n3'], window_length=99), lambda: nv.lat_lon2n_E(d['arr']['lat'], np.zeros(7)),
                               lambda: nv.zyx2R(np.zeros(2), np.zeros(3), 0.0), lambda: nv.n_EB_E2p_EB_E(d['arr']['n3'], np.zeros(5)), lambda: nv.GeoPoint(np.zeros(2), np.zeros(3)),
                               lambda: util.isclose(np.zeros(2), np.zeros(3)), lambda: nv.mdot(np.zeros((3, 3, 2)), np.zeros((3, 3, 3))), lambda: d['W'].inverse(np.zeros(2), 0, np.zeros(3), 0),
                               lambda: nv.FrameN(d['g']), lambda: nv.unit('x'), lambda: nv.n_E2lat_lon(d['arr']['lat']), lambda: nv.E_rotation('z')),
    'p.to_nvector': lambda d: d['p'].to_nvector(), 'p.to_ecef': lambda d: d['p'].to_ecef_vector(), 's.to_ecef': lambda d: d['s'].to_ecef_vector(),
    's.to_nvector': lambda d: d['s'].to_nvector(), 'P.to_ecef': lambda d: d['P'].to_ecef_vector(), 'P.degrees': lambda d: (d['P'].latlon_deg, d['p'].latlon, d['q'].latitude_deg),
    'n.to_geo': lambda d: d['n'].to_geo_point(), 'n.to_ecef': lambda d: d['n'].to_ecef_vector(), 'm.to_geo': lambda d: d['m'].to_geo_point(),
    'm.to_ecef': lambda d: d['m'].to_ecef_vector(), 'N.to_geo': lambda d: d['N'].to_geo_point(), 'N.mean': lambda d: d['N'].mean(),
    'R_EN U': lambda d: (d['FU'].R_EN, d['BU'].R_EN, d['u2'].to_ecef_vector()), 'u.to_ecef': lambda d: (d['u'].to_ecef_vector(), d['u'].to_geo_point()),
    'N.interpolate': lambda d: d['N'].interpolate(d['arr']['ti'], d['arr']['t']),
    'e.to_nvector': lambda d: d['e'].to_nvector(), 'e.to_geo': lambda d: d['e'].to_geo_point(), 'E.to_nvector': lambda d: d['E'].to_nvector(),
    'e.polar': lambda d: (d['e'].length, d['e'].azimuth, d['e'].elevation_deg, d['E'].length, d['v'].azimuth_deg, d['v'].elevation, d['w'].length),
    'e.change_frame': lambda d: (d['e'].change_frame(d['FN']), d['e'].change_frame(d['FL']), d['E'].change_frame(d['FB'])),
    'v.to_ecef': lambda d: (d['v'].to_ecef_vector(), d['w'].to_ecef_vector()), 'v.to_geo': lambda d: d['v'].to_geo_point(),
    'R_EN': lambda d: (d['FN'].R_EN, d['FL'].R_EN, d['FB'].R_EN),
    'delta_E': lambda d: nv.delta_E(d['p'], d['n']), 'delta_N': lambda d: nv.delta_N(d['n'], d['P']), 'delta_L': lambda d: nv.delta_L(d['e'], d['p'], 0.4),
    'delta_E S': lambda d: nv.delta_E(d['s'], d['t']), 'delta mixed': lambda d: nv.delta_E(d['p'], d['s']), 'delta_to': lambda d: d['q'].delta_to(d['p']),
    'arithmetic': lambda d: (d['n'] + d['N'], d['N'] - d['n'], 2 * d['n'], d['e'] + d['E'], d['e'] - d['e'], -d['E'], -d['n'], d['N'] / 3),
    'displace': lambda d: d['p'].displace(1e5, 0.3), 'displace S': lambda d: d['s'].displace(1e5, 0.3, degrees=True),
    'displace gc': lambda d: d['p'].displace(1e5, 0.3, method='greatcircle'), 'displace gc S': lambda d: d['s'].displace(1e5, 0.3, method='greatcircle'),
    'inverse': lambda d: d['p'].distance_and_azimuth(d['q']), 'inverse S': lambda d: d['s'].distance_and_azimuth(d['t'], degrees=True),
    'inverse gc': lambda d: d['p'].distance_and_azimuth(d['q'], method='greatcircle'),
    'W.inverse': lambda d: d['W'].inverse(d['arr']['lat'], d['arr']['lon'], 5.0, 6.0, degrees=True),
    'W.direct': lambda d: d['W'].direct(d['arr']['lat'], d['arr']['lon'], 45.0, 1e6, z=100.0, degrees=True),
    'g.distances': lambda d: (d['g'].track_distance(), d['g'].track_distance(method='euclidean'), d['g'].track_distance(method='ellipsoidal'), d['h'].track_distance(radius=1.0)),
    'g.cross': lambda d: (d['g'].cross_track_distance(d['n']), d['g'].on_great_circle(d['p']), d['G'].cross_track_distance(d['n'])),
    'g.on_path': lambda d: (d['g'].on_path(d['p']), d['g'].on_path(d['q'], method='ellipsoid'), d['g'].on_path(d['n'])),
    'g.closest': lambda d: (d['g'].closest_point_on_great_circle(d['n']), d['g'].closest_point_on_path(d['n']), d['G'].closest_point_on_great_circle(d['e'])),
    'g.intersect': lambda d: d['g'].intersect(d['h']), 'g.interpolate': lambda d: (d['g'].interpolate(0.3), d['h'].interpolate(1.4)),
    'g.ends': lambda d: (d['g'].nvectors(), d['G'].geo_points(), d['h'].ecef_vectors(), d['g'].nvector_normals()),
    'equality': lambda d: (d['p'] == d['q'], d['p'] == d['n'].to_geo_point(), d['W'] == d['S'], d['FN'] == nv.FrameN(d['p']), d['FL'] == d['FN'], d['m'] == d['n'], d['e'] == d['E']),
    'repr': lambda d: (repr(d['p']) and None, repr(d['g']) and None, repr(d['FB']) and None, repr(d['N']) and None),
    'frames': lambda d: (nv.FrameN(d['n']), nv.FrameL(d['p'], 0.1), nv.FrameB(d['e'], 0.1, 0.2, 0.3), nv.FrameB(d['p'], 1, 2, 3, degrees=True)),
    'new': lambda d: (nv.FrameE(), nv.FrameE(axes='E').GeoPoint(1, 2, 3, degrees=True), nv.GeoPoint(0.1, 0.2), nv.FrameE(name='WGS72').Nvector(d['arr']['n1']),
                      d['W'].ECEFvector(d['arr']['p3'])),
    'f.convert': lambda d: (nv.lat_lon2n_E(d['arr']['lat'], d['arr']['lon']), nv.n_E2lat_lon(d['arr']['n3']), nv.n_EB_E2p_EB_E(d['arr']['n3'], d['arr']['z3']),
                            nv.p_EB_E2n_EB_E(d['arr']['p3']), nv.unit(d['arr']['p3']), nv.n_EB_E2p_EB_E(d['arr']['n3'], d['arr']['lst'], a=1.0, f=0.1, R_Ee=d['arr']['R'])),
    'f.rot': lambda d: (nv.n_E2R_EN(d['arr']['n3']), nv.n_E_and_wa2R_EL(d['arr']['n3'], d['arr']['az']), nv.xyz2R(d['arr']['az'], d['arr']['z3'], d['arr']['t']),
                        nv.R2zyx(nv.zyx2R(d['arr']['az'], 0.1, 0.2)), nv.R_EN2n_E(d['arr']['R']), nv.E_rotation('E'), nv.E_rotation()),
    'f.circle': lambda d: (nv.great_circle_distance(d['arr']['n1'], d['arr']['n3']), nv.n_EA_E_and_n_EB_E2azimuth(d['arr']['n1'], d['arr']['n3']),
                           nv.n_EA_E_distance_and_azimuth2n_EB_E(d['arr']['n3'], 0.2, d['arr']['az']), nv.mean_horizontal_position(d['arr']['n3']),
                           nv.intersect((d['arr']['n1'], d['arr']['n3'][:, :1]), (d['arr']['n3'][:, 1:2], d['arr']['n3'][:, 2:])), nv.interpolate((d['arr']['n1'], d['arr']['n3']), 0.2),
                           nv.interp_nvectors(d['arr']['ti'], d['arr']['t'], d['arr']['n3']), nv.closest_point_on_great_circle((d['arr']['n1'], d['arr']['n3'][:, 1:2]), d['arr']['n3']),
                           nv.cross_track_distance((d['arr']['n1'], d['arr']['n3'][:, 1:2]), d['arr']['n3']), nv.on_great_circle_path((d['arr']['n1'], d['arr']['n3'][:, 1:2]), d['arr']['n3'])),
    'f.util': lambda d: (nv.deg(d['arr']['az'], d['arr']['lst']), nv.rad(d['arr']['lat']), util.isclose(d['arr']['t'], d['arr']['ti']), util.nthroot(d['arr']['z3'], 3),
                         nv.get_ellipsoid('WGS84'), nv.get_ellipsoid(3), util.array_to_list_dict({'x': d['arr']['t']})['x']),
}


def _set(obj, attr, value):
    def f(d):
        setattr(d[obj], attr, value(d) if callable(value) else value)
        return (obj, attr)
    return f


def _write(obj, attr, idx, value):
    def f(d):
        arr = d['arr'][attr] if obj == 'arr' else getattr(d[obj], attr)
        arr[idx] = value
        return (obj, attr)
    return f


MUT = {
    'W.a': _set('W', 'a', 6300000.0), 'W.f': _set('W', 'f', 0.02), 'W.R_Ee': _set('W', 'R_Ee', lambda d: nv.E_rotation('E')), 'W.name': _set('W', 'name', 'mine'),
    'S.a': _set('S', 'a', 6378000.0), 'S.f': _set('S', 'f', 0.0), 'S.R_Ee': _set('S', 'R_Ee', lambda d: nv.E_rotation('e')),
    'p.latitude': _set('p', 'latitude', -0.5), 'p.longitude': _set('p', 'longitude', 2.0), 'p.z': _set('p', 'z', 500.0), 'p.frame': _set('p', 'frame', lambda d: d['S']),
    'q.frame': _set('q', 'frame', lambda d: d['S']), 'q.latitude': _set('q', 'latitude', 0.9),
    'P.latitude': _set('P', 'latitude', lambda d: np.array([0.3, -0.2])), 's.frame': _set('s', 'frame', lambda d: d['W']), 's.longitude': _set('s', 'longitude', -1.0),
    'n.normal': _set('n', 'normal', lambda d: nE([-0.4], [0.2])), 'n.z': _set('n', 'z', -77.0), 'n.frame': _set('n', 'frame', lambda d: d['S']),
    'N.normal': _set('N', 'normal', lambda d: nE([0.1, -0.1, 0.2], [2.0, 2.1, 2.2])), 'N.z': _set('N', 'z', lambda d: np.array([9.0, 8.0, 7.0])),
    'e.pvector': _set('e', 'pvector', lambda d: np.array([[1e6], [-5e6], [4e6]])), 'e.frame': _set('e', 'frame', lambda d: d['S']),
    'E.pvector': _set('E', 'pvector', lambda d: np.array([[1e6, 2e6], [-5e6, 5e6], [4e6, 1e6]])),
    'FN.nvector': _set('FN', 'nvector', lambda d: nv.Nvector(nE([0.9], [-0.4]), 0, d['W'])),
    'FL.nvector': _set('FL', 'nvector', lambda d: nv.Nvector(nE([0.9], [-0.4]), 0, d['W'])), 'FL.wander_azimuth': _set('FL', 'wander_azimuth', -1.1),
    'FB.nvector': _set('FB', 'nvector', lambda d: nv.Nvector(nE([0.9], [-0.4]), 3.0, d['W'])), 'FB.yaw': _set('FB', 'yaw', 1.0), 'FB.pitch': _set('FB', 'pitch', -0.7),
    'FB.roll': _set('FB', 'roll', 2.2), 'v.pvector': _set('v', 'pvector', lambda d: np.array([[-5.0], [6e5], [7.0]])), 'v.frame': _set('v', 'frame', lambda d: d['FL']),
    'g.point_a': _set('g', 'point_a', lambda d: d['n']), 'g.point_b': _set('g', 'point_b', lambda d: d['W'].GeoPoint(0.7, 0.7)), 'h.point_b': _set('h', 'point_b', lambda d: d['q']),
    'n.normal in place': _write('n', 'normal', slice(None), nE([-0.4], [0.2])), 'e.pvector in place': _write('e', 'pvector', (0, 0), 2e6),
    'W.R_Ee in place': _write('W', 'R_Ee', slice(None), AXES['E']), 'S.R_Ee in place': _write('S', 'R_Ee', slice(None), AXES['e']),
    'N.z in place': _write('N', 'z', 1, -50.0), 'FN.nvector.normal in place': lambda d: (d['FN'].nvector.normal.__setitem__(slice(None), nE([1.2], [3.0])), ('FN', 'nvector'))[1],
    'arr.n1': _write('arr', 'n1', slice(None), nE([-1.0], [2.0])), 'arr.n3': _write('arr', 'n3', (slice(None), 1), nE([-1.0], [2.0])[:, 0]),
    'arr.z3': _write('arr', 'z3', 0, 44.0), 'arr.lat': _write('arr', 'lat', 1, -44.0), 'arr.p3': _write('arr', 'p3', (1, 1), -4.4e6), 'arr.ti': _write('arr', 'ti', 0, 0.77),
    'arr.az': _write('arr', 'az', 2, 0.5), 'arr.R': _write('arr', 'R', slice(None), AXES['e']),
    'u.unit()': lambda d: (d['u'].unit(), ('u', 'normal'))[1], 'n.unit()': lambda d: (d['n'].unit(), ('n', 'normal'))[1], 'N.unit()': lambda d: (d['N'].unit(), ('N', 'normal'))[1],
}

# actions used at the earlier places of a sequence
ACTIONS = [('op', k) for k in OPS_] + [('mut', k) for k in MUT]


def act(rec, d, a, history):
    """one action on the pool; the effect on the public state is the one intended"""
    kind, name = a
    before = snap(d)
    if kind == 'op':
        res = run(OPS_[name], d)
        after = snap(d)
        if before != after:
            changed = [x[0] for x, y in zip(before, after) if x != y] if before[-1] == after[-1] else ['module constants']
            rec.fail('an operation alters nothing', op=name, history=history, changed=[str(c)[:60] for c in changed])
        return res
    obj, attr = MUT[name](d)
    if name.endswith('unit()'):
        # only the object itself, and what refers to that object, changes
        allowed = {'u': ('u',), 'n': ('n', 'h', 'g'), 'N': ('N',)}[obj]
        for x, y in zip(before, snap(d)):
            if x != y and not (isinstance(x[0], str) and x[0] in allowed):
                rec.fail('normalising alters its own object only', op=name, history=history, changed=str(x[0])[:60])
    return None


def tasks(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(ACTIONS)):
        out.append(('sequences', dict(first=i, depth=2 if q else 3)))
    names = list(OPS)
    for c in MONITORED:
        for fn, axes, kw in _slices(c, q):
            out.append(('monitored', dict(module=c, fn=fn, kw=kw)))
    for n in names:
        out.append(('catalogue', dict(name=n, triples=not q)))
    return out


_clean = {}


def probe(rec, d, history, memo):
    """every operation gives the answer of fresh equal objects, and alters nothing"""
    key = snap(d)
    want = memo.get(key)
    if want is None:
        want = memo[key] = {k: flat(run(f, clone(d))) for k, f in OPS_.items()}
        if snap(d) != key:
            rec.fail('an operation alters nothing', history=history, op='operations on equal objects')
        rec.cover(states=1)
    before = key
    for k, f in OPS_.items():
        got = flat(run(f, d))
        rec.cover(transitions=1)
        if differ(got, want[k]):
            rec.fail('the answer depends only on current values', op=k, history=history, got=repr(got)[:200], want=repr(want[k])[:200])
    if snap(d) != before:
        rec.fail('an operation alters nothing', history=history, op='(probing)')


def sequences(rec, first, depth):
    memo = {}
    a = ACTIONS[first]
    start = snap(pool())
    pristine = constants()

    def extend(seq):
        d = pool()
        for n, b in enumerate(seq):
            act(rec, d, b, [x[1] for x in seq[:n + 1]])
        if constants() != pristine:
            rec.fail('module constants are never altered', history=[x[1] for x in seq])
        probe(rec, d, [x[1] for x in seq], memo)
        rec.cover(traces=1)
        if len(seq) < depth:
            for b in ACTIONS:
                # at the third place only what can matter after a pure operation: a reassignment
                if len(seq) == 2 and not (seq[1][0] == 'mut' or b[0] == 'mut'):
                    continue
                extend(seq + [b])
    extend([a])
    if a[0] == 'op':
        d = pool()
        act(rec, d, a, [a[1]])
        rec.ok(snap(d) == start, 'an operation alters nothing', op=a[1])
    rec.sample(first=a[1], depth=depth, probes=len(OPS_))


# ------------------------------------------------------------------------------------------------ monitored explorations
# The value spaces of the other properties are walked through again with every call from outside the library monitored: no argument, no object handed
# over (self included) and no constant may be different afterwards. The answers themselves are the business of those properties.
MONITORED = ['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c14', 'c15', 'c16', 'c17', 'c21', 'c26', 'c27']


def _slices(c, q):
    """one slice of every kind for either axes"""
    seen = {}
    for fn, kw in importlib.import_module('mc.' + c).tasks('quick'):
        axes = kw.get('axes') or kw.get('ref_axes')
        axes = axes if isinstance(axes, str) else 'e'
        axes = {'default': 'e'}.get(axes, axes)
        if axes in ('e', 'E'):
            key = (fn, axes, kw.get('name')) if c == 'c21' else (fn, axes)
            seen.setdefault(key, []).append(kw)
    for (fn, axes), v in ((k[:2], v) for k, v in sorted(seen.items(), key=str)):
        n = len(v)
        for kw in ([v[n // 2]] if q else v[::max(1, n // 4)]):
            yield fn, axes, kw


class Quiet(object):
    """stands in for the recorder of the other property"""
    context = {}

    def __getattr__(self, name):
        return lambda *a, **k: True


class Monitor(object):
    LIMIT = 20000

    def __init__(self, rec):
        self.rec, self.depth, self.calls, self.seen = rec, 0, 0, 0
        self.undo = []

    def state(self, x, out, ids):
        if isinstance(x, np.ndarray):
            out.append((x.shape, x.dtype.str, x.tobytes() if x.size <= self.LIMIT else hash(x.tobytes())))
        elif isinstance(x, (list, tuple)):
            out.append((type(x).__name__, len(x)))
            for v in x:
                self.state(v, out, ids)
        elif type(x).__name__ in PUBLIC and id(x) not in ids:
            ids.add(id(x))
            for a in PUBLIC[type(x).__name__]:
                try:
                    v = x.__dict__[a]
                except KeyError:
                    continue
                self.state(v, out, ids)
        elif isinstance(x, (float, int, str, bool, np.generic)):
            out.append(repr(x))

    def __call__(self, fn, name, skip_self=False):
        def call(*args, **kw):
            if self.depth:
                return fn(*args, **kw)
            self.depth = 1
            ins = (args[1:] if skip_self else args, tuple(kw.values()))
            before = []
            self.state(ins, before, set())
            try:
                return fn(*args, **kw)
            finally:
                self.depth = 0
                after = []
                self.state(ins, after, set())
                self.calls += 1
                self.seen += len(before)
                self.rec.ok(before == after, 'an operation alters none of its arguments', op=name, before=repr(before)[:200], after=repr(after)[:200])
        call.__name__ = name
        call.__doc__ = fn.__doc__
        return call

    def install(self):
        import types
        for mod in (nv, core, rotation, util, objects):
            pass
        for key, f in list(vars(nv).items()) + [(k, v) for k, v in vars(util).items() if k in ('isclose', 'allclose', 'array_to_list_dict')]:
            if isinstance(f, types.FunctionType) and not key.startswith('_') and f.__module__.startswith('nvector'):
                w = self(f, key)
                for mod in (nv,) + ((util,) if key in ('isclose', 'allclose', 'array_to_list_dict') else ()):
                    if hasattr(mod, key):
                        self.undo.append((mod, key, getattr(mod, key)))
                        setattr(mod, key, w)
        for cls in [v for v in vars(objects).values() if isinstance(v, type) and v.__module__ == objects.__name__]:
            for key, f in list(vars(cls).items()):
                if isinstance(f, types.FunctionType) and (not key.startswith('_') or key in ('__init__', '__eq__', '__ne__', '__add__', '__sub__', '__mul__', '__neg__',
                                                                                             '__truediv__', '__radd__', '__rmul__', '__repr__')):
                    self.undo.append((cls, key, f))
                    setattr(cls, key, self(f, cls.__name__ + '.' + key, skip_self=key in ('__init__', 'unit')))
                elif isinstance(f, property) and f.fget is not None and not key.startswith('_'):
                    self.undo.append((cls, key, f))
                    setattr(cls, key, property(self(f.fget, cls.__name__ + '.' + key)))

    def remove(self):
        for o, k, f in reversed(self.undo):
            setattr(o, k, f)


def monitored(rec, module, fn, kw):
    mod = importlib.import_module('mc.' + module)
    rec.context = dict(while_exploring=module + '.' + fn)
    pristine = constants()
    m = Monitor(rec)
    m.install()
    try:
        getattr(mod, fn)(Quiet(), **kw)
    except Exception as e:            # an operation that raises is for the other property to report
        rec.outcome('left early: ' + type(e).__name__)
    finally:
        m.remove()
    rec.cover(states=m.seen, transitions=m.calls, traces=m.calls)
    rec.ok(constants() == pristine, 'module constants are never altered')
    rec.sample(module=module, slice=fn, calls=m.calls)


# ------------------------------------------------------------------------------------------------ catalogue
VARIANTS = [dict(axes='e', ell='wgs84'), dict(axes='E', ell='wgs84'), dict(axes='e', ell='flat50'), dict(axes='e', ell='wgs84', start=5)]


def call(o, el, axes='e', ell='wgs84', start=0, k=3):
    single = o.onlysingle or k == 1
    k = 1 if single else k
    cx = Cx(axes=axes if o.axes else 'e', ell=ell, single=single)
    return o.run(cx, [take(el, p, slice(start, start + k)) for p in o.params], k)


def in_child(fn):
    """the answer in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fn(), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        out = pickle.load(f)
    os.waitpid(pid, 0)
    return out


A84, F84 = 6378137.0, 1 / 298.257223563
FIGURES = {'%s %d' % (nm, n): v for n, v in enumerate([(A84, 1 / 298.2572), (A84, 1 / 298.3), (A84, 1 / 297.0), (A84, 0.0), (A84, -F84), (A84, 0.0033), (A84 + 0.04, F84),
                                                       (A84 + 1, F84), (A84 + 150.0, F84), (A84 - 10, F84), (A84, 0.02)]) for nm in ('wgs84', 'near')}


@contextlib.contextmanager
def figures():
    for nm, v in FIGURES.items():
        alph.ELLIPSOIDS[nm] = v
    try:
        yield
    finally:
        for nm in FIGURES:
            del alph.ELLIPSOIDS[nm]


def catalogue(rec, name, triples):
    o = OPS[name]
    el = elements(24)
    rec.context = dict(op=name)
    want = {k: in_child(lambda k=k: call(o, el, k=k)) for k in (1, 3)}
    with figures():
        fresh = {(nm, k): in_child(lambda: call(o, el, ell=nm, start=2, k=k)) for nm in FIGURES for k in {1, 1 if o.onlysingle else 3}}
    pristine = constants()

    def check(history):
        for k in (1, 3):
            same(rec, call(o, el, k=k), want[k], 'same answer whatever was called before', 1.0, history=history, size=k)
            rec.cover(states=1, transitions=1, traces=1)
    firsts = list(OPS)
    for f in firsts:
        for n, v in enumerate(VARIANTS):
            if n == 1 and not OPS[f].axes:
                continue
            call(OPS[f], el, **v)
            check([f, v])
            if triples:
                for g in firsts:
                    call(OPS[g], el, **VARIANTS[(n + 1) % 4])
                    check([f, v, g])
    # a call that differs in one argument only, by a little or by much
    k = 1 if o.onlysingle else 3
    for size in {1, k}:
        single = o.onlysingle or size == 1
        base = [take(el, p, slice(0, size)) for p in o.params]
        near = [[np.asarray(v, dtype=float) + h for h in (1e-5, 1e-9)] for v in base]
        for j, p in enumerate(o.params):
            others = [take(el, p, slice(s, s + size)) for s in (5, 9)]
            if p not in ('M', 'M2', 'R'):
                others += [v / np.sqrt(np.sum(v * v, axis=0)) if p[0] == 'g' else v for v in near[j]]
            for v in others:
                for axes in ('e', 'E') if o.axes else ('e',):
                    o.run(Cx(axes=axes, ell='wgs84', single=single), base[:j] + [v] + base[j + 1:], size)
                    got = o.run(Cx(axes='e', ell='wgs84', single=single), base, size)
                    rec.cover(states=1, transitions=2, traces=1)
                    same(rec, got, want[size], 'same answer after a call that differed in one argument', 1.0, param=p, size=size, axes=axes)
    # ellipsoids that differ by a little or by much in one parameter, of the same or another name
    for nm, size in fresh:
        with figures():
            same(rec, call(o, el, ell=nm, start=2, k=size), fresh[nm, size], 'same answer after a call with nearly the same ellipsoid', 1.0, ellipsoid=nm, size=size)
        same(rec, call(o, el, k=size), want[size], 'same answer after a call with nearly the same ellipsoid', 1.0, ellipsoid=nm, size=size)
        rec.cover(states=1, transitions=2, traces=1)
    rec.ok(constants() == pristine, 'module constants are never altered')
    # the same buffers with other contents, and arguments unchanged
    if not o.onlysingle:
        for (i, j), axes, k in itertools.product([(0, 5), (5, 0), (3, 11), (11, 3), (2, 2)], ('e', 'E') if o.axes else ('e',), (1, 2, 3, 4)):
            bufs = {}

            def lay(v, what):
                n = bufs.setdefault('n', 0)
                bufs['n'] += 1
                if n not in bufs:
                    bufs[n] = np.array(v, dtype=float)
                else:
                    bufs[n][...] = v
                return bufs[n]
            cx = Cx(axes=axes, lay=lay)
            for s in (i, j, i):
                bufs['n'] = 0
                got = o.run(cx, [take(el, p, slice(s, s + k)) for p in o.params], k)
                kept = {n: v.copy() for n, v in bufs.items() if n != 'n'}
                fresh = o.run(Cx(axes=axes), [take(el, p, slice(s, s + k)) for p in o.params], k)
                same(rec, got, fresh, 'buffers reused with other contents', start=s, size=k)
                bufs['n'] = 0
                if o.group == 'f':
                    # the answer is the caller's own: writing into it changes nothing else
                    for _, v in o.fn(cx, *[take(el, p, slice(s, s + k)) for p in o.params]):
                        if isinstance(v, np.ndarray) and v.flags.writeable:
                            v[...] = 1 if v.dtype == bool else 7
                    bufs['n'] = 0
                cx.lay = lambda v, what: _compare(rec, bufs, v)
                again = o.run(cx, [take(el, p, slice(s, s + k)) for p in o.params], k)
                same(rec, again, fresh, 'the same call again', start=s, size=k)
                cx.lay = lay
                rec.cover(states=1, transitions=3, traces=1)
    rec.sample(op=name)


def _compare(rec, bufs, v):
    n = bufs['n']
    bufs['n'] += 1
    rec.ok(np.array_equal(bufs[n], np.asarray(v, dtype=float)), 'arguments are not altered', argument=n)
    return bufs[n]
