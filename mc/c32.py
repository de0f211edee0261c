import itertools
from mc.ops import *
from mc.c18 import layout

BOUNDS = """every operation of the catalogue and the mean and track operations x every symmetry of a group: turns about the Earth's axis (quarter, half, arbitrary, tiny, more
than one), the mirrors north-south and east-west and all their products, and on spheres all 48 symmetries of a cube x every element of the table of elements and every ordered pair of
a set of places on special meridians and parallels (paths along the equator, a meridian, across the antimeridian) x ellipsoids x axes x single, array and broadcast form; and
every operation on paths with the ends or the paths exchanged. Oracle: the answer of the same call before the symmetry, transformed as position, direction, azimuth, attitude,
signed length or invariant number."""

TURNS = {'none': 0.0, 'quarter': np.pi / 2, 'half': np.pi, 'some': 0.65, 'back': -3.0, 'tiny': 1e-9, 'more than one': 8.0}

# ------------------------------------------------------------------ operations on fixed tracks
EXTRA = {}


def extra(name, params):
    def deco(fn):
        EXTRA[name] = Op(name, params.split(), fn)
        return fn
    return deco


for _kind, _kw in (('linear', {}), ('nearest', {}), ('cubic', dict(window_length=3, polyorder=1)), ('quadratic', dict(window_length=3, polyorder=2, mode='nearest'))):
    @extra('interp_nvectors ' + _kind, 'gTR t')
    def _(cx, tr, t, kind=_kind, kw=_kw):
        return [('n', nv.interp_nvectors(cx.x(t), TRACK_T, emb_exact(cx.axes, tr), kind=kind, **kw))]

    @extra('Nvector.interpolate ' + _kind, 'gTR t')
    def _(cx, tr, t, kind=_kind, kw=_kw):
        X = cx.frame.Nvector(emb_exact(cx.axes, tr), cx.depths).interpolate(cx.x(t), TRACK_T, kind=kind, **kw)
        return [('n', X.normal), ('z0', X.z)]


@extra('mean_horizontal_position', 'gTR')
def _(cx, tr):
    return [('n', nv.mean_horizontal_position(emb_exact(cx.axes, tr)))]


@extra('Nvector.mean', 'gTR')
def _(cx, tr):
    return obj_out(cx.frame.Nvector(emb_exact(cx.axes, tr), cx.depths).mean())


def get(name):
    return OPS.get(name) or EXTRA[name]


GEO, NVEC, ECEF, NED, LOC = 'lat lon s', 'n s lat s', 'v s', 'vN s azN s', 'vL s azL s'
# what every answer is
ROLES = {
    'lat_lon2n_E': 'n', 'n_E2lat_lon': 'lat lon', 'n_EB_E2p_EB_E': 'v', 'p_EB_E2n_EB_E': 'n s', 'n_EA_E_and_n_EB_E2p_AB_E': 'v',
    'n_EA_E_and_p_AB_E2n_EB_E': 'n s', 'n_EA_E_and_n_EB_E2azimuth': 'azN', 'n_EA_E_distance_and_azimuth2n_EB_E': 'n',
    'great_circle_distance': 's', 'euclidean_distance': 's', 'great_circle_normal': 'N', 'cross_track_distance': 'S', 'cross_track_distance_euclidean': 'S',
    'on_great_circle': 's', 'on_great_circle_path': 's', 'closest_point_on_great_circle': 'n', 'intersect': 'n', 'interpolate': 'n',
    'n_E2R_EN': 'RN', 'n_E_and_wa2R_EL': 'RL', 'R_EN2n_E': 'n', 'R_EL2n_E': 'n', 'unit': 'n',
    'delta_L': LOC, 'change_frame_N': NED + ' ' + ECEF, 'change_frame_L': LOC + ' ' + ECEF, 'change_frame_B': LOC + ' ' + ECEF + ' ' + NVEC,
    'frame_N': 'RN', 'frame_L': 'RL', 'frame_B': 'RL', 'displace_greatcircle': GEO + ' azN', 'displace_ellipsoid': GEO + ' azN',
    'displace_unrolled': GEO + ' xlon azN', 'FrameE_inverse': 's azN azN', 'FrameE_direct': 'lat lon azN', 'FrameE_direct_unrolled': 'lat xlon azN',
    'GeoPath_cross_track_distance': 'S S S', 'GeoPath_on_great_circle': 's', 'GeoPath_on_path': 's', 'GeoPath_on_path_ellipsoid': 's',
    'GeoPath_closest_point_on_great_circle': GEO, 'GeoPath_closest_point_on_path': GEO, 'GeoPath_intersect': NVEC,
    'GeoPath_interpolate': NVEC, 'GeoPath_ellipsoidal_distance': 's',
    'GeoPath_ends': ' '.join([NVEC] * 2 + [GEO] * 2 + [ECEF] * 2 + ['n n']),
    'Nvector_arithmetic': NVEC + ' ' + NVEC, 'Nvector_scaled': ' '.join([NVEC] * 4), 'Nvector_unit': NVEC,
    'ECEFvector_arithmetic': ECEF + ' ' + ECEF + ' s', 'ECEFvector_negation': ECEF + ' s',
    'GeoPoint_degrees': 'latdeg xlondeg latdeg xlondeg s lat xlon s lat xlon', 'mean_horizontal_position': 'n', 'Nvector.mean': NVEC,
}
for _n in OPS:
    for _p, _r in (('to_nvector', NVEC), ('to_ecef', ECEF), ('to_geo', GEO), ('delta_E_', ECEF + ' s'), ('delta_N_', NED + ' s azN s'), ('delta_to_', NED + ' azN s'),
                   ('gc_distance', 's s s'), ('distance_and_azimuth', 's azN azN')):
        if _n.startswith(_p):
            ROLES[_n] = _r
for _n in EXTRA:
    ROLES.setdefault(_n, 'n' if _n.startswith('interp_n') else 'n s')

# what the parameters are, where their name does not say
BODY = {'wa': 'azN', 'lat2': 's', 't': 'S'}
SPECIAL = {'change_frame_B': BODY, 'frame_B': BODY}


def role_of(name, p):
    if p in SPECIAL.get(name, {}):
        return SPECIAL[name][p]
    if p[0] == 'g' or p in ('p', 'dp'):
        return 'v'
    if p[0] == 'P':
        return 'P'
    return {'lat': 'lat', 'lat2': 'lat', 'lon': 'lon', 'lon2': 'lon', 'az': 'azN', 'wa': 'azN', 'R': 'RL'}.get(p, 's')


# ------------------------------------------------------------------ the group
class Sym(object):
    """turn about the Earth's axis after mirrors north-south and east-west"""

    def __init__(self, turn, ns=False, ew=False):
        self.turn, self.ns, self.ew = turn, ns, ew
        c, s = np.cos(ref.ld(turn)), np.sin(ref.ld(turn))
        if abs(turn) in (np.pi / 2, np.pi):
            c, s = np.round(c), np.round(s)
        self.H = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]], dtype=ref.LD) @ np.diag([1, -1 if ew else 1, -1 if ns else 1]).astype(ref.LD)
        self.det = -1 if ns != ew else 1

    def pos(self, P):
        out = np.array(P, dtype=float)
        out[0] = self.lat(P[0])
        out[1] = self.lon(P[1])
        return out

    def lat(self, v):
        return -v if self.ns else v

    def lon(self, v):
        return (-v if self.ew else v) + self.turn

    def azN(self, v):
        v = np.pi - v if self.ns else v
        return -v if self.ew else v

    def vN(self, v):
        return v * np.array([-1 if self.ns else 1, -1 if self.ew else 1, 1.0])[:, None]

    def flips(self):
        return [-1 if self.ns else 1, -1 if self.ew else 1, 1]

    def __repr__(self):
        return 'turn %g%s%s' % (self.turn, ' north-south' if self.ns else '', ' east-west' if self.ew else '')


class Cube(object):
    """any symmetry of the cube (spheres only): no meaning for latitudes, longitudes and azimuths"""

    def __init__(self, M):
        self.H, self.det = ref.ld(M), int(round(np.linalg.det(np.asarray(M, dtype=float))))
        self.M = np.asarray(M)

    def pos(self, P):
        la, lo = ref.latlon(self.H @ ref.nvec(P[0], P[1]))
        return np.stack([ref.f64(la), ref.f64(lo), P[2]])

    def __repr__(self):
        return 'cube %s' % self.M.ravel().tolist()


def move(sym, role, v):
    """raw value or answer after the symmetry; None where the answer has no meaning under it"""
    if role == 's':
        return v
    if role == 'S':
        return sym.det * v
    if role in ('v', 'n', 'N'):
        out = ref.f64(sym.H @ v)
        return sym.det * out if role == 'N' else out
    if role == 'P':
        return sym.pos(v)
    if isinstance(sym, Cube):
        return None
    if role == 'lat':
        return sym.lat(v)
    if role in ('lon', 'xlon'):
        return sym.lon(v)
    if role == 'latdeg':
        return sym.lat(v)
    if role == 'xlondeg':
        return (-v if sym.ew else v) + np.degrees(sym.turn)
    if role == 'azN':
        return sym.azN(v)
    if role == 'azL':
        return sym.det * v
    if role == 'vN':
        return sym.vN(v)
    if role == 'vL':
        return v * np.array([1, sym.det, 1.0])[:, None]
    if role in ('RN', 'RL'):
        R = np.asarray(v).reshape(3, 3, -1)
        f = sym.flips() if role == 'RN' else [1, sym.det, 1]
        out = np.stack([ref.f64(sym.H @ R[:, j, :]) * f[j] for j in range(3)], axis=1)
        return out.reshape(np.shape(v))
    raise ValueError(role)


def same2(rec, got, want, msg, angles, others, **info):
    """as same, with one scale for angles and one for the rest"""
    for pick, scale in ((True, angles), (False, others)):
        i = [j for j, (kind, _, _) in enumerate(want) if (kind in ('a', 'lon')) == pick]
        if len(got) == len(want):
            same(rec, [got[j] for j in i], [want[j] for j in i], msg, scale, **info)
    if len(got) != len(want):
        rec.fail(msg + ': different kind of answer', **info)


# ------------------------------------------------------------------ elements
TRN = ref.f64(ref.nvec(TRACK[0], TRACK[1]))


def table(which, E):
    if which == 'elements':
        el = elements(E)
        keep = np.abs(np.abs(el['PA'][0]) - np.pi / 2) > 1e-9
        el = {k: v[..., keep] for k, v in el.items()}
    elif which == 'rings':
        # A and B on a great circle, the path from C to D crosses it at a given distance from A
        rows = []
        for la, az in ((0.3, 0.5), (-0.9, 2.2), (0.05, 4.0)):
            a, (n, e, d) = ref.nvec(np.array([la]), np.array([0.4]))[:, 0], [v[:, 0] for v in ref.ned(np.array([la]), np.array([0.4]))]
            u = n * np.cos(az) + e * np.sin(az)
            c = ref.cross(a[:, None], u[:, None])[:, 0]
            for length in (0.5, 2.0, -1.0):
                for along in (0.2, -0.4, 1.2, np.pi / 2 - 1e-4, np.pi / 2 + 1e-4, -np.pi / 2 + 2e-7, -np.pi / 2 - 2e-7, 2.0, -2.8):
                    for across, back in ((0.3, -0.4), (-0.2, 1e-3), (1.5, -1e-6)):
                        at = lambda x, y: (a * np.cos(x) + u * np.sin(x)) * np.cos(y) + c * np.sin(y)
                        rows.append([a, at(length, 0.0), at(along, across), at(along, back)])
        k = len(rows)
        el = dict(elements(k))
        for j, key in enumerate('ABCD'):
            n = np.array([r[j] for r in rows]).T
            la, lo = ref.latlon(n)
            el['g' + key], el['P' + key] = ref.f64(n), np.vstack([ref.f64(la), ref.f64(lo), 20.0 * (np.arange(k) % (j + 2))])
        el['gOn'], el['POn'] = el['gC'], el['PC']
        el['PA0'], el['PB0'] = el['PA'], el['PB']
    else:
        places = [(np.radians(a), np.radians(b)) for a in (0.0, 45.0, -30.0, 89.0) for b in (0.0, 90.0, 180.0, -179.0, 0.5)]
        pairs = [(a, b) for a in places for b in places]
        ang = [float(ref.angle(ref.nvec(*np.array(a)[:, None]), ref.nvec(*np.array(b)[:, None]))[0]) for a, b in pairs]
        pairs = [p for p, g in zip(pairs, ang) if 1e-3 < g < 2.95]
        k = len(pairs)
        base = elements(k)
        i = np.arange(k)
        A, B = np.array([p[0] for p in pairs]).T, np.array([p[1] for p in pairs]).T
        el = dict(base)
        el['PA'], el['PB'] = np.vstack([A, 10.0 * (i % 3)]), np.vstack([B, -25.0 * (i % 2)])
        el['gA'], el['gB'] = ref.f64(ref.nvec(*A)), ref.f64(ref.nvec(*B))
        el.update(lat=A[0], lon=A[1], lat2=B[0], lon2=B[1], z=el['PA'][2], z2=el['PB'][2])
    el['gTR'] = TRN
    return el


def size(el):
    return el['PA'].shape[-1]


PAIROPS = {'PA', 'PB', 'gA', 'gB', 'z', 'z2', 'wa', 't', 'lat', 'lon', 'lat2', 'lon2', 'az', 's'}


def vals_of(o, el, idx):
    return [el[p] if p == 'gTR' else take(el, p, idx) for p in o.params]


def tasks(tier):
    q = tier == 'quick'
    out = []
    for name in list(OPS) + list(EXTRA):
        if name not in ROLES:
            continue
        o = get(name)
        for ell in ('wgs84', 'sphere') if q else ('wgs84', 'sphere', 'prolate', 'flat50'):
            for axes in ('e', 'E'):
                out.append(('turned', dict(name=name, ell=ell, axes=axes, which='elements', E=32 if q else 160)))
                if set(o.params) <= PAIROPS and (q is False or axes == 'e'):
                    out.append(('turned', dict(name=name, ell=ell, axes=axes, which='pairs', E=0)))
                if {'gC', 'PC', 'POn', 'gOn'} & set(o.params) and (q is False or axes == 'e'):
                    out.append(('turned', dict(name=name, ell=ell, axes=axes, which='rings', E=0)))
        if cubic(name):
            out.append(('cube', dict(name=name, axes='e' if q else 'E', E=32 if q else 160)))
            if set(o.params) <= PAIROPS:
                out.append(('cube', dict(name=name, axes='E' if q else 'e', E=0)))
    for name in EXCHANGE:
        # the points on the ellipsoidal path are those of WGS-84
        for ell in ('wgs84', 'sphere', 'flat50') if name != 'GeoPath_on_path_ellipsoid' else ('wgs84', ):
            for axes in ('e', 'E'):
                out.append(('exchanged', dict(name=name, ell=ell, axes=axes, which='elements', E=64 if q else 640)))
                if {'gC', 'PC'} & set(OPS[name].params):
                    out.append(('exchanged', dict(name=name, ell=ell, axes=axes, which='rings', E=0)))
    return out


def transformed(sym, name, out, tol=None):
    roles = ROLES[name].split()
    res, keep = [], []
    for (kind, v, note), role in zip(out, roles):
        w = move(sym, role, v)
        keep.append(w is not None)
        res.append((kind, w, note))
    return res, keep, len(roles) == len(out)


def verify(rec, sym, name, got, want, msg, scale, **info):
    exp, keep, fits = transformed(sym, name, want)
    if not fits:
        raise AssertionError('table of roles does not fit %s: %d answers' % (name, len(want)))
    got = [g for g, k in zip(got, keep) if k]
    roles = [r for r, k in zip(ROLES[name].split(), keep) if k]
    exp = [e for e, k in zip(exp, keep) if k]
    for i, r in enumerate(roles):
        if r in ('vN', 'vL') and roles[i + 2:i + 3] == ['az' + r[1]]:
            # straight up or down there is no azimuth
            v = np.asarray(exp[i][1])
            none = np.hypot(v[0], v[1]) < 1e-6 * np.abs(v[2])
            for j in range(i + 2, len(roles)):
                if roles[j] == 'az' + r[1]:
                    exp[j] = (exp[j][0], np.where(none, np.nan, exp[j][1]), exp[j][2])
                    got[j] = (got[j][0], np.where(none, np.nan, got[j][1]), got[j][2])
                elif roles[j] in ('vN', 'vL'):
                    break
    same2(rec, got, exp, msg, scale, scale / 20, symmetry=repr(sym), **info)


def syms():
    for t, ns, ew in itertools.product(TURNS.values(), (False, True), (False, True)):
        if t or ns or ew:
            yield Sym(t, ns, ew)


def run_all(rec, name, axes, ell, el, group, scale):
    o = get(name)
    n = size(el)
    few = name in EXTRA
    roles = [role_of(name, p) for p in o.params]
    cx, cs = Cx(axes=axes, ell=ell), Cx(axes=axes, ell=ell, single=True)
    if few and 't' not in o.params:
        forms = [('array', cx, slice(0, 1), 1)]
    else:
        singles = sorted(set(range(0, n, max(1, n // 6))) | {1, n - 1})
        forms = [('array', cx, slice(0, n), n)] if not o.onlysingle else []
        forms += [('single', cs, slice(i, i + 1), 1) for i in (singles if not o.onlysingle else range(0, min(n, 48)))]
    for form, c, idx, k in forms:
        vals = vals_of(o, el, idx)
        want = o.run(c, vals, k)
        for kind, v, _ in want if form == 'array' else ():
            rec.outcome('%s defined' % kind, np.sum(np.isfinite(v)))
        for sym in group:
            moved = [move(sym, r, v) for r, v in zip(roles, vals)]
            got = o.run(c, moved, k)
            verify(rec, sym, name, got, want, '%s form' % form, scale, element=-1 if form == 'array' else idx.start)
            rec.cover(states=k, transitions=1, traces=1)


def turned(rec, name, ell, axes, which, E):
    rec.context = dict(op=name, ellipsoid=ell, axes=axes, table=which)
    run_all(rec, name, axes, ell, table(which, E), list(syms()), 100.0)
    rec.sample(op=name, ellipsoid=ell, roles=ROLES[name])


def cubic(name):
    """operations whose arguments are positions, vectors and invariant numbers only"""
    o = get(name)
    return all(role_of(name, p) in ('v', 'P', 's') for p in o.params) and any(r in ('n', 'N', 'v', 's', 'S') for r in ROLES[name].split()) and \
        not (set(o.params) & {'wa', 'az', 'R'})


def cube(rec, name, axes, E):
    rec.context = dict(op=name, axes=axes, ellipsoid='sphere')
    group = [Cube(s * M) for M in octahedral() for s in (1, -1)]
    run_all(rec, name, axes, 'sphere', table('elements' if E else 'pairs', E), group, 100.0)


# ------------------------------------------------------------------ exchanging ends
# operation -> (order of the arguments after the exchange, what becomes of the answers)
REV = (1, 0)
EXCHANGE = {
    'great_circle_distance': (REV, '+'), 'euclidean_distance': (REV, '+'), 'great_circle_normal': (REV, '-'),
    'n_EA_E_and_n_EB_E2p_AB_E': ((1, 0, 3, 2), '-'),
    'cross_track_distance': ((1, 0, 2), '-'), 'cross_track_distance_euclidean': ((1, 0, 2), '-'), 'on_great_circle': ((1, 0, 2), '+'),
    'on_great_circle_path': ((1, 0, 2), '+'), 'closest_point_on_great_circle': ((1, 0, 2), '+'), 'intersect': ((0, 1, 3, 2), '+'),
    'interpolate': ((1, 0, 2), '+'), 'GeoPath_cross_track_distance': ((1, 0, 2), '---'), 'GeoPath_on_great_circle': ((1, 0, 2), '+'),
    'GeoPath_on_path': ((1, 0, 2), '+'), 'GeoPath_on_path_ellipsoid': ((1, 0, 2), '+'), 'GeoPath_closest_point_on_great_circle': ((1, 0, 2), '+++'),
    'GeoPath_closest_point_on_path': ((1, 0, 2), '+++'), 'GeoPath_intersect': ((0, 1, 3, 2), '++++'), 'GeoPath_interpolate': ((1, 0, 2), '++++'),
    'GeoPath_ellipsoidal_distance': (REV, '+'), 'delta_E_geo_geo': (REV, '-++'), 'gc_distance_geo_geo': (REV, '+++'), 'gc_distance_nvec_geo': (REV, '+++'),
    'gc_distance_geo_ecef': (REV, '+++'), 'gc_distance_ecef_nvec': (REV, '+++'), 'ECEFvector_arithmetic': (REV, '++-++'),
    'delta_N_geo_geo': (REV, ' +  + '), 'distance_and_azimuth_ellipsoid_geo': (REV, '+ba'), 'distance_and_azimuth_greatcircle_geo': (REV, '+ba'),
    'FrameE_inverse': ((2, 3, 0, 1, 4), '+ba'),
}


def exchanged(rec, name, ell, axes, which, E):
    """a path travelled from its end to its start"""
    rec.context = dict(op=name, ellipsoid=ell, axes=axes, table=which)
    o = OPS[name]
    order, signs = EXCHANGE[name]
    el = table(which, E)
    n = size(el)
    cx, cs = Cx(axes=axes, ell=ell), Cx(axes=axes, ell=ell, single=True)
    forms = [('array', cx, slice(0, n), n)] if not o.onlysingle else []
    forms += [('single', cs, slice(i, i + 1), 1) for i in range(n)]
    for form, c, idx, k in forms:
        vals = vals_of(o, el, idx)
        want = o.run(c, vals, k)
        # the second of the new arguments in the place of the first
        back = [vals[j] for j in order]
        if name.endswith('interpolate'):
            back[2] = 1 - vals[2]
        got = o.run(c, back, k)
        exp, keep = [], []
        for i, (kind, v, note) in enumerate(want):
            s = signs[i] if i < len(signs) else ' '
            if s == 'b' or s == 'a':
                v = want[2 if s == 'b' else 1][1] + np.pi
            exp.append((kind, -v if s == '-' else v, note))
            keep.append(s != ' ')
        same2(rec, [g for g, u in zip(got, keep) if u], [e for e, u in zip(exp, keep) if u], '%s form, ends exchanged' % form, 100.0, 5.0, element=-1 if form == 'array' else idx.start)
        rec.cover(states=k, transitions=2, traces=1)
        rec.outcome(form, k)
