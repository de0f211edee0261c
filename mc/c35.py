from mc.ops import *
from mc import c32

BOUNDS = """every operation of the catalogue and the track operations x each of its arguments in turn, moved (a) on ladders, 8 rungs per decade from 1e-15 to 1e-2 (lengths 1e-9 to 1e6 m),
towards every special value from both sides: poles, equator, quarter meridians, multiples of a quarter turn, the other positions, their antipodes, parallels, meridians and polar
great circles, the path and its poles, zero length, the ends and nodes of a track; and (b) in equal steps through its whole range (1257 places on great circles through the base in several
directions, whole turns of angles, lengths up to the circumference, 26 decades of a number) x bases x ellipsoids x axes x array and single form. Oracle: each answer is the one that
the eight next to it predict (Lagrange interpolation), to rounding; at the special value itself, the one the ladder tends to, where the answer is well conditioned."""

ROLES = dict(c32.ROLES, xyz2R='M', zyx2R='M', R2xyz='turn turn turn', R2zyx='turn turn turn', mdot='M', deg_rad='deg deg s s', nthroot='s s')
LENGTHS = ('v', 'l', 'm', 'z', 'z0')
HALF = 4           # neighbours used on either side
EPS = 2.0 ** -52
PI_ = float(ref.PI)
RADIUS = 6371009.0


class Nodes(object):
    """nodes x and the weights that give f(x[i]) from HALF neighbours on either side"""

    def __init__(self, x):
        self.x = x
        x = ref.ld(x)
        self.m = m = len(x) - 2 * HALF
        self.off = [j for j in range(-HALF, HALF + 1) if j]
        self.mid = slice(HALF, HALF + m)
        at = lambda j: x[HALF + j:HALF + j + m]
        self.W = np.ones((2 * HALF, m), dtype=ref.LD)
        for c, j in enumerate(self.off):
            for l in self.off:
                if l != j:
                    self.W[c] *= (at(0) - at(l)) / (at(j) - at(l))
        self.P = ref.f64(np.prod(np.stack([np.abs(at(j) - at(0)) for j in self.off]), axis=0))

    def around(self, f, own=False):
        """the neighbours of every node: list of (..., m)"""
        return [f[..., HALF + j:HALF + j + self.m] for j in sorted(self.off + ([0] if own else []))]

    def residual(self, f):
        """f (..., k): how far each value is from what its neighbours say"""
        f = ref.ld(f)
        r = f[..., self.mid].copy()
        for w, g in zip(self.W, self.around(f)):
            r -= w * g
        return ref.f64(r)


def ladder(low, top, per=8):
    return 10.0 ** (np.arange(low * per, top * per + 1) / per)


# ------------------------------------------------------------------ places
BASES = {
    'oblique': dict(A=(0.5, 0.4), B=(0.9, 1.5), C=(-0.2, 1.1), D=(0.3, -0.7)),
    'southern': dict(A=(-0.7, -2.0), B=(-0.2, -3.0), C=(-1.0, -2.7), D=(0.2, -2.2)),
    'equator': dict(A=(0.0, 0.3), B=(0.0, 1.2), C=(0.4, 0.8), D=(-0.6, 0.5)),
    'meridian': dict(A=(0.2, 0.0), B=(1.1, 0.0), C=(0.7, 0.5), D=(0.4, -0.6)),
    'date line': dict(A=(0.2, 2.7), B=(-0.5, -2.6), C=(0.6, 3.05), D=(-0.8, PI_)),
}
DEPTHS = dict(A=10.0, B=-20.0, C=5.0, D=30.0)
NUMBERS = dict(az=0.8, wa=1.0, t=0.37, s=2e6, drad=0.7, latnear=0.52, pos=2.0)
TURNS = [0.0, PI_ / 2, -PI_ / 2, PI_, -PI_, PI_ / 4, 2 * PI_]
SPECIAL = dict(lat=[0.0, PI_ / 2, -PI_ / 2], lat2=[0.0, PI_ / 2, -PI_ / 2], lon=TURNS, lon2=TURNS, az=TURNS, wa=TURNS, t=[0.0, 1.0, 0.5, 0.2, 0.6, 0.9],
               s=[0.0], z=[0.0], z2=[0.0], drad=[0.0, PI_ / 2, PI_, 2 * PI_])
COMPASS = [0.0, PI_ / 2, PI_, -PI_ / 2, 0.7, -2.1]


def base(name, depths):
    b = {k: v + (depths[k],) for k, v in BASES[name].items()}
    el = {}
    for k, (la, lo, z) in b.items():
        n = ref.nvec(np.array([la]), np.array([lo]))
        el['n' + k] = n
        el['P' + k], el['g' + k] = np.array([[la], [lo], [z]]), ref.f64(n)
    el['POn'], el['gOn'], el['PA0'], el['PB0'] = el['PC'], el['gC'], el['PA'], el['PB']
    el.update({k: np.array([v]) for k, v in NUMBERS.items()})
    for k, p in (('', 'A'), ('2', 'B')):
        la, lo, z = b[p]
        el.update({'lat' + k: np.array([la]), 'lon' + k: np.array([lo]), 'z' + k: np.array([z])})
    el['p'] = ref.f64(ref.ecef(el['nA'], b['A'][2], 6378137.0, 1 / 298.257223563))
    el['dp'] = np.array([[3e4], [-2e5], [7e4]])
    el['R'] = attitude(el['nA'])
    el['M'], el['M2'] = turned(0.8, 0.4, 1.5), turned(0.37, 0.1, -0.8)
    el['gTR'] = c32.TRN
    return el


def attitude(n):
    no, e, d = ref.ned_n(n)
    return ref.f64(mm3(np.stack([no, e, d], axis=1), ref.rot(2, np.full(n.shape[-1], 1.0))))


def turned(z, y, x, order='zyx'):
    """rotation matrices from angles, numbers or arrays"""
    z, y, x = np.broadcast_arrays(*[np.atleast_1d(np.asarray(v, dtype=float)) for v in (z, y, x)])
    if order == 'zyx':
        return ref.f64(mm3(mm3(ref.rot(2, z), ref.rot(1, y)), ref.rot(0, x)))
    return ref.f64(mm3(mm3(ref.rot(0, x), ref.rot(1, y)), ref.rot(2, z)))


def dirs(n, az):
    """unit tangent at n in the direction az"""
    la, lo = ref.latlon(n[:, None])
    e = ref.unit(np.stack([-np.sin(lo), np.cos(lo), 0 * lo]))[:, 0]
    north = ref.cross(n[:, None], e[:, None])[:, 0]
    return north * np.cos(ref.ld(az)) + e * np.sin(ref.ld(az))


def moved(n, u, x):
    x = ref.ld(x)
    return n[:, None] * np.cos(x) + u[:, None] * np.sin(x)


def attitudes(order, which, x):
    angles = [0.8, 0.4, 1.1]
    angles[which] = x
    return turned(*angles, order=order)


def letter(p):
    return {'POn': 'C', 'gOn': 'C', 'PA0': 'A', 'PB0': 'B', 'p': 'A', 'R': 'A'}.get(p, p[-1])


def is_place(p):
    return p != 'gTR' and (p[0] in 'gP' or p in ('p', 'R'))


def others(o, p):
    return [q for q in 'ABCD' if q != letter(p) and any(r[0] in 'gP' and r != 'gTR' and letter(r) == q for r in o.params)]


def place(p, n, z, ell):
    """raw parameter p at the directions n (3,k) in long double"""
    if p[0] == 'g':
        return ref.f64(n)
    if p == 'R':
        return attitude(n.reshape(3, -1)).reshape((3, 3) + n.shape[1:])
    if p == 'p':
        return ref.f64(ref.ecef(n, z, *alph.ELLIPSOIDS[ell]))
    la, lo = ref.latlon(n)
    return np.stack([ref.f64(la), np.unwrap(ref.f64(lo)), np.full(la.shape, float(z))])


def sites(o, p, el):
    """special places for the position p: name, direction"""
    for la, lo in ((PI_ / 2, 0.0), (-PI_ / 2, 0.0), (0.0, 0.0), (0.0, PI_ / 2), (0.0, PI_), (0.0, -PI_ / 2), (0.5, 0.0), (0.5, PI_), (-0.5, PI_ / 2), (0.5, -PI_ / 2), (0.0, 2.0)):
        n = ref.nvec(np.array([la]), np.array([lo]))[:, 0]
        if p == 'R' and abs(la) > 1:
            continue
        yield 'lat %.2f lon %.2f' % (la, lo), np.where(np.abs(n) < 1e-15, 0, n)
    rest = others(o, p)
    for q in rest:
        m = el['n' + q][:, 0]
        yield 'at ' + q, m
        yield 'antipode of ' + q, -m
        c = np.hypot(m[0], m[1])
        yield 'parallel of ' + q, np.array([c * np.cos(ref.ld(2.5)), c * np.sin(ref.ld(2.5)), m[2]])
        la, lo = ref.latlon(m)
        yield 'meridian of ' + q, ref.nvec(np.array([0.33]), lo[None])[:, 0]
        yield 'opposite meridian of ' + q, ref.nvec(np.array([0.33]), lo[None] + ref.PI)[:, 0]
        yield 'quarter from ' + q, dirs(m, 2.3)
    if len(rest) >= 2:
        for i, j in itertools.combinations(range(len(rest)), 2):
            a, b = el['n' + rest[i]][:, 0], el['n' + rest[j]][:, 0]
            c = ref.unit(ref.cross(a[:, None], b[:, None]))[:, 0]
            d = ref.cross(c[:, None], a[:, None])[:, 0]
            yield 'pole of path', c
            yield 'other pole of path', -c
            for x in (0.3, -0.5, 1.9, PI_ / 2):
                yield 'on great circle %g' % x, moved(a, d, np.array([x]))[:, 0]
            for m in (a, b):
                yield 'abeam', m * np.cos(ref.ld(0.2)) + c * np.sin(ref.ld(0.2))


def dangers(o, p, el, ell):
    """directions where an answer may be singular when p is there: (3,m), and how close is too close"""
    out, margin = [np.array([0, 0, 1], dtype=ref.LD), np.array([0, 0, -1], dtype=ref.LD)], [0.0, 0.0]
    rest = others(o, p)
    skew = 0.0 if ell == 'sphere' else 0.012 if ell == 'wgs84' else 0.2
    for q in rest:
        m = el['n' + q][:, 0]
        out += [m, -m]
        margin += [skew if o.name.startswith('change_frame') else 0.0, skew]
    for i, j in itertools.combinations(range(len(rest)), 2):
        c = ref.unit(ref.cross(el['n' + rest[i]], el['n' + rest[j]]))[:, 0]
        out += [c, -c]
        margin += [0.0, 0.0]
    return np.array(out).T, np.array(margin)


def degenerate(o, p, el, nn):
    """how far the paths of an operation are from being the same, or a position from being the pole of a path"""
    at = {q: nn if q == letter(p) else np.broadcast_to(el['n' + q].reshape((3,) + (1,) * (nn.ndim - 1)), nn.shape) for q in others(o, p) + [letter(p)]}
    if len(at) < 3 or not o.name.startswith(PATHOPS):
        return np.full(nn.shape[1:], np.inf)
    with np.errstate(all='ignore'):
        N = ref.cross(at['A'], at['B'])
        long = ref.norm(N)
        N = N / long
        M = at['C']
        if len(at) == 4:
            M = ref.cross(M, at['D'])
            long = np.minimum(long, ref.norm(M))
            M = ref.unit(M)
        gap = ref.f64(ref.norm(ref.cross(N, M)) * long)
    return np.where(np.isfinite(gap), gap, 0.0)


def clearance(n, sing, margin):
    """angle from each of n (3,...) to every singular direction (m,...)"""
    shape = (3,) + (1,) * (n.ndim - 1)
    a = np.stack([2 * np.arcsin(np.minimum(1.0, np.sqrt(sum(w ** 2 for w in ref.f64(n - s.reshape(shape)))) / 2)) for s in sing.T])
    return np.maximum(a - margin.reshape((-1,) + shape[1:]), 0.0)


# ------------------------------------------------------------------ answers
def answers(o, c, vals, single, L, k):
    """list of (kind, role, (components, L, k), scale (L, k), note); calls with all L lines of k places, or with every place"""
    if single:
        outs = [o.run(c, [v if p == 'gTR' else v[..., i:i + 1] for p, v in zip(o.params, vals)], 1) for i in range(L * k)]
        out = [(outs[0][j][0], np.concatenate([x[j][1] for x in outs], axis=-1), next((x[j][2] for x in outs if x[j][2]), None)) for j in range(len(outs[0]))]
    else:
        out = o.run(c, vals, L * k)
    roles = ROLES[o.name].split()
    assert len(roles) == len(out), 'table of roles does not fit %s: %d answers' % (o.name, len(out))
    res = []
    for (kind, v, note), role in zip(out, roles):
        v = np.asarray(v, dtype=float)
        if kind in ('a', 'lon'):
            v = np.concatenate([np.cos(v), np.sin(v)])
        v = v.reshape(v.shape[0], L, k)
        big = np.abs(v).max(axis=0)
        big = np.where(np.isfinite(big), big, 0.0)
        res.append((kind, role, v, np.maximum(6.4e6 if kind in LENGTHS else 1.0, big), note))
    return res


PATHOPS = ('great_circle_normal', 'cross_track', 'closest_point', 'intersect', 'GeoPath_cross', 'GeoPath_closest', 'GeoPath_intersect')
NOISE = 200 * EPS


def delicate(name, kind, role):
    """may lose accuracy in the vicinity of a singular place"""
    return name.startswith(PATHOPS) or role in ('azN', 'azL', 'lon', 'xlon', 'xlondeg', 'RN', 'RL', 'turn') or (kind == 'a' and role != 'lat') or name == 'Nvector_arithmetic' and kind == 'a'


def unsigned(name, role, v):
    """which of the two intersections is answered is not the business of this check"""
    if 'intersect' not in name:
        return v
    if v.shape[0] == 3:
        return np.stack([v[i] * v[j] for i, j in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2))])
    if role == 'lat':
        return v ** 2
    return v


def verdict(rec, o, out, nodes, near, far, special, lines):
    """near, far (L, k): clearance from what spoils the accuracy and the smoothness; special (L): directions have their meaning at the value before the first node;
    lines: (L) descriptions"""
    name = np.broadcast_to(np.array(lines)[:, None], near[:, nodes.mid].shape)
    at = np.broadcast_to(nodes.x[nodes.mid], name.shape)
    own = None
    for i, (kind, role, v, sc, note) in enumerate(out):
        # angles are as good as the distance of the answer itself from a pole, or from straight up and down
        if role == 'lat':
            own = np.abs(v[0])
        elif role in ('vN', 'vL'):
            own = np.hypot(v[0], v[1]) / ref.norm(v)
        elif kind not in ('a', 'lon', 'x', 'm'):
            own = None
        angle = (special is None or o.name == 'Nvector_arithmetic') and own is not None and kind != 'm'
        with np.errstate(all='ignore'):
            low = np.minimum(np.min(nodes.around(np.fmin(far, own[:, -far.shape[1]:]) if angle else far, own=True), axis=0), 1.0)
            trunc = 300 * nodes.P / low ** 8
            bad = 1 / (np.fmin(near, own[:, -far.shape[1]:]) if angle else near)[:, nodes.mid]
        sure = trunc < 1e-3
        label = '%d %s' % (i, role)
        if kind == 'b':
            continue
        if note:
            rec.fail('answers on a line: ' + note, output=label)
            continue
        v = unsigned(o.name, role, v)
        ok = np.isfinite(v).all(axis=0)
        before, ok = (ok[:, 0], ok[:, 1:]) if special is not None else (None, ok)
        first, v = (v[:, :, 0], v[:, :, 1:]) if special is not None else (None, v)
        sc = sc[:, -ok.shape[1]:]
        around = np.all(nodes.around(ok), axis=0)
        rec.holds(ok[:, nodes.mid] | ~around | ~sure, 'an answer where there is one on either side', at=at, line=name, output=label)
        use = around & ok[:, nodes.mid] & sure
        rec.outcome('%s smooth' % kind, np.sum(use))
        with np.errstate(all='ignore'):
            r = np.abs(nodes.residual(np.where(ok, v, 0.0))).max(axis=0)
            tol = sc[:, nodes.mid] * (NOISE * (1 + (bad if delicate(o.name, kind, role) else 0.0)) + trunc)
        rec.close(np.where(use, r, 0.0), np.zeros(r.shape), np.where(use, tol, 1.0), 'answer that its neighbours predict', at=at, line=name, output=label)
        if special is not None and not delicate(o.name, kind, role):
            meridian = role in ('vN', 'vL') or {'az', 'wa'} & set(o.params)
            fin = before & ok[:, 0] & (special if meridian else True)
            rec.outcome('%s at the special value' % kind, np.sum(fin))
            d = np.where(fin, np.abs(v[:, :, 0] - first).max(axis=0), 0.0)
            rec.close(d, np.zeros(d.shape), sc[:, 0] * (NOISE + 10 * np.abs(nodes.x[0]) * (60 if role.endswith('deg') else 1)), 'answer at a special value and next to it', line=np.array(lines), output=label)


def names():
    return [n for n in list(OPS) + list(c32.EXTRA) if n in ROLES and 'mean' not in n and n not in ('GeoPath_on_great_circle', 'GeoPath_on_path', 'GeoPath_on_path_ellipsoid',
                                                                                                      'on_great_circle', 'on_great_circle_path')]


def tasks(tier):
    q = tier == 'quick'
    out = []
    for i, name in enumerate(names()):
        o = c32.get(name)
        slow = 'ellipsoid' in name
        for j, ell in enumerate(('sphere', 'wgs84') if q else ('sphere', 'wgs84', 'flat50')):
            for axes in (('e', 'E')[(i + j) % 2],) if q else ('e', 'E'):
                for p in o.params:
                    if p in ('gTR', 'M2', 'latnear'):
                        continue
                    task = dict(name=name, p=p, ell=ell, axes=axes, deg=bool(o.deg and (j if q else ord(axes) // 32 + j) % 2))
                    if not o.onlysingle:
                        out.append(('ladders', dict(task, single=False, every=(11 if slow else 2) if q else 1)))
                        out.append(('sweeps', dict(task, single=False, every=(5 if slow else 2) if q else 1)))
                    if ell == 'wgs84' or not q:
                        out.append(('ladders', dict(task, single=True, deg=False, every=(53 if slow else 37) if q else 5)))
                        if name != 'GeoPath_closest_point_on_path':
                            out.append(('sweeps', dict(task, single=True, deg=False, every=5 if q else 3)))
    return out


def arguments(o, el, p, raw, k):
    return [raw if q == p else el[q] if q == 'gTR' else np.repeat(el[q], k, axis=-1) for q in o.params]


def flat(v):
    return v.reshape(v.shape[:-2] + (-1,))


def pick(every, count):
    return [i for i in range(count) if i % every == every // 2]


def ladders(rec, name, p, ell, axes, deg, single, every):
    rec.context = dict(op=name, moving=p, ellipsoid=ell, axes=axes, degrees=deg, form='single' if single else 'array')
    o = c32.get(name)
    cx = Cx(axes=axes, ell=ell, deg=deg, single=single)
    for b, bname in enumerate(BASES):
        el = base(bname, dict.fromkeys('ABCD', 10.0))
        if is_place(p):
            lines = [(site, n, way) for site, n in sites(o, p, el) for way in COMPASS]
            lines = [lines[(i + b) % len(lines)] for i in pick(every, len(lines))]
            nodes = Nodes(ladder(-15, -2))
            x0 = np.concatenate([[0.0], nodes.x])
            sing, margin = dangers(o, p, el, ell)
            nn = np.stack([moved(n, dirs(n, way), x0) for _, n, way in lines], axis=1)
            gaps = clearance(nn, sing, margin)
            gap = degenerate(o, p, el, nn)
            near = np.minimum(gaps.min(axis=0), gap)[:, 1:]
            target = (gaps[:, :, :1] == 0) & (margin[:, None, None] == 0)     # the approach to it from one side is smooth
            far = np.minimum(np.where(target, np.inf, gaps).min(axis=0), np.where(gap[:, :1] < 1e-9, np.inf, gap))[:, 1:]
            # azimuths at a pole are those of some meridian
            special = np.array([not ('lat 1.57' in site or 'lat -1.57' in site) for site, _, _ in lines])
            raw = place(p, nn, 10.0, ell)
            names_ = ['%s: %s, way %.2f' % (bname, site, way) for site, _, way in lines]
        elif p == 'M' and b == 0:
            lines = [(order, which, x, sign) for order in ('zyx', 'xyz') for which in range(3) for x in TURNS for sign in (1, -1)]
            nodes = Nodes(ladder(-15, -2))
            h0 = np.concatenate([[0.0], nodes.x])
            raw = np.stack([attitudes(order, which, x + sign * h0) for order, which, x, sign in lines], axis=2)
            L, k = len(lines), len(h0)
            gimbal = raw[0, 2] if name == 'R2xyz' else raw[2, 0]
            near = np.maximum(np.arccos(np.minimum(np.abs(gimbal), 1.0)), 1e-8)
            locked = near[:, :1] < 1e-7
            # the exact angle from the lock is that of the ladder there
            near, far = np.where(locked, h0, near)[:, 1:], np.where(locked, np.inf, near)[:, 1:]
            special = ~locked[:, 0]
            names_ = ['%s, angle %d: %g %+d' % line for line in lines]
        elif p in SPECIAL and bname in ('oblique', 'southern'):
            length = p in ('z', 'z2', 's')
            h = ladder(-15, -2) if not length else ladder(-6, 5) if p == 's' else ladder(-9, 6)
            body = 'frame_B' in o.name
            lines = [(x, sign) for x in SPECIAL[p] for sign in (1, -1) if body or p[:3] != 'lat' or abs(x + sign * 0.1) < PI_ / 2]
            if single and not body:
                lines = lines[b % 2::2]
            raw = np.array([x + sign * np.concatenate([[0.0], h]) for x, sign in lines])
            nodes = Nodes(h / RADIUS if length else h)
            near = np.tile(nodes.x, (len(lines), 1))
            far = np.full(near.shape, 1.0)
            special = np.array([not (p[:3] == 'lat' and abs(x) > 1) for x, _ in lines])
            names_ = ['%s: %s=%g %+d' % (bname, p, x, sign) for x, sign in lines]
        else:
            continue
        L, k = len(lines), len(nodes.x) + 1
        out = answers(o, cx, arguments(o, el, p, flat(raw), L * k), single, L, k)
        verdict(rec, o, out, nodes, near, far, special, names_)
        rec.cover(states=L * k, transitions=L * k, traces=L)
    rec.sample(op=name, moving=p)


NODES = {'linear': c32.TRACK_T, 'nearest': (c32.TRACK_T[1:] + c32.TRACK_T[:-1]) / 2}


def sweep_of(o, p):
    """(nodes, raw values, smoothness) of a number moved through its range"""
    if p in ('lat', 'lat2') and o.name not in ('frame_B', 'change_frame_B') and 'xyz' not in o.name and 'zyx' not in o.name:
        x = np.linspace(-1.5, 1.5, 601)
        return x, x, PI_ / 2 - np.abs(x)
    if p in ('lon', 'lon2', 'az', 'wa', 'lat', 'lat2'):
        x = np.arange(-7.0, 7.0, 0.007)
        return x, x, np.full(x.size, 1.0)
    if p == 't':
        body = 'frame_B' in o.name
        track = 'interp_nv' in o.name or 'Nvector' in o.name
        x = np.arange(0.0, 1.0, 1 / 1024.0) if track else np.arange(-1.0, 2.0, 0.004)
        far = np.full(x.size, 1.0)
        if track:
            knots = NODES['nearest' if 'nearest' in o.name or 'quadratic' in o.name else 'linear']
            far = np.minimum(0.5, np.abs(x[:, None] - knots).min(axis=1))
        return x, x, far
    if p == 'drad':
        x = np.arange(-1.0, 8.0, 0.005)
        return x, x, np.full(x.size, 1.0)
    if p == 's':
        x = np.arange(-0.5, 6.0, 0.004)
        return x, x * RADIUS, np.maximum(0.0, np.abs(x[:, None] - PI_ * np.arange(0, 3)).min(axis=1) - 0.01)
    if p in ('z', 'z2'):
        x, raw = HEIGHTS
        return x, raw, np.full(x.size, 1.0)
    if p == 'pos':
        x = np.arange(-30.0, 30.0, 0.03)
        return x, np.exp(x), np.full(x.size, 1.0)


# from 1300 km deep to 30 Earth radii high
HEIGHTS = np.arange(0.0, 3.45, 0.002), RADIUS * (1.2 - np.exp(np.arange(0.0, 3.45, 0.002)))
WAYS = (0.0, 0.7, PI_ / 2, -2.1, 2.4)


def sweeps(rec, name, p, ell, axes, deg, single, every):
    rec.context = dict(op=name, moving=p, ellipsoid=ell, axes=axes, degrees=deg, form='single' if single else 'array')
    o = c32.get(name)
    cx = Cx(axes=axes, ell=ell, deg=deg, single=single)
    for b, bname in enumerate(BASES):
        el = base(bname, DEPTHS)
        if is_place(p):
            ways = [WAYS[(i + b) % 5] for i in pick(every, 5)]
            if single and every == 5 and b != (len(name) + ord(letter(p))) % 5:
                continue
            nodes = Nodes(np.arange(-PI_, PI_, 0.005))
            sing, margin = dangers(o, p, el, ell)
            n = el['n' + letter(p)][:, 0]
            nn = np.stack([moved(n, dirs(n, way + (0.2 if p == 'R' else 0.0)), nodes.x) for way in ways], axis=1)
            near = np.minimum(clearance(nn, sing, margin).min(axis=0), degenerate(o, p, el, nn))
            raw = place(p, nn, DEPTHS[letter(p)], ell)
        elif p == 'M' and b == 0:
            nodes = Nodes(np.arange(-PI_, PI_, 0.005))
            ways = [(order, which) for order in ('zyx', 'xyz') for which in range(3)]
            raw = np.stack([attitudes(order, which, nodes.x) for order, which in ways], axis=2)
            near = np.arccos(np.minimum(np.abs(raw[0, 2] if name == 'R2xyz' else raw[2, 0]), 1.0))
        elif p == 'dp' and b == 0:
            ways = ['away']
            nodes = Nodes(np.arange(-30.0, 13.0, 0.05))
            raw = (np.array([[0.3], [-0.5], [0.8]]) * np.exp(nodes.x))[:, None, :]
            near = np.full((1, len(nodes.x)), 0.5)
        elif p not in ('dp', 'M') and b < (1 if single else 2):
            ways = ['']
            x, raw, near = sweep_of(o, p)
            nodes, raw, near = Nodes(x), raw[None, :], near[None, :]
        else:
            continue
        jobs = [(ways, nodes, raw, near)]
        if p == 'p':
            nodes = Nodes(HEIGHTS[0])
            n = np.repeat(el['nA'][:, :1], len(nodes.x), axis=-1)
            raw = ref.f64(ref.ecef(n, HEIGHTS[1], *alph.ELLIPSOIDS[ell]))[:, None, :]
            jobs.append((['up'], nodes, raw, np.full((1, len(nodes.x)), 0.5)))
        for ways, nodes, raw, near in jobs:
            L, k = len(ways), len(nodes.x)
            out = answers(o, cx, arguments(o, el, p, flat(raw), L * k), single, L, k)
            verdict(rec, o, out, nodes, near, near, None, ['%s: way %s' % (bname, way) for way in ways])
            rec.cover(states=L * k, transitions=L * k, traces=L)
    rec.sample(op=name, moving=p)
