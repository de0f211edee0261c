import itertools
from mc.common import *

BOUNDS = """all ordered pairs over alphabets of positions and frames of every class (GeoPoint, Nvector, ECEFvector, Pvector, FrameE, FrameN, FrameL, FrameB)
that differ in every subset of components by amounts of 100 tolerances up to order one, or not at all, or by rounding; longitudes on several turns; all
single-element changes (also sign flips, exchanged components, rolled arrays) of arrays of length 1-5 (longer, to 1001: one change); all pairs of attitudes with angles of equal size; all pairs of unrelated kinds; all triples (transitivity); after every single use of the objects.
Oracle: equality of the component tuples the objects were built from."""

TURN = 2 * np.pi
VERSION = -1       # which of the constructors of equal frames is used (they differ in name)


def frames_alphabet(big):
    out = []      # (key, constructor)
    for (a, ka), (f, kf), ax, name in itertools.product([(6378137.0, 0), (6378137.0 + 1e-3, 1), (6371009.0, 2)],
                                                        [(1 / 298.257223563, 0), (1 / 298.257223563 + 1e-11, 1), (0.0, 2)], 'eE', ('WGS84', 'x')):
        if name == 'x' and not big and ka:
            continue
        out.append(((ka, kf, ax), lambda a=a, f=f, ax=ax, name=name: nv.FrameE(a=a, f=f, axes=ax, name=name)))
    out.append(((0, 0, 'e'), lambda: nv.FrameE()))
    out.append(((0, 0, 'E'), lambda: nv.FrameE(name='wgs84', axes='E')))
    return out


def fr_some():
    F = frames_alphabet(False)
    picked = {}
    for key, mkf in F:
        picked.setdefault(key, []).append(mkf)
    return [(k, v[VERSION % len(v)]) for k, v in picked.items() if k in ((0, 0, 'e'), (0, 0, 'E'), (1, 0, 'e'), (0, 1, 'e'))]


LAT = [(0.0, 0), (1e-12, 1), (0.5, 2), (0.5 + 1e-11, 3), (-0.5, 4), (np.pi / 2, 5), (0.5 + 1e-16, 2)]
LON = [(0.0, 0), (TURN, 0), (-2e-12, 1), (1.0, 2), (1.0 + TURN, 2), (1.0 - TURN, 2), (-1.0, 3), (np.pi, 4), (-np.pi, 4), (np.pi - 1e-9, 5), (2.0 - np.pi, 6),
       (2.0 - np.pi + 3 * TURN, 6), (1.0 + 1e-11, 7)]
Z = [(0.0, 0), (1e-11, 1), (100.0, 2), (100.0 + 1e-7, 3), (-100.0, 4), (100.0 + 1e-13, 2), (7.0, 5)]


def geo_alphabet(big):
    out = []
    for (la, ka), (lo, ko), (z, kz) in itertools.product(LAT, LON, Z):
        if not big and (ka + 2 * ko + 3 * kz) % 4 and not (ka, ko, kz) in ((2, 2, 2), (2, 2, 3), (3, 2, 2), (2, 7, 2)):
            continue
        for n, (kf, mkf) in enumerate(fr_some()):
            if n and not (ka in (2, 3) and ko in (2, 4) and kz in (2, 0)):
                continue
            out.append((('geo', ka, ko, kz, kf), lambda la=la, lo=lo, z=z, mkf=mkf: mkf().GeoPoint(la, lo, z)))
    return out


def nvec_alphabet(big):
    out = []
    for (n, kn), (z, kz) in itertools.product([((1.0, 0, 0), 0), ((1.0, 1e-12, 0), 1), ((1.0, 0, -1e-12), 2), ((1.0 - 1e-10, 0, 0), 3), ((0, 1.0, 0), 4), ((0, 0, 1.0), 5),
                                               ((-1.0, 0, 0), 6), ((0.6, 0.8, 0.0), 7), ((0.6 + 1e-16, 0.8, 0.0), 7), ((0.8, 0.6, 0.0), 8), ((2.0, 0, 0), 9)], Z):
        for kf, mkf in fr_some():
            out.append((('nvec', kn, kz, kf), lambda n=n, z=z, mkf=mkf: mkf().Nvector(np.array(n).reshape(3, 1), z)))
    return out


def ecef_alphabet(big):
    out = []
    base = [6.4e6, 1e3, -30.0]
    V = [(base, 0)]
    for i in range(3):
        for d, tag in ((1e-10 * abs(base[i]), 'small'), (-2 * base[i], 'negated'), (1e-14 * base[i], 'rounding')):
            v = list(base)
            v[i] += d
            V.append((v, 0 if tag == 'rounding' else (i, tag)))
    V.append(([0.0, 0.0, 0.0], 'zero'))
    for v, kv in V:
        for kf, mkf in fr_some():
            out.append((('ecef', kv, kf), lambda v=v, mkf=mkf: mkf().ECEFvector(np.array(v).reshape(3, 1))))
            if kf in ((0, 0, 'e'), (1, 0, 'e')):
                for lat in (0.2, 0.2 + 1e-9):
                    out.append((('pvec', kv, kf, lat), lambda v=v, mkf=mkf, lat=lat: nv.FrameN(mkf().GeoPoint(lat, 0.4)).Pvector(np.array(v).reshape(3, 1))))
    return out


def local_alphabet(big):
    out = []
    for (la, ka), (lo, ko), (z, kz) in itertools.product([(0.2, 0), (0.2 + 1e-9, 1), (-1.3, 2), (0.2, 0), (0.0, 3), (-0.2, 4)], [(0.4, 0), (0.4 - 1e-9, 1), (3.0, 2)], [(0.0, 0), (50.0, 1)]):
        for kf, mkf in fr_some():
            P = lambda la=la, lo=lo, z=z, mkf=mkf: mkf().GeoPoint(la, lo, z)
            if not big and kf[0] + kf[1] and ka + ko > 1:
                continue
            out.append((('N', ka, ko, kf), lambda P=P: nv.FrameN(P())))
            for wa, kw in ((0.3, 1), (0.3 + 1e-9, 2), (-0.3, 3), (0.3 + TURN, 1), (np.pi - 0.3, 4), (2.0, 5)):
                if not big and kw > 2 and ko:
                    continue
                out.append((('L', ka, ko, kf, kw), lambda P=P, wa=wa: nv.FrameL(P(), wa)))
            for ypr, kb in (((0.1, 0.2, 0.3), 0), ((0.1 + 1e-9, 0.2, 0.3), 1), ((0.1, 0.2 - 1e-9, 0.3), 2), ((0.1, 0.2, 0.3 + 1e-9), 3), ((0.3, 0.2, 0.1), 4),
                            ((-0.1, 0.2, 0.3), 5), ((0.1, -0.2, 0.3), 6), ((0.1, 0.2, -0.3), 7), ((0.0, 0.2, 0.0), 8), ((0.0, -0.2, 0.0), 9), ((0.2, 0.0, 0.0), 10),
                            ((-0.2, 0.0, 0.0), 11), ((0.0, 0.0, 0.2), 12), ((0.0, 0.0, -0.2), 13), ((0.0, 0.0, 0.0), 14), ((0.0, np.pi / 2, 0.2), 15),
                            ((0.0, -np.pi / 2, 0.2), 16), ((0.2, np.pi / 2, 0.4), 17)):
                if not big and kb > 3 and (ko or ka) or kb > 7 and (ko or ka or kz):
                    continue
                out.append((('B', ka, ko, kz, kf, kb), lambda P=P, ypr=ypr: nv.FrameB(P(), *ypr)))
    return out


def attitude_alphabet(big):
    """body and level frames whose angles differ in size, sign or supplement, at positions whose axes are aligned with those of E and at one that is not"""
    out = []
    turn = (0.0, 0.3, -0.3)
    yaws = turn + ((np.pi - 0.3, np.pi / 2, -np.pi / 2) if big else (np.pi - 0.3,))
    for (la, ka), (lo, ko) in itertools.product([(0.0, 0), (0.2, 1), (-0.2, 2)], [(0.0, 0), (np.pi / 2, 1), (0.4, 2)]):
        if not big and ka + ko not in (0, 1, 3):
            continue
        P = lambda la=la, lo=lo: nv.FrameE().GeoPoint(la, lo)
        for y in yaws:
            out.append((('L', ka, ko, y), lambda P=P, y=y: nv.FrameL(P(), y)))
            for p, r in itertools.product(turn, turn):
                out.append((('B', ka, ko, y, p, r), lambda P=P, y=y, p=p, r=r: nv.FrameB(P(), y, p, r)))
    return out


ALPH = dict(attitude=attitude_alphabet, geo=geo_alphabet, nvec=nvec_alphabet, ecef=ecef_alphabet, local=local_alphabet, frameE=frames_alphabet)


def tasks(tier):
    big = tier != 'quick'
    out = []
    for name in ALPH:
        n = len(ALPH[name](big))
        step = max(1, 20000 // n)
        out += [('pairs', dict(name=name, big=big, i0=i, i1=min(n, i + step))) for i in range(0, n, step)]
    for cls in ('geo', 'nvec', 'ecef', 'pvec', 'B', 'L'):
        out.append(('elements', dict(cls=cls, n=6 if big else 5)))
        out.append(('longer', dict(cls=cls)))
    out.append(('unrelated', {}))
    out += [('history', dict(part=i)) for i in range(4)]
    out += [('rounding', dict(big=big, part=i)) for i in range(6)]
    return out


def verdict(rec, x, y, msg, **info):
    """x == y, checked to be a truth value and the opposite of x != y"""
    e, n = x == y, x != y
    rec.ok(isinstance(e, (bool, np.bool_)) and isinstance(n, (bool, np.bool_)), 'comparison gives a truth value', got=repr((e, n))[:100], **info)
    rec.ok(bool(e) != bool(n), '!= is the opposite of ==', **info)
    return bool(e)


def pairs(rec, name, big, i0, i1):
    A = ALPH[name](big)
    objs = [m() for _, m in A]
    try:
        globals()['VERSION'] = 0
        others = [m() for _, m in ALPH[name](big)]         # separately built equals, on frames of another name
    finally:
        globals()['VERSION'] = -1
    for i in range(i0, i1):
        ki, x = A[i][0], objs[i]
        rec.ok(verdict(rec, x, x, 'self'), 'an object equals itself', key_=ki)
        for j, y in enumerate(others):
            kj = A[j][0]
            want = ki == kj
            got = verdict(rec, x, y, 'pair')
            rec.ok(got == want, 'equal exactly when all components are equal', left=str(ki), right=str(kj), got=got, want=want)
            back = bool(y == x)
            rec.ok(back == got, 'symmetric', left=str(ki), right=str(kj))
            rec.cover(states=1, transitions=3, traces=1)
            rec.outcome('equal' if want else 'unequal')
    rec.sample(alphabet=name, size=len(A), first=str(A[0][0]))


def builder(cls):
    fr = nv.FrameE()

    def build(c):
        c = [np.array(v) for v in c]
        if cls == 'geo':
            return fr.GeoPoint(c[0], c[1], c[2])
        if cls == 'nvec':
            return fr.Nvector(np.stack(c[:3]), c[3])
        if cls == 'ecef':
            return fr.ECEFvector(np.stack(c[:3]) * 1e6)
        P = nv.FrameE().GeoPoint(c[0], c[1], c[2])
        if cls == 'pvec':
            return nv.FrameN(fr.GeoPoint(0.3, 0.4)).Pvector(np.stack(c[:3]))
        if cls == 'L':
            return nv.FrameL(P, c[3])
        return nv.FrameB(P, c[3], c[4], c[5])
    return build, dict(geo=3, nvec=4, ecef=3, pvec=3, L=4, B=6)[cls]


def longer(rec, cls):
    """one changed element anywhere in a long array"""
    build, ncomp = builder(cls)
    for k in list(range(6, 131, 7)) + [16, 30, 32, 50, 64, 100, 128, 256, 257, 500, 1000, 1001]:
        base = [0.4 + 0.3 * np.cos(np.arange(k) * (c + 1.3) + c) for c in range(ncomp)]
        x = build(base)
        rec.ok(verdict(rec, x, build(base), 'array'), 'equal arrays are equal', cls=cls, length=k)
        for c in range(ncomp):
            if cls == 'L' and c == 2:
                continue
            for i in range(k) if k <= 130 and c == k % ncomp else [0, 1, 2, 9, k // 2, k - 2, k - 1]:
                i = min(i, k - 1)
                for d in (1e-9, -2.0):
                    v = [np.array(b) for b in base]
                    v[c][i] += d
                    y = build(v)
                    rec.ok(not verdict(rec, x, y, 'array') and not verdict(rec, y, x, 'array'), 'one changed element makes long arrays unequal', cls=cls, component=c, element=i, length=k, change=d)
                    rec.cover(states=1, transitions=2, traces=1)


def elements(rec, cls, n):
    """one changed element of one component makes arrays unequal"""
    build, ncomp = builder(cls)
    for k in range(1, n + 1):
        base = [[0.1 * (i + 1) + 0.07 * c for i in range(k)] for c in range(ncomp)]
        x = build(base)
        rec.ok(verdict(rec, x, build(base), 'array'), 'equal arrays are equal', cls=cls, length=k)
        for c in range(ncomp):
            if cls == 'L' and c == 2:
                continue          # the depth of a level frame is not part of it
            for i in range(k):
                for d in (1e-9, -1e-9, 0.3, -2.0):
                    v = [list(b) for b in base]
                    v[c][i] += d
                    y = build(v)
                    rec.ok(not verdict(rec, x, y, 'array'), 'one changed element makes arrays unequal', cls=cls, component=c, element=i, length=k, change=d)
                    rec.ok(not verdict(rec, y, x, 'array'), 'one changed element makes arrays unequal', cls=cls, component=c, element=i, length=k, change=d)
                    rec.cover(states=1, transitions=2, traces=1)
            # changes that leave lengths, or sets of values, as they are
            for i in range(k):
                v = [list(b) for b in base]
                v[c][i] = -v[c][i]
                y = build(v)
                rec.ok(not verdict(rec, x, y, 'array') and not verdict(rec, y, x, 'array'), 'one negated element makes arrays unequal', cls=cls, component=c, element=i, length=k)
                rec.cover(states=1, transitions=2, traces=1)
                for c2 in range(c + 1, ncomp):
                    if cls == 'L' and 2 in (c, c2) and 3 in (c, c2):
                        continue
                    v = [list(b) for b in base]
                    v[c][i], v[c2][i] = v[c2][i], v[c][i]
                    y = build(v)
                    rec.ok(not verdict(rec, x, y, 'array') and not verdict(rec, y, x, 'array'), 'exchanged components of one element make arrays unequal', cls=cls,
                           components=(c, c2), element=i, length=k)
                    rec.cover(states=1, transitions=2, traces=1)
            if k > 1:
                y = build([np.roll(b, 1) for b in base])
                rec.ok(not verdict(rec, x, y, 'array') and not verdict(rec, y, x, 'array'), 'rolled arrays are unequal', cls=cls, length=k)
            # two changes that cancel in the sum
            for i, j in itertools.permutations(range(k), 2):
                v = [list(b) for b in base]
                v[c][i], v[c][j] = v[c][j], v[c][i]
                rec.ok(not verdict(rec, x, build(v), 'array'), 'exchanged elements make arrays unequal', cls=cls, component=c, length=k)
                rec.cover(states=1, transitions=2, traces=1)


def zoo():
    fr = nv.FrameE()
    p = fr.GeoPoint(0.0, 0.0, 0.0)
    q = fr.GeoPoint(0.3, 1.0, -4.0)
    return [('GeoPoint', p), ('GeoPoint', q), ('Nvector', p.to_nvector()), ('Nvector', q.to_nvector()), ('ECEF', p.to_ecef_vector()), ('ECEF', q.to_ecef_vector()),
            ('FrameE', fr), ('FrameE', nv.FrameE(axes='E')), ('FrameN', nv.FrameN(p)), ('FrameN', nv.FrameN(q)), ('FrameL', nv.FrameL(p, 0.4)),
            ('FrameB', nv.FrameB(p)), ('FrameB', nv.FrameB(p, 0.4)), ('FrameB', nv.FrameB(q, 0.1, 0.2, 0.3)),
            ('Pvector', nv.delta_N(p, q)), ('Pvector', nv.delta_L(p, q, 0.4)), ('GeoPath', nv.GeoPath(p, q)),
            ('other', 0), ('other', 1.5), ('other', 'x'), ('other', None), ('other', (0.0, 0.0)), ('other', {}), ('other', object())]


def unrelated(rec):
    A, B = zoo(), zoo()
    for (ka, x), (kb, y) in itertools.product(A, B):
        if ka == kb or ka == 'other':
            continue
        rec.ok(not verdict(rec, x, y, 'kinds'), 'objects of unrelated kinds are unequal', left=ka, right=kb)
        if kb != 'other':
            rec.ok(not verdict(rec, y, x, 'kinds'), 'objects of unrelated kinds are unequal', left=kb, right=ka)
        rec.cover(states=1, transitions=2, traces=1)
    # a wander frame with no wander is a north frame or is not, but both ways alike
    fr = nv.FrameE()
    p = fr.GeoPoint(0.3, 1.0, -4.0)
    for x, y in itertools.permutations([nv.FrameN(p), nv.FrameL(p), nv.FrameL(p, 0.0), nv.FrameB(p), nv.FrameB(fr.GeoPoint(0.3, 1.0))], 2):
        rec.ok(verdict(rec, x, y, 'kinds') == verdict(rec, y, x, 'kinds'), 'symmetric between kinds of local frame', left=type(x).__name__, right=type(y).__name__)


USES = [lambda p: p.to_nvector(), lambda p: p.to_ecef_vector(), lambda p: p.to_geo_point(), lambda p: repr(p), lambda p: p.frame == nv.FrameE(),
        lambda p: p.to_geo_point().displace(1e5, 1.0), lambda p: p.to_geo_point().displace(1e5, 1.0, method='greatcircle'),
        lambda p: nv.delta_N(p, p.to_nvector() if False else p.frame.GeoPoint(0.1, 0.2)), lambda p: nv.FrameB(p, 1, 2, 3).R_EN,
        lambda p: nv.GeoPath(p, p.frame.GeoPoint(0.1, 0.2)).track_distance(), lambda p: p == 3, lambda p: p != p]


def history(rec, part):
    """what was done with an object before does not matter; routes to the same value are equal"""
    for lat, lon, z in alph.POSITIONS[part::4]:
        for axes in 'eE':
            mk1 = lambda: nv.FrameE(axes=axes).GeoPoint(lat, lon, z, degrees=True)
            for conv in (lambda p: p, lambda p: p.to_nvector(), lambda p: p.to_ecef_vector()):
                for u, w in itertools.product(USES, USES):
                    x, y, w_ = conv(mk1()), conv(mk1()), None
                    u(x)
                    w(x)
                    rec.ok(verdict(rec, x, y, 'used') and verdict(rec, y, x, 'used'), 'a used object equals a fresh one', lat=lat, lon=lon)
                    rec.cover(states=1, transitions=3, traces=1)
            p = mk1()
            n = p.to_nvector()
            rec.ok(n.to_geo_point().to_nvector() == n, 'n-vector equals itself after conversion to latitude and longitude and back', lat=lat, lon=lon)
            if abs(lat) < 89.99999:
                rec.ok(n.to_geo_point() == p, 'GeoPoint equals itself after conversion to n-vector and back', lat=lat, lon=lon)
            rec.ok(mk1() == nv.FrameE(axes=axes).GeoPoint(np.radians(lat), np.radians(lon), z), 'degrees or radians', lat=lat)
            for turns in (-2, -1, 1, 2):
                q = nv.FrameE(axes=axes).GeoPoint(lat, lon + 360.0 * turns, z, degrees=True)
                rec.ok(q == p and p == q, 'longitudes modulo a turn', lat=lat, lon=lon, turns=turns)


def rounding(rec, big, part):
    """a step of one unit in the last place never makes objects unequal; 100 tolerances always do; every lattice position"""
    las = alph.lats(1 if big else 0)
    los = alph.lons(1 if big else 0)
    fr, fr2 = nv.FrameE(), nv.FrameE(name='other', a=6378137.0, f=1 / 298.257223563)
    for la, lo in itertools.product(las[part::6], los):
        if abs(lo) > 9:
            continue
        for z in (0.0, -3.0, 1e5):
            p = fr.GeoPoint(la, lo, z)
            for dla, dlo, dz in itertools.product((-np.inf, 0, np.inf), repeat=3):
                up = lambda v, d: np.nextafter(v, d) if d else v
                q = fr2.GeoPoint(up(la, dla), up(lo, dlo), up(z, dz))
                rec.ok(p == q and q == p, 'rounding does not matter', lat=la, lon=lo, z=z)
                rec.cover(states=1, transitions=2, traces=1)
            for c in range(3):
                for d in (1e-12, -1e-12, 1e-9, -1e-9, 1e-3, -0.01, 1.0):
                    v = [la, lo, z]
                    v[c] += d if c < 2 else d * max(abs(z), 1) * 100
                    q = fr2.GeoPoint(*v)
                    rec.ok(not (p == q) and not (q == p) and p != q, 'small differences are seen', lat=la, lon=lo, z=z, component=c, change=d)
                    rec.cover(states=1, transitions=3, traces=1)
                    if abs(d) in (1e-9, 0.01, 1.0):
                        one, two, three = ([t] for t in (la, lo, z)), ([t, t] for t in (la, lo, z)), ([0.2, t, 0.2] for t in (la, lo, z))
                        one_, two_, three_ = ([t] for t in v), ([t, u] for t, u in zip(v, (la, lo, z))), ([0.2, t, 0.2] for t in v)
                        for how, x, y in (('one', one, one_), ('two', two, two_), ('three', three, three_), ('one against two', ([t] for t in (la, lo, z)), ([u, t] for t, u in zip(v, (la, lo, z))))):
                            x, y = fr.GeoPoint(*x), fr2.GeoPoint(*y)
                            rec.ok(x == x and not (x == y) and not (y == x) and x != y, 'small differences are seen in arrays', how=how, lat=la, lon=lo, z=z, component=c, change=d)
                            rec.cover(states=1, transitions=4, traces=1)
