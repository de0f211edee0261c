import ast
import copy
import itertools
import pickle
import re
from mc.ops import *
from mc import c23

BOUNDS = """every object of the pool of C23 (frames, points, n-vectors, Cartesian and local vectors, local frames, paths; single and array; either axes) x duplicated by copy,
deep copy and every pickle protocol, alone and together with all others, x every history of one operation or reassignment before x every reassignment of an attribute, or change of
an array in place, on the original or on the duplicate after; every position and frame of the alphabets of C21; every kind of object as single, as arrays of 0-4, with and without an explicit single
flag, integers and floats, with everything derived from it. Oracle: the public attribute values the original had, answers of
every operation on freshly built objects of those values. Printed form: parsed back and compared with the public attribute values."""

COPIERS = dict([('copy', copy.copy), ('deepcopy', copy.deepcopy), ('twice', lambda x: copy.deepcopy(copy.copy(x)))]
               + [('pickle %d' % p, lambda x, p=p: pickle.loads(pickle.dumps(x, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)])
NAMES = [k for k in c23.pool() if k != 'arr']


def members(d):
    return {k: v for k, v in d.items() if k != 'arr'}


def equal(x, y):
    """the library's own verdict, where it has one"""
    if type(x).__name__ == 'GeoPath':
        return x.point_a == y.point_a and x.point_b == y.point_b
    return bool(x == y) and bool(y == x) and not (x != y)


def attributes(x):
    return {a: c23.val(getattr(x, a)) for a in c23.PUBLIC[type(x).__name__]}


def answers(d):
    return {k: c23.flat(c23.run(f, d)) for k, f in c23.OPS_.items()}


def compare(rec, got, want, msg, **info):
    for k in want:
        if c23.differ(got[k], want[k]):
            rec.fail(msg, op=k, got=repr(got[k])[:200], want=repr(want[k])[:200], **info)
            return
    rec.ok(True, msg)


HISTORIES = [None] + [('op', k) for k in c23.OPS_] + [('mut', k) for k in c23.MUT]


def tasks(tier):
    from mc import c21
    ways = ['copy', 'deepcopy', 'pickle 0', 'pickle %d' % pickle.DEFAULT_PROTOCOL] if tier == 'quick' else list(COPIERS)
    out = [('whole', dict(how=h, part=i, parts=6)) for h in ways for i in range(6)]
    out += [('after', dict(how=h, deep=tier != 'quick', part=i)) for h in ways for i in range(12)]
    for name in c21.ALPH:
        out += [('alphabet', dict(name=name, how=h, big=tier != 'quick')) for h in COPIERS]
    out += [('printed', dict(name=name, big=tier != 'quick')) for name in c21.ALPH]
    out += [('shapes', dict(how=h)) for h in COPIERS]
    out += [('printed_pool', dict(part=i)) for i in range(4)]
    return out


def whole(rec, how, part, parts):
    """the whole pool duplicated at once, and each object alone, after every history of one action"""
    f = COPIERS[how]
    for h in HISTORIES[part::parts]:
        d = c23.pool()
        if h:
            (c23.run(c23.OPS_[h[1]], d) if h[0] == 'op' else c23.MUT[h[1]](d))
        want = answers(c23.clone(d))
        before = c23.snap(d)
        dup = {k: f(v) for k, v in members(d).items()}
        rec.ok(c23.snap(d) == before, 'duplicating alters nothing', history=h)
        for k, v in dup.items():
            rec.ok(type(v) is type(d[k]) and v is not d[k] and attributes(v) == attributes(d[k]), 'a duplicate has the same type and values', name=k, history=h)
            rec.ok(equal(v, d[k]), 'a duplicate equals the original', name=k, history=h)
            rec.cover(states=1, traces=1)
        dup['arr'] = d['arr']
        compare(rec, answers(dup), want, 'duplicates give the answers of fresh objects', history=h)
        rec.ok(c23.snap(d) == before, 'using duplicates alters nothing of the originals', history=h)
        rec.cover(transitions=2 * len(c23.OPS_))
        if how != 'copy':
            together = f({'m': d})['m'] if how != 'twice' else copy.deepcopy(d)
            compare(rec, answers(together), want, 'objects duplicated together give the answers of fresh objects', history=h)
            rec.cover(transitions=len(c23.OPS_), traces=1)
    rec.sample(how=how, histories=len(HISTORIES), objects=len(NAMES))


def after(rec, how, deep, part):
    """independence: a change on one side is seen there and only there"""
    f = COPIERS[how]
    ops = list(c23.OPS_)
    muts = [k for k in c23.MUT if not k.startswith('arr')]
    for mut in muts[part::12]:
        used = ops if deep else ops[::6]
        for before_op, side in itertools.product([None] + used, ('original', 'duplicate')):
            d = c23.pool()
            if before_op:
                c23.run(c23.OPS_[before_op], d)
            obj = mut.split('.')[0]
            if how == 'copy':
                if 'in place' in mut:
                    continue           # a shallow copy shares its arrays
                dup = dict(d)          # the others still refer to the original; only the object itself is duplicated
                dup[obj] = f(d[obj])
            else:
                dup = copy.deepcopy(d) if how in ('deepcopy', 'twice') else f(d)
            x, y = (d, dup) if side == 'original' else (dup, d)
            if before_op:
                c23.run(c23.OPS_[before_op], y)
            keep, still = attributes(y[obj]), answers(c23.clone(y))
            c23.MUT[mut](x)
            rec.cover(states=1, traces=1)
            rec.ok(attributes(y[obj]) == keep, 'a change on one side is not seen on the other', mut=mut, side=side, before=before_op)
            if how == 'copy':
                compare(rec, answers(dup), answers(c23.clone(dup)), 'answers after a reassignment follow the values', mut=mut, side=side, before=before_op)
            else:
                compare(rec, answers(y), still, 'the other side still gives its answers', mut=mut, side=side, before=before_op)
                compare(rec, answers(x), answers(c23.clone(x)), 'answers after a reassignment follow the values', mut=mut, side=side, before=before_op)
            rec.cover(transitions=2 * len(c23.OPS_))
    rec.sample(how=how, reassignments=len(muts))


def alphabet(rec, name, how, big):
    from mc import c21
    f = COPIERS[how]
    for key, mk in c21.ALPH[name](big):
        x = mk()
        y = f(x)
        rec.ok(type(y) is type(x) and attributes(y) == attributes(x), 'a duplicate has the same type and values', key_=str(key))
        rec.ok(equal(x, y), 'a duplicate equals the original', key_=str(key))
        rec.cover(states=1, transitions=1, traces=1)
    rec.sample(alphabet=name, how=how)


def shapes_zoo():
    """every kind of object, single and as arrays of every small length, with and without an explicit single flag, integers and floats"""
    for frame in (nv.FrameE(), nv.FrameE(a=6.37e6, f=0.0), nv.FrameE(name='grs80', axes='E'), nv.FrameE(a=7, f=-0.25, name='')):
        a = float(frame.a)
        for k in (None, 0, 1, 2, 3, 4):
            m = 1 if k is None else k
            lat, lon, z = 0.3 + 0.2 * np.arange(m), 0.4 - 0.3 * np.arange(m), 1e-6 * a * np.arange(1, m + 1)
            cut = (lambda v: v[0]) if k is None else (lambda v: v)
            for whole in (False, True):
                la, lo, zz = (np.rint(v).astype(int) if whole else v for v in (lat, lon, z))
                yield 'geo', k, frame.GeoPoint(cut(la), cut(lo), cut(zz))
                yield 'geo, one depth', k, frame.GeoPoint(cut(la), cut(lo), 2)
                n = nv.lat_lon2n_E(lat, lon, frame.R_Ee)
                n = np.rint(n).astype(int) if whole else n
                yield 'nvec', k, frame.Nvector(n, cut(zz))
                yield 'nvec, one depth', k, frame.Nvector(n, 0)
                v = np.array([lat, lon, z]) * (10 if whole else 1)
                v = np.rint(v).astype(int) if whole else v
                for flag in (None, False) + ((True,) if m == 1 else ()):
                    yield 'ecef', k, frame.ECEFvector(v, scalar=flag)
                    for F in ((nv.FrameN, nv.FrameL, nv.FrameB) if m else ()):
                        at = F(frame.GeoPoint(cut(lat), cut(lon), 0))
                        yield 'pvec', k, nv.Pvector(v, at, flag)
                        yield 'pvec of one frame', k, nv.Pvector(v, F(frame.GeoPoint(0.1, 0.2)), flag)
                if m:
                    p = frame.GeoPoint(cut(la), cut(lo), cut(zz))
                    yield 'N', k, nv.FrameN(p)
                    yield 'L', k, nv.FrameL(p, 0.3)
                    yield 'L', k, nv.FrameL(p, cut(lat))
                    yield 'B', k, nv.FrameB(p, 10, -20, 30, degrees=True)
                    yield 'B', k, nv.FrameB(p, cut(lat), 0, cut(lon))
                    yield 'path', k, nv.GeoPath(p, frame.GeoPoint(0.9, 1.0, 3))
                    yield 'path', k, nv.GeoPath(p.to_nvector(), frame.GeoPoint(0.9, 1.0, 3).to_ecef_vector())
        yield 'E', None, frame


LOOKS = dict([(a, lambda x, a=a: getattr(x, a)) for a in ('scalar', 'length', 'azimuth', 'elevation', 'azimuth_deg', 'elevation_deg', 'latlon', 'latlon_deg', 'latitude_deg', 'longitude_deg', 'R_EN')]
             + [(a, lambda x, a=a: getattr(x, a)()) for a in ('to_ecef_vector', 'to_nvector', 'to_geo_point', '__neg__', 'mean', 'geo_points', 'nvectors', 'ecef_vectors', 'nvector_normals', 'track_distance')]
             + [('repr', lambda x: repr(x) if type(x).__name__ != 'GeoPath' else ''), ('hash kind', lambda x: type(x).__hash__ is None),
                ('extra', lambda x: sorted(k for k in vars(x) if not k.startswith('_'))), ('x + x', lambda x: x + x), ('x - x', lambda x: x - x), ('x * 2', lambda x: x * 2),
                ('delta', lambda x: x.delta_to(x)), ('change', lambda x: x.change_frame(nv.FrameN(x.frame.GeoPoint(0.1, 0.2))))])


def shapes(rec, how):
    """duplicates have values of the same kind and shape, and so have everything derived from them"""
    f = COPIERS[how]
    n = 0
    def look(x):
        out = {}
        for k, fn in LOOKS.items():
            try:
                with np.errstate(all='ignore'):
                    out[k] = val_(fn(x))
            except (ValueError, AttributeError, TypeError, IndexError, NotImplementedError) as e:
                out[k] = type(e).__name__
        return out
    def val_(v):
        return (type(v).__name__,) + tuple(val_(w) for w in v) if isinstance(v, (list, tuple)) else c23.val(v)
    for kind, k, x in shapes_zoo():
        want, kept = look(x), attributes(x)
        y = f(x)
        n += 1
        rec.ok(type(y) is type(x) and attributes(y) == attributes(x) == kept, 'a duplicate has the same kind, shape and values', kind=kind, length=k)
        if k != 0:
            rec.ok(equal(x, y), 'a duplicate equals the original', kind=kind, length=k)
        got = look(y)
        for a in want:
            rec.ok(got[a] == want[a], 'everything derived from a duplicate is as of the original', kind=kind, length=k, what=a, duplicate=str(got[a])[:150], original=str(want[a])[:150])
        rec.cover(states=1, transitions=len(want), traces=1)
    rec.sample(how=how, objects=n)


# ------------------------------------------------------------------------------------------------ printed forms
def parse(text):
    """the printed form, back into (class name, {attribute: value})"""
    def ev(n):
        if isinstance(n, ast.Call):
            return (n.func.id, {k.arg: ev(k.value) for k in n.keywords}) if n.func.id != 'array' else np.array(ev(n.args[0])).tolist()
        if isinstance(n, ast.Name):
            return {'nan': float('nan'), 'inf': float('inf')}[n.id]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -ev(n.operand)
        if isinstance(n, (ast.List, ast.Tuple)):
            return [ev(v) for v in n.elts]
        return ast.literal_eval(n)
    return ev(ast.parse(text, mode='eval').body)


def shown(rec, parsed, x, where):
    t = type(x).__name__
    if t in c23.PUBLIC:
        if not rec.ok(isinstance(parsed, tuple) and parsed[0] == t, 'the printed form names the class', where=where, got=repr(parsed)[:80], want=t):
            return
        for a in c23.PUBLIC[t]:
            if rec.ok(a in parsed[1], 'the printed form shows every public attribute', where=where, attribute=a):
                shown(rec, parsed[1][a], getattr(x, a), where + '.' + a)
        return
    want = np.asarray(x)
    if want.dtype.kind in 'fiub':
        got = np.asarray(parsed)
        rec.ok(got.shape == want.shape and np.array_equal(got.astype(float), want.astype(float), equal_nan=True), 'the printed form shows the value itself', where=where,
               got=repr(parsed)[:100], want=repr(x)[:100])
    else:
        rec.ok(parsed == x, 'the printed form shows the value itself', where=where, got=repr(parsed)[:100], want=repr(x)[:100])


def show(rec, x, where):
    before = c23.val(x)
    text, again, s = repr(x), repr(x), str(x)
    rec.ok(text == again == s, 'printing gives the same text each time', where=where)
    rec.ok(c23.val(x) == before, 'printing alters nothing', where=where)
    try:
        p = parse(text)
    except Exception as e:
        rec.fail('the printed form can be read back', where=where, text=text[:200], error=repr(e)[:80])
        return
    shown(rec, p, x, where)
    rec.cover(states=1, transitions=3, traces=1)


def printed(rec, name, big):
    from mc import c21
    for key, mk in c21.ALPH[name](big):
        show(rec, mk(), '%s %s' % (name, key))
    rec.sample(alphabet=name)


def printed_pool(rec, part):
    for h in HISTORIES[part::4]:
        d = c23.pool()
        for v in members(d).values():
            repr(v)
        if h:
            (c23.run(c23.OPS_[h[1]], d) if h[0] == 'op' else c23.MUT[h[1]](d))
        for k, v in members(d).items():
            if type(v).__name__ != 'GeoPath':
                show(rec, v, k)
                for y in (copy.copy(v), pickle.loads(pickle.dumps(v))):
                    rec.ok(repr(y) == repr(v), 'a duplicate prints alike', name=k)
    fr = nv.FrameE(axes='E')
    for lat, lon, z in itertools.product((0.1, -0.0, np.nan, 1e-300, np.pi / 2, np.float32(0.1), [0.1, np.nan], [[0.1, 0.2]]), (1 / 3, np.inf, -1e22), (0, 5, -np.inf, 1e-17)):
        show(rec, fr.GeoPoint(lat, lon, z), 'special')
    rec.sample(histories=len(HISTORIES))
