import itertools
from fractions import Fraction as Fr
from mc.common import *

BOUNDS = """states are vectors of exact dyadic components (n-vectors with a depth, Earth-centred vectors; single, array, array of one; depth a number, an array or a list; float
and integer arrays; frames of either axes); transitions are sums and differences with every operand of a pool on either side, negation, multiplication by and division by
numbers (either side) and arrays, and their augmented assignments; every sequence up to a depth (quick 2, thorough 3). Oracle: exact rational vector algebra. In
every state: frame, kind, scalar flag, components, operands unchanged, products of two n-vectors refused, normalisation in place,
which is also applied to n-vectors of every length from 1e-100 to 1e100 and 1 +- 10^-k, alone and among others."""


def fmt(z):
    return tuple(Fr(float(v)) for v in np.ravel(z))


class Val(object):
    """model of a vector: columns of exact components, depth (None, a number or one per column)"""

    def __init__(self, cols, z, kind, single=None):
        self.cols, self.z, self.kind, self.single = tuple(tuple(c) for c in cols), z, kind, single

    def key(self):
        return (self.kind, self.cols, self.z, self.single)

    def scalar(self):
        if self.kind == 'ecef':
            return self.single
        return len(self.cols) == 1 and not isinstance(self.z, tuple)


def stretch(a, b):
    n = max(len(a), len(b)) if len(a) and len(b) else 0
    return (a * n if len(a) == 1 else a), (b * n if len(b) == 1 else b)


def zmap(f, a, b):
    if not isinstance(a, tuple) and not isinstance(b, tuple):
        return f(a, b)
    a, b = stretch(a if isinstance(a, tuple) else (a,), b if isinstance(b, tuple) else (b,))
    return tuple(f(x, y) for x, y in zip(a, b))


def combine(f, x, y):
    a, b = stretch(x.cols, y.cols)
    cols = tuple(tuple(f(u, v) for u, v in zip(p, q)) for p, q in zip(a, b))
    if x.kind == 'ecef':
        return Val(cols, None, 'ecef', x.single and y.single)
    return Val(cols, zmap(f, x.z, y.z), 'nvec')


def scaled(f, x, s):
    """every component and the depth by a number, or by one number per column"""
    if not isinstance(s, tuple):
        return Val([tuple(f(u, s) for u in c) for c in x.cols], zmap(f, x.z, s), 'nvec')
    cols, t = stretch(x.cols, s)
    return Val([tuple(f(u, v) for u in c) for c, v in zip(cols, t)], zmap(f, x.z, s), 'nvec')


def negative(x):
    z = None if x.kind == 'ecef' else tuple(-v for v in x.z) if isinstance(x.z, tuple) else -x.z
    return Val([tuple(-u for u in c) for c in x.cols], z, x.kind, x.single)


NV = {'one': (((3, -5, 2),), 7), 'one of array depth': (((-1, 4, 6),), (5,)), 'three': (((1, 2, -3), (0, -7, 5), (4, 4, 1)), (6, -2, 9)),
      'three of one depth': (((2, 0, 1), (-3, 5, 8), (7, -1, 0)), -3), 'zero': (((0, 0, 0),), 0), 'integers': (((8, 16, -24), (40, 0, 8), (-8, 32, 16)), (8, -16, 0)),
      'listed depths': (((1, 1, 2), (3, 0, -4), (5, -6, 2)), (1, 2, 4)), 'integer depth': (((5, 3, 1),), 16)}
EC = {'one': (((300, -500, 200),), True), 'one flagged array': (((-100, 900, 400),), False), 'three': (((300, -500, 200), (1, 2, 3), (-7, 0, 64)), False),
      'integers': (((8, 16, -24), (40, 0, 8), (-8, 32, 16)), False), 'zero': (((0, 0, 0),), True)}
NUMBERS = {'2': 2, '-0.5': -0.5, '4.0': 4.0, 'np 0.25': np.float64(0.25), 'int64': np.int64(-2), '0-d': np.array(8.0)}
ARRAYS = {'three': (2.0, -0.5, 4.0), 'one': (-2.0,)}


def frame_of(axes):
    return nv.FrameE(name='WGS72', axes=axes) if axes == 'E' else nv.FrameE(a=6371009.0, f=0.0)


def build(kind, name, fr):
    """(model, fresh object)"""
    if kind == 'nvec':
        cols, z = NV[name]
        cols = [[Fr(u, 8) for u in c] for c in cols]
        zm = tuple(Fr(v, 8) for v in z) if isinstance(z, tuple) else Fr(z, 8)
        m = Val(cols, zm, 'nvec')
        a = np.array([[float(u) for u in c] for c in cols]).T
        zz = np.array([float(v) for v in zm]) if isinstance(zm, tuple) else float(zm)
        if name == 'integers':
            a, zz = a.astype(int), zz.astype(int)
        elif name == 'listed depths':
            zz = list(zz)
        elif name == 'integer depth':
            zz = int(zz)
        return m, fr.Nvector(a, zz)
    cols, single = EC[name]
    a = np.array(cols, dtype=int if name == 'integers' else float).T
    m = Val([[Fr(int(u)) for u in c] for c in cols], None, 'ecef', single)
    return m, nv.ECEFvector(a, fr, single) if not single else fr.ECEFvector(a)


def compatible(x, y):
    a, b = len(x.cols), len(y.cols)
    return a == b or a == 1 or b == 1


ADD, SUB, MUL, DIV = (lambda u, v: u + v), (lambda u, v: u - v), (lambda u, v: u * v), (lambda u, v: u / v)


def iadd(x, y):
    x += y
    return x


def isub(x, y):
    x -= y
    return x


def imul(x, y):
    x *= y
    return x


def idiv(x, y):
    x /= y
    return x


def actions(kind, fr):
    """name -> (model, object) -> (model, object, operands)"""
    out = {}

    def pair(label, f, g, swap=False):
        for name in (NV if kind == 'nvec' else EC):
            def act(m, x, name=name):
                my, y = build(kind, name, fr)
                if not compatible(m, my):
                    return None
                if swap:
                    return combine(f, my, m), g(y, x), (y, my)
                return combine(f, m, my), g(x, y), (y, my)
            out['%s %s' % (label, name)] = act
    pair('+', ADD, ADD)
    pair('-', SUB, SUB)
    pair('from', SUB, SUB, True)
    pair('onto', ADD, ADD, True)
    pair('+=', ADD, iadd)
    pair('-=', SUB, isub)
    out['twice itself'] = lambda m, x: (combine(ADD, m, m), x + x, None)
    out['minus itself'] = lambda m, x: (combine(SUB, m, m), x - x, None)
    out['-x'] = lambda m, x: (negative(m), -x, None)
    if kind == 'nvec':
        for n, s in NUMBERS.items():
            fs = Fr(float(s))
            out['* ' + n] = lambda m, x, s=s, fs=fs: (scaled(MUL, m, fs), x * s, None)
            out['/ ' + n] = lambda m, x, s=s, fs=fs: (scaled(DIV, m, fs), x / s, None)
            out['*= ' + n] = lambda m, x, s=s, fs=fs: (scaled(MUL, m, fs), imul(x, s), None)
            out['/= ' + n] = lambda m, x, s=s, fs=fs: (scaled(DIV, m, fs), idiv(x, s), None)
            if isinstance(s, (int, float)) and not isinstance(s, np.generic):
                out[n + ' *'] = lambda m, x, s=s, fs=fs: (scaled(MUL, m, fs), s * x, None)
        for n, s in ARRAYS.items():
            fs = tuple(Fr(v) for v in s)
            a = np.array(s)
            fits = lambda m, fs=fs: len(m.cols) in (1, len(fs)) or len(fs) == 1
            out['* array ' + n] = lambda m, x, a=a, fs=fs, fits=fits: (scaled(MUL, m, fs), x * a, None) if fits(m) else None
            out['/ array ' + n] = lambda m, x, a=a, fs=fs, fits=fits: (scaled(DIV, m, fs), x / a, None) if fits(m) else None
    return out


def agrees(rec, m, x, fr, msg, **info):
    """the object is the one the model says"""
    cls = nv.Nvector if m.kind == 'nvec' else nv.ECEFvector
    if not rec.ok(isinstance(x, cls), msg + ': kind', got=type(x).__name__, **info):
        return False
    a = np.asarray(x.normal if m.kind == 'nvec' else x.pvector)
    good = rec.ok(a.shape == (3, len(m.cols)), msg + ': shape', got=a.shape, want=(3, len(m.cols)), **info)
    good = good and rec.ok(all(Fr(float(a[i, j])) == m.cols[j][i] for i in range(3) for j in range(len(m.cols))), msg + ': components',
                           got=a.tolist(), want=[[float(u) for u in c] for c in m.cols], **info)
    if m.kind == 'nvec':
        shape = (len(m.z),) if isinstance(m.z, tuple) else ()
        good = good and rec.ok(np.shape(x.z) == shape, msg + ': depth shape', got=np.shape(x.z), want=shape, **info)
        good = good and rec.ok(fmt(x.z) == (m.z if isinstance(m.z, tuple) else (m.z,)), msg + ': depth', got=repr(x.z), want=str(m.z), **info)
    rec.ok(bool(x.scalar) == bool(m.scalar()), msg + ': scalar flag', got=bool(x.scalar), want=bool(m.scalar()), **info)
    rec.ok(x.frame == fr and x.frame.a == fr.a and x.frame.f == fr.f and np.array_equal(x.frame.R_Ee, fr.R_Ee), msg + ': frame', **info)
    return good


def refused(rec, fn, msg, **info):
    try:
        r = fn()
    except NotImplementedError:
        rec.ok(True, msg)
    except Exception as e:
        rec.ok(False, msg + ' with NotImplementedError', raised=repr(e)[:100], **info)
    else:
        rec.ok(False, msg, got=type(r).__name__, **info)


def in_state(rec, m, x, fr, **info):
    """what holds in every state reached"""
    if m.kind != 'nvec':
        return
    other = fr.Nvector(np.array([[0.5], [0.25], [1.0]]), 2.0)
    refused(rec, lambda: x * other, 'the product of two n-vectors is refused', **info)
    refused(rec, lambda: other * x, 'the product of two n-vectors is refused', **info)
    refused(rec, lambda: x / other, 'the quotient of two n-vectors is refused', **info)
    cols = np.array([[float(u) for u in c] for c in m.cols]).T
    y = x * 1
    if np.asarray(y.normal).dtype.kind == 'f':
        frame, z = y.frame, y.z
        got = y.unit()
        n = np.asarray(cols, dtype=np.longdouble)
        size = np.sqrt((n**2).sum(axis=0))
        zero = size == 0
        want = np.where(zero, np.array([[1], [0], [0]]), n / np.where(zero, 1, size))
        rec.ok(got is None, 'normalising in place gives no answer', **info)
        rec.close(y.normal, want, 4e-16, 'normalised in place')
        rec.ok(y.frame is frame and fmt(y.z) == (m.z if isinstance(m.z, tuple) else (m.z,)) and np.shape(y.z) == np.shape(z), 'normalising leaves frame and depth alone', **info)
        agrees(rec, m, x, fr, 'normalising a multiple leaves the original alone', **info)


def tasks(tier):
    depth = 2 if tier == 'quick' else 3
    out = [('normalise', dict(axes=ax, big=depth == 3)) for ax in 'eE']
    for axes, kind in itertools.product('eE', ('nvec', 'ecef')):
        fr = frame_of(axes)
        for name in (NV if kind == 'nvec' else EC):
            if depth == 2:
                out.append(('walk', dict(axes=axes, kind=kind, name=name, first=None, depth=depth)))
            else:
                out += [('walk', dict(axes=axes, kind=kind, name=name, first=a, depth=depth)) for a in actions(kind, fr)]
    return out


def normalise(rec, axes, big):
    """n-vectors of every length, singly and one among others"""
    fr = frame_of(axes)
    sizes = [1.0] + [1 + s * 10.0**-k for k in range(1, 17) for s in (1, -1)] + [10.0**k for k in range(-100, 101, 20 if not big else 4)] + [0.5, 2.0, 3.0, 0.1, 0.9, 1.1]
    dirs = [np.array(v, dtype=float) / np.sqrt(np.dot(v, v)) for v in ((1, 0, 0), (0, -1, 0), (0, 0, 1), (1, 2, 3), (-3, 1, 0.5), (1e-9, 1, -1), (1, -1e-170, 0))]
    for u, size in itertools.product(dirs, sizes):
        for place, z in itertools.product((None, 0, 1, 2), (0, -7.5, 'array')):
            n = u[:, None] * size if place is None else np.stack([u * size if i == place else dirs[3 + i] for i in range(3)], axis=1)
            depth = z if z != 'array' else np.arange(n.shape[1]) - 0.5
            given = n.copy()
            x = fr.Nvector(n, depth)
            for again in range(2):
                x.unit()
                big_n = given.astype(np.longdouble)
                rec.close(x.normal, big_n / np.sqrt((big_n**2).sum(axis=0)), 4e-16, 'normalised in place', size=size)
                rec.ok(x.frame is fr and np.shape(x.z) == np.shape(depth) and np.all(np.asarray(x.z) == depth), 'normalising leaves frame and depth alone', size=size)
                rec.ok(np.array_equal(n, given), 'normalising leaves the array the n-vector was made of alone', size=size)
                rec.cover(states=1, transitions=1, traces=1)
    rec.sample(directions=len(dirs), lengths=len(sizes))


def walk(rec, axes, kind, name, first, depth):
    fr = frame_of(axes)
    acts = actions(kind, fr)
    seen = {}

    def visit(m, x, path):
        k = m.key()
        left = depth - len(path)
        if seen.get(k, -1) < 0:
            in_state(rec, m, x, fr, path=path)
            rec.cover(states=1)
        if seen.get(k, -1) >= left or not left:
            seen.setdefault(k, left)
            return
        seen[k] = left
        for label, act in acts.items():
            if first is not None and not path and label != first:
                continue
            try:
                r = act(m, x)
            except Exception as e:
                rec.fail('vector arithmetic is defined: %s' % type(e).__name__, path=path + [label], error=repr(e)[:200])
                continue
            if r is None:
                continue
            my, y, operand = r
            rec.cover(transitions=1, traces=1)
            agrees(rec, m, x, fr, 'the left operand is unchanged', path=path + [label])
            if operand:
                agrees(rec, operand[1], operand[0], fr, 'the right operand is unchanged', path=path + [label])
            if agrees(rec, my, y, fr, 'result', path=path + [label], start=name):
                visit(my, y, path + [label])
    m, x = build(kind, name, fr)
    if agrees(rec, m, x, fr, 'created', name=name):
        visit(m, x, [])
    rec.sample(kind=kind, start=name, axes=axes, depth=depth, actions=len(acts))
