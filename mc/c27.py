import itertools
import math
import warnings
from fractions import Fraction
from mc.common import *

BOUNDS = """closeness: every ordered pair over an alphabet of signed special values (zeros, denormals, neighbours at ratios around every tolerance, huge, infinite,
NaN, integers) x tolerances x NaN flag x call form (scalars, arrays, lists, every broadcast of shapes), decided by exact rational arithmetic; normalisation: every
direction of an integer lattice x every power of ten -150..150 x zero and NaN columns at every place x substitute lengths; n-th root: n = 1..12 x every power of
ten and neighbourhoods of perfect powers; matrix products: every combination of matrix sizes 1-4 and trailing shapes, against explicit sums; degrees and radians;
nested containers up to depth 3 turned into lists."""

INF, NAN = float('inf'), float('nan')


def base_values(full):
    out = [0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 3.0, 5e-324, 1e-300, 1e-14, 1e-8, 1e-5, 1e-9, 1e10, 1e20, 1e300, 123.456, INF, -INF, NAN]
    rels = [1e-5, 1e-7, 1e-9, 1e-12, 1e-14] if full else [1e-7, 1e-9, 1e-12]
    for v in (1.0, 123.456, 1e10) + ((1e-8, 1e20) if full else ()):
        for r in rels:
            for m in (0.5, 0.999, 1.001, 2.0):
                out += [v * (1 + m * r), v * (1 - m * r)]
    for a in (1e-14, 1e-8):
        for m in (0.5, 0.999, 1.001, 2.0):
            out += [m * a, -m * a]
    out += [-1e10, -123.456, -1e-8]
    return alph.uniq(out)


def want_close(a, b, rtol, atol, equal_nan):
    """True, False or None (too near the limit to say after rounding)"""
    if a != a or b != b:
        return bool(equal_nan and a != a and b != b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    A, B = Fraction(a), Fraction(b)
    d = abs(A - B)
    tol = max(Fraction(atol), Fraction(rtol) * max(abs(A), abs(B)))
    if d == 0:
        return True
    if tol == 0:
        return False
    if abs(d / tol - 1) < Fraction(1, 10 ** 12) and not (d == tol == Fraction(atol)):
        return None
    return d <= tol


TOLS = [(1e-9, 0.0), (1e-7, 1e-14), (0.0, 0.0), (0.0, 1e-8), (1e-12, 1e-14), (1e-3, 0.0), (1e-5, 1e-8), (0.0, 1.0), (0.5, 0.0), (1.0, 0.0), (1.5, 1e-3), (2.0, 0.0), (7.0, 0.0), (0.0, 1e3)]


def tasks(tier):
    q = tier == 'quick'
    out = [('closeness', dict(tol=t, equal_nan=e, full=not q)) for t in range(len(TOLS)) for e in (False, True)]
    out += [('close_forms', dict(full=not q)), ('units', dict(full=not q)), ('roots', dict(full=not q)), ('angles', dict(full=not q)), ('lists', {}), ('warns', {})]
    out += [('products', dict(i=i, full=not q)) for i in (1, 2, 3, 4)]
    return out


def closeness(rec, tol, equal_nan, full):
    rtol, atol = TOLS[tol]
    vals = base_values(full)
    n = len(vals)
    kw = dict(rtol=rtol, atol=atol, equal_nan=equal_nan)
    a, b = [m.ravel() for m in np.meshgrid(vals, vals, indexing='ij')]
    want = [want_close(x, y, rtol, atol, equal_nan) for x, y in zip(a.tolist(), b.tolist())]
    sure = np.array([w is not None for w in want])
    w = np.array([bool(x) for x in want])
    got = util.isclose(a, b, **kw)
    rec.ok(getattr(got, 'dtype', None) == bool and got.shape == a.shape, 'one truth value per element', got=repr(got)[:100])
    rec.holds((np.asarray(got) == w) | ~sure, 'isclose', a=a, b=b, wanted=w, answer=got)
    back = util.isclose(b, a, **kw)
    rec.holds(np.asarray(got) == back, 'isclose is symmetric', a=a, b=b)
    rec.outcome('close', np.sum(w & sure))
    rec.outcome('not close', np.sum(~w & sure))
    rec.outcome('too near the limit to say', np.sum(~sure))
    for k in range(n * n):
        if not full and k % 7 and sure[k] and a[k] == a[k] and abs(a[k]) < 1e3:
            continue
        x, y = float(a[k]), float(b[k])
        g = util.isclose(x, y, **kw)
        h = util.allclose(x, y, **kw)
        rec.ok(np.ndim(g) == 0 and np.ndim(h) == 0, 'scalars give one truth value')
        if sure[k]:
            rec.ok(bool(g) == w[k], 'isclose of scalars', a=x, b=y, want=bool(w[k]))
            rec.ok(bool(h) == w[k], 'allclose of scalars', a=x, b=y, want=bool(w[k]))
        rec.cover(states=1, transitions=2, traces=1)
    rec.cover(states=n * n, transitions=2, traces=1)
    rec.sample(values=n, rtol=rtol, atol=atol)


def close_forms(rec, full):
    """shapes, lists, integers, default tolerances, all elements of an array count"""
    vals = [0.0, 1.0, 1.0 + 1e-8, 1.0 + 2e-7, -1.0, NAN, INF, 1e-15, 3, 7]
    shapes = [(), (1,), (3,), (2, 1), (2, 3), (1, 3), (2, 2, 3), (0,), (2, 0)]
    for off in range(len(vals)):
        for sa, sb in itertools.product(shapes, shapes):
            try:
                out = np.broadcast_shapes(sa, sb)
            except ValueError:
                continue
            na, nb = int(np.prod(sa)), int(np.prod(sb))
            a = np.array([vals[(off + k) % len(vals)] for k in range(na)], dtype=float).reshape(sa)
            for off2 in (off, off + 1, off + 3):
                b = np.array([vals[(off2 + 2 * k) % len(vals)] for k in range(nb)], dtype=float).reshape(sb)
                A, B = np.broadcast_arrays(a, b)
                for rtol, atol, en in ((1e-9, 0.0, False), (1e-7, 1e-14, True)):
                    w = np.array([bool(want_close(x, y, rtol, atol, en)) for x, y in zip(A.ravel().tolist(), B.ravel().tolist())], dtype=bool).reshape(out)
                    for form in (lambda v: v, lambda v: v.tolist(), lambda v: tuple(v.tolist()) if v.ndim == 1 else v):
                        a0, b0 = a.copy(), b.copy()
                        g = util.isclose(form(a0), form(b0), rtol=rtol, atol=atol, equal_nan=en)
                        rec.ok(np.shape(g) == out and np.array_equal(g, w), 'isclose of arrays', a=a, b=b, got=np.asarray(g), want=w)
                        g = util.allclose(form(a0), form(b0), rtol=rtol, atol=atol, equal_nan=en)
                        rec.ok(np.ndim(g) == 0 and bool(g) == bool(w.all()), 'allclose is true exactly when every element is close', a=a, b=b)
                        rec.ok(np.array_equal(a, a0, equal_nan=True) and np.array_equal(b, b0, equal_nan=True), 'arguments unchanged')
                        rec.cover(states=max(1, w.size), transitions=2, traces=1)
    # defaults
    for x, y in itertools.product(base_values(full)[::3], repeat=2):
        w = want_close(x, y, 1e-9, 0.0, False)
        rec.ok(w is None or bool(util.isclose(x, y)) == w, 'default tolerances of isclose', a=x, b=y)
        w = want_close(x, y, 1e-7, 1e-14, False)
        rec.ok(w is None or bool(util.allclose(x, y)) == w, 'default tolerances of allclose', a=x, b=y)
        rec.cover(states=1, transitions=2, traces=1)
    for x, y in itertools.product([0, 1, -1, 5, 10 ** 9, 10 ** 9 + 1, 10 ** 9 + 2], repeat=2):
        for form in (int, lambda v: np.array([v]), lambda v: [v]):
            w = want_close(x, y, 1e-9, 0.0, False)
            rec.ok(w is None or bool(util.isclose(form(x), form(y))) == w, 'integers', a=x, b=y)
            rec.cover(states=1, transitions=1, traces=1)
    # one element anywhere decides
    for n in range(1, 9):
        for i in range(n):
            a = np.linspace(1, 2, n)
            b = a.copy()
            b[i] += 1e-3
            rec.ok(not util.allclose(a, b) and not util.allclose(b, a) and util.allclose(a, a), 'one element decides', n=n, i=i)
            rec.ok(util.isclose(a, b).tolist() == [k != i for k in range(n)], 'one element decides', n=n, i=i)
            rec.cover(states=1, transitions=4, traces=1)


def units(rec, full):
    d = lattice(3 if full else 2)
    want = ref.unit(d.astype(np.longdouble))
    for p in range(-150, 151, 1 if full else 5):
        for s in (1.0, 3.7):
            v = d * (s * 10.0 ** p)
            g = nv.unit(v)
            rec.close(g, want, 8 * EPS, 'unit vector', v=v)
            rec.cover(states=v.shape[1], transitions=1, traces=1)
    for i in range(d.shape[1]):
        g = nv.unit(d[:, i:i + 1])
        rec.close(g, want[:, i:i + 1], 8 * EPS, 'unit vector of one column', v=d[:, i:i + 1])
        g = nv.unit(d[:, i:i + 1].tolist())
        rec.close(g, want[:, i:i + 1], 8 * EPS, 'unit vector of a list', v=d[:, i:i + 1])
        g = nv.unit(d[:, i:i + 1].astype(int))
        rec.close(g, want[:, i:i + 1], 8 * EPS, 'unit vector of integers', v=d[:, i:i + 1])
        rec.cover(states=1, transitions=3, traces=1)
    # components of very different size in one vector
    for p, q in itertools.product(range(0, 310, 2 if full else 6), repeat=2):
        for k, (i, j) in enumerate(itertools.permutations(range(3), 2)):
            v = np.zeros((3, 1))
            v[i], v[j], v[3 - i - j] = 0.7, -3.0 * 10.0 ** -p, 10.0 ** -q
            for x, s in ((v, 1), (np.hstack([v, -v, v]), np.array([1, -1, 1]))):
                g = nv.unit(x)
                w = ref.unit(v.astype(np.longdouble)) * s
                rec.cover(states=np.size(s), transitions=1, traces=1)
                rec.close(np.asarray(g) / np.where(v == 0, 1, v), np.asarray(w / np.where(v == 0, 1, v), float), 8 * EPS * 1.5, 'small components are kept to full accuracy', v=x)
                if p > 150 and q > 150:
                    break
    # mixed magnitudes in one call, zero and NaN columns at every place
    kinds = {'o': lambda j: d[:, (7 * j + 3) % d.shape[1]] * 10.0 ** (13 * j % 40 - 20), 'z': lambda j: np.zeros(3), 'm': lambda j: np.array([0.0, -0.0, 0.0]),
             'n': lambda j: np.array([1.0, NAN, 2.0])}
    for n in (1, 2, 3, 4) + ((5,) if full else ()):
        for word in itertools.product('oznm' if n < 4 or full else 'ozn', repeat=n):
            cols = np.stack([kinds[c](j) for j, c in enumerate(word)], axis=1)
            for nz in (None, 1, 0, -1, 2.5, NAN, True):
                kw = {} if nz is None else dict(norm_zero_vector=nz)
                z = np.longdouble(1 if nz is None else nz)
                w = np.stack([dict(o=ref.unit(cols[:, j].astype(np.longdouble)[:, None])[:, 0], z=np.array([z, 0 * z, 0 * z]), m=np.array([z, 0 * z, 0 * z]),
                                   n=np.full(3, NAN))[c] for j, c in enumerate(word)], axis=1)
                c0 = cols.copy()
                g = nv.unit(c0, **kw)
                rec.close(g, w, 8 * EPS, 'columns of every kind', word=''.join(word), nz=nz)
                rec.ok(np.array_equal(c0, cols, equal_nan=True), 'argument unchanged')
                rec.cover(states=n, transitions=1, traces=1)
    rec.sample(directions=d.shape[1], example=d[:, 5])


def roots(rec, full):
    for n in range(1, 13):
        xs = [0.0, 1.0]
        xs += [10.0 ** k for k in range(-280, 281, 1 if full else 7)]
        for m in range(1, 40 if full else 15):
            v = float(m) ** n
            xs += [v, np.nextafter(v, 0), np.nextafter(v, INF), v * 1.001, v / 7.0, 1 / v]
        xs += [4.503599627370495e15, 4.503599627370496e15, 4.503599627370497e15, 1 / EPS, 0.5 / EPS, 2 / EPS]
        x = np.array(xs)
        y = nv.nthroot(x, n)
        L = np.longdouble
        x_ = np.asarray(x, dtype=L)
        w = np.where(x_ > 0, np.exp(np.log(np.where(x_ > 0, x_, 1)) / n), 0)
        tol = (4 + np.abs(np.log(np.where(x > 0, x, 1))) / n * np.where(EPS * x < 0.5, 0.02, 1)) * EPS * w
        # below the threshold one Newton step corrects the rounding of 1 / n
        rec.close(y, w, np.where(x > 0, tol, 0), 'n-th root', x=x, n=n)
        p = np.asarray(y, dtype=L) ** n
        rec.close(p, x_, n * tol / np.where(w > 0, w, 1) * np.abs(x_) + 0, 'its n-th power', x=x, n=n)
        rec.cover(states=len(xs), transitions=1, traces=1)
        for v in xs[::3]:
            g = nv.nthroot(v, n)
            rec.ok(np.ndim(g) == 0, 'a single number gives a single number')
            rec.close(np.asarray(g), np.asarray(nv.nthroot(np.array([v]), n)[0]), 4 * EPS * abs(g), 'single numbers', x=v, n=n)
            g = nv.nthroot(np.array([[v, 1.0], [v, v]]), n)
            rec.ok(g.shape == (2, 2), 'shape is kept')
            rec.cover(states=1, transitions=3, traces=1)
        g = nv.nthroot(np.array([-8.0, -1.0, NAN, 27.0]), n)
        rec.ok(np.isnan(g[2]), 'NaN stays NaN', n=n)
        ok = np.isnan(g[:2]) | (np.abs(g[:2] ** n - [-8.0, -1.0]) < 1e-12)
        rec.holds(ok, 'negative numbers: an n-th root or NaN', g=g, n=n)
        xi = np.array([0, 1, 8, 27, 64])
        rec.close(nv.nthroot(xi, n), nv.nthroot(xi.astype(float), n), 0, 'integers', n=n)


TRAIL = [(), (1,), (2,), (3,), (2, 3), (1, 3), (2, 1)]


def products(rec, i, full):
    ints = np.array([3, -1, 4, 1, -5, 9, 2, -6, 5, 3, 5, -8, 9, 7, -9, 3, 2, 3, -8, 4, 6, 2, 6, -4, 3, 3, 8, 3, 2, 7, 9])
    def mk_(shape, off):
        m = int(np.prod(shape))
        return ints[(off + np.arange(m) * 7) % len(ints)].reshape(shape).astype(float)
    for j, k in itertools.product((1, 2, 3, 4), repeat=2):
        for ta, tb in itertools.product(TRAIL, TRAIL):
            if ta and tb:
                try:
                    t = np.broadcast_shapes(ta, tb)
                except ValueError:
                    continue
            else:
                t = ta or tb
            if ta and tb and len(ta) != len(tb) and not full:
                continue
            for off in (0, 5) if not full else (0, 5, 11, 17):
                a, b = mk_((i, j) + ta, off), mk_((j, k) + tb, off + 3)
                w = np.empty((i, k) + t)
                for idx in np.ndindex(*t):
                    A = np.broadcast_to(a.reshape((i, j) + (1,) * (len(t) - len(ta)) + ta), (i, j) + t)[(slice(None), slice(None)) + idx] if ta else a
                    B = np.broadcast_to(b.reshape((j, k) + (1,) * (len(t) - len(tb)) + tb), (j, k) + t)[(slice(None), slice(None)) + idx] if tb else b
                    for p, q in itertools.product(range(i), range(k)):
                        w[(p, q) + idx] = sum(A[p, r] * B[r, q] for r in range(j))
                for form in (lambda v: v, lambda v: v.tolist(), lambda v: v.astype(int), np.asfortranarray):
                    g = nv.mdot(form(a), form(b))
                    rec.close(np.asarray(g), w, 0, 'matrix product', i=i, j=j, k=k, ta=ta, tb=tb)
                    rec.cover(states=int(np.prod(t)) if t else 1, transitions=1, traces=1)
                a2 = a.copy()
                a2[0, 0] = np.nan
                g = nv.mdot(a2, b)
                rec.holds(np.isfinite(g[1:]), 'NaN stays in its row')
                rec.holds(np.isnan(g[0]), 'NaN reaches its row')
    rec.sample(i=i, a=mk_((2, 2), 0))


def angles(rec, full):
    vals = [0.0, -0.0, 1.0, -1.0, 45.0, 90.0, 180.0, -180.0, 360.0, 1e-300, 5e-324, 1e300, 1e-9, 1e9, 57.29577951308232, INF, -INF, NAN, np.pi, np.pi / 2]
    vals += [float(v) for v in range(-720, 721, 15 if full else 45)]
    L = np.longdouble
    pi = ref.PI if hasattr(ref, 'PI') else L(np.pi) + L(1.2246467991473532e-16)
    x = np.array(vals)
    dw, rw = np.asarray(x, dtype=L) * 180 / pi, np.asarray(x, dtype=L) * pi / 180
    for got, want, what in ((nv.deg(x), dw, 'deg'), (nv.rad(x), rw, 'rad')):
        fin = np.isfinite(x)
        rec.close(got[fin], want[fin], 3 * EPS * np.abs(ref.f64(want[fin])) + 5e-324, what, x=x[fin])
        rec.holds((got[~fin] == x[~fin]) | (np.isnan(got[~fin]) & np.isnan(x[~fin])), what + ': not finite')
        rec.cover(states=len(vals), transitions=1, traces=1)
    for f, g, what in ((nv.deg, nv.rad, 'deg of rad'), (nv.rad, nv.deg, 'rad of deg')):
        y = f(g(x))
        fin = np.isfinite(x) & ((np.abs(x) > 1e-290) | (x == 0)) & (np.abs(x) < 1e298)
        rec.close(y[fin], x[fin], 4 * EPS * np.abs(x[fin]), what, x=x[fin])
        rec.cover(states=len(vals), transitions=2, traces=1)
    # exact multiples
    for d, r in ((180.0, np.pi), (90.0, np.pi / 2), (360.0, 2 * np.pi), (45.0, np.pi / 4), (-180.0, -np.pi), (0.0, 0.0)):
        rec.ok(nv.rad(d) == r and nv.deg(r) == d, 'exact multiples', d=d)
    # several arguments give a tuple in order; each keeps its shape
    forms = [1.0, [1.0, 2.0], np.array([[1.0], [3.0]]), 3, np.float64(2), np.zeros((0,)), (4.0, 5.0), np.array(7.0)]
    for f, what in ((nv.deg, 'deg'), (nv.rad, 'rad')):
        for n in (1, 2, 3, 4):
            for combo in itertools.product(range(len(forms)), repeat=n) if n < 4 or full else [(0, 1, 2, 3), (7, 6, 5, 4)]:
                args = [forms[c] for c in combo]
                g = f(*args)
                if n == 1:
                    g = (g,)
                ok = isinstance(g, tuple) and len(g) == n
                rec.ok(ok, what + ': one answer for each argument', n=n)
                if ok:
                    for u, v in zip(g, args):
                        single = f(v)
                        rec.ok(np.shape(u) == np.shape(v) and np.array_equal(u, single), what + ': each argument on its own', combo=combo)
                rec.cover(states=1, transitions=1, traces=1)
    rec.sample(values=len(vals))


def lists(rec):
    leaves = [1, 2.5, 'text', None, True, np.float64(1.5), np.int64(3), np.zeros(2), np.arange(4).reshape(2, 2), np.zeros((0,)), np.array(5.0), np.array(['a'])]

    def plain(v):
        if isinstance(v, dict):
            return {k: plain(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [plain(x) for x in v]
        return v.tolist() if hasattr(v, 'tolist') else v

    def types(v):
        if isinstance(v, dict):
            return all(types(x) for x in v.values())
        if isinstance(v, list):
            return all(types(x) for x in v)
        return v is None or type(v) in (int, float, str, bool)

    def builds(inner):
        for a in inner:
            yield [a]
            yield (a, 1)
            yield {'k': a}
            yield {'k': a, 'm': np.ones(1)}
            yield [a, a]
        yield []
        yield {}
    level = list(leaves)
    for depth in range(4):
        nxt = []
        for v in level:
            want = plain(v)
            got = util.array_to_list_dict(v)
            rec.ok(got == want and types(got) and type(got) is type(want), 'arrays become lists', value=repr(v)[:200], got=repr(got)[:200])
            rec.cover(states=1, transitions=1, traces=1)
        if depth < 3:
            level = list(builds([v for v in level][:60]))
    rec.sample(leaves=len(leaves))


def warns(rec):
    """a vector that is clearly not a unit vector is reported, and only then; the answer is the same with and without"""
    fr = nv.FrameE()
    funs = {'n_E2R_EN': lambda n: nv.n_E2R_EN(n), 'n_E2lat_lon': lambda n: np.array(nv.n_E2lat_lon(n)), 'n_EB_E2p_EB_E': lambda n: nv.n_EB_E2p_EB_E(n, 0.0),
            'n_E_and_wa2R_EL': lambda n: nv.n_E_and_wa2R_EL(n, 0.2)}
    n0 = nE([0.3, -0.2], [1.0, 2.0])
    for name, f in funs.items():
        want = f(n0)
        for s in (1.0, 1.05, 0.95, 1.0999, 0.9001, 1.1001, 0.8999, 0.5, 2.0, 1e-3, 1e6):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                got = f(n0 * s)
            rec.close(got, want, 1e-12 * np.max(np.abs(want)), 'only the direction matters', s=s, fun=name)
            rec.ok(bool(w) == (abs(s - 1) > 0.1), 'warning exactly when the length is off by more than 0.1', s=s, fun=name, got=[str(x.message) for x in w])
            rec.cover(states=1, transitions=1, traces=1)
