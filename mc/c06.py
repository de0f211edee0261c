from mc.common import *

BOUNDS = """all triples over an angle alphabet (multiples of 15 or 30 degrees, +-10^-k neighbourhoods of gimbal lock, several
turns, negative) for both orders, scalar and arrays of every broadcast shape; all 24 octahedral rotations, rational rotations,
and rotations at 10^-k from gimbal lock for the extraction; single and array (3x3xn, 3x3xnxm)."""


def _angles(level):
    p = np.pi
    out = [0.0, p / 2, -p / 2, p, -p, 0.3, -1.2, 2.5]
    for k in ((1, 6, 12) if level == 0 else (1, 3, 6, 8, 12, 15)):
        out += [p / 2 - 10.0 ** -k, -p / 2 + 10.0 ** -k, p / 2 + 10.0 ** -k]
    out += [7.0, -9.5, 20 * p + 0.25, 1e-8, -1e-14]
    if level:
        out += list(np.radians(np.arange(-360, 361, 30.0)))
        out += [np.nextafter(p / 2, 0), np.nextafter(-p / 2, 0), 1e4, 1e-300]
    return [float(v) for v in alph.uniq(out)]


def tasks(tier):
    lev = 0 if tier == 'quick' else 1
    n = len(_angles(1))
    out = [('compose', dict(order=o, level=1, i=i)) for o in ('xyz', 'zyx') for i in range(n)]
    n0 = len(_angles(lev))
    out += [('single', dict(order=o, level=lev, i=i)) for o in ('xyz', 'zyx') for i in range(n0)]
    out += [('shapes', dict(order=o)) for o in ('xyz', 'zyx')]
    out += [('group', dict(order=o)) for o in ('xyz', 'zyx')]
    return out


def build(order, x, y, z):
    return nv.xyz2R(x, y, z) if order == 'xyz' else nv.zyx2R(z, y, x)


def extract(order, R):
    if order == 'xyz':
        return nv.R2xyz(R)
    z, y, x = nv.R2zyx(R)
    return x, y, z


def model(order, x, y, z):
    X, Y, Z = ref.rot(0, x), ref.rot(1, y), ref.rot(2, z)
    return mm3(mm3(X, Y), Z) if order == 'xyz' else mm3(mm3(Z, Y), X)


def _back(rec, order, R, x, y, z):
    """extraction from R (3,3,n float64); x, y, z generating angles"""
    x2, y2, z2 = extract(order, R)
    rec.ok(np.shape(x2) == np.shape(R)[2:] == np.shape(y2) == np.shape(z2), 'one triple of angles per matrix',
           got=np.shape(x2), want=np.shape(R)[2:])
    again = model(order, np.atleast_1d(x2), np.atleast_1d(y2), np.atleast_1d(z2))
    R3 = np.asarray(R).reshape(3, 3, -1)
    rec.close(again, ref.ld(R3), 24 * EPS, 'extracted angles rebuild the matrix (model)', x=x, y=y, z=z)
    impl = build(order, x2, y2, z2)
    rec.close(np.asarray(impl).reshape(3, 3, -1), ref.ld(R3), 32 * EPS, 'extracted angles rebuild the matrix (library)',
              x=x, y=y, z=z)
    rec.holds(np.abs(y2) <= np.pi / 2, 'middle angle within [-90, 90] deg', y2=y2)
    c = np.cos(ref.ld(y))
    with np.errstate(all='ignore'):
        regular = c > 1e-7
        tol = np.where(regular, 24 * EPS * (1 + 1 / c), 1)
    for got, want, nm in ((x2, x, 'x'), (y2, y, 'y'), (z2, z, 'z')):
        d = np.where(regular, ref.wrap(ref.ld(got) - ref.ld(want)), 0)
        rec.close(d, 0 * d, tol, 'angles within range are recovered: ' + nm, x=x, y=y, z=z)
    rec.outcome('regular', np.sum(regular))
    rec.outcome('gimbal lock or flipped', np.sum(~regular))


def compose(rec, order, level, i):
    A = np.array(_angles(level))
    y, z = alph.grid(A, A)
    x = np.full(y.shape, A[i])
    rec.cover(states=x.size, transitions=2 * x.size, traces=x.size)
    if i == 3:
        rec.sample(order=order, x=x[0], y=y[40], z=z[40])
    R = build(order, x, y, z)
    big = np.maximum(1, np.max(np.abs([x, y, z]), axis=0) * 0.1)
    if not rec.close(R, model(order, x, y, z), 16 * EPS, 'matrix is the composition of elementary rotations', x=x, y=y, z=z):
        return
    Rl = ref.ld(R)
    rec.close(mm3(tr3(Rl), Rl), np.eye(3)[:, :, None] * np.ones(x.size), 24 * EPS, 'orthogonal')
    _back(rec, order, R, x, y, z)
    if i % 6 == 0:
        R = by_parts(lambda p, q, r: build(order, p, q, r).reshape(3, 3, -1), x, y, z)
        rec.close(R, model(order, x, y, z), 16 * EPS, 'matrix is the composition of elementary rotations, short arrays', x=x, y=y, z=z)
        c = by_parts(lambda m: extract(order, m), R)
        rec.close(model(order, *c), ref.ld(R), 24 * EPS, 'extracted angles rebuild the matrix, short arrays', x=x, y=y, z=z)
        rec.cover(transitions=2 * x.size)


def single(rec, order, level, i):
    A = _angles(level)
    x = A[i]
    for y in A:
        for z in A[::2]:
            R = build(order, x, y, z)
            rec.cover(states=1, transitions=2, traces=1)
            want = model(order, [x], [y], [z])[:, :, 0]
            if not rec.close(R, want, 16 * EPS, 'single matrix', x=x, y=y, z=z):
                return
            rec.ok(all(is_scalar(v) for v in extract(order, R)), 'scalar angles from one matrix')
            _back(rec, order, R, np.array([x]), np.array([y]), np.array([z]))
    R = build(order, 1, 2, -3)
    rec.close(R, model(order, [1.0], [2.0], [-3.0])[:, :, 0], 16 * EPS, 'integer angles')


def shapes(rec, order):
    A = np.array(_angles(1))
    for n in (2, 3, 4, 7, 50, 257):
        for m in (0, 2, 3, 5):
            full = (n,) if m == 0 else (n, m)
            k = int(np.prod(full))
            base = [np.roll(np.resize(A, k), s).reshape(full) for s in (0, 5, 11)]
            variants = [(), (n,)] if m == 0 else [(), (m,), (1, m), (n, 1), (n, m)]
            for pattern in itertools.product(variants, repeat=3):
                args = []
                for b, shp in zip(base, pattern):
                    if shp == ():
                        args.append(float(b.ravel()[3 % k]))
                    else:
                        sel = tuple(slice(0, s) if s > 1 else slice(0, 1) for s in shp)
                        args.append(b[(0,) * (b.ndim - len(shp)) + sel] if len(shp) < b.ndim else b[sel])
                res = np.broadcast(*args).shape
                if res not in (full,) and res != ():
                    continue
                x, y, z = args
                R = build(order, x, y, z)
                rec.cover(states=1, transitions=1, traces=1)
                bx, by, bz = [v.ravel() for v in np.broadcast_arrays(x, y, z)]
                want = model(order, bx, by, bz).reshape((3, 3) + res)
                rec.close(R, want, 16 * EPS, 'broadcast shapes', shapes=[np.shape(v) for v in args])
                rec.outcome('result ndim %d' % R.ndim)
                lists = [v.tolist() if isinstance(v, np.ndarray) else v for v in args]
                rec.close(build(order, *lists), want, 16 * EPS, 'broadcast shapes from lists',
                          shapes=[np.shape(v) for v in args])
                if res == full and m:
                    x2, y2, z2 = extract(order, R)
                    again = model(order, x2.ravel(), y2.ravel(), z2.ravel()).reshape(want.shape)
                    rec.close(again, want, 48 * EPS, 'extraction from stacked matrices')


def group(rec, order):
    mats = [M.astype(float) for M in octahedral()]
    mats += [AXES['R1'], AXES['R2'] if np.linalg.det(AXES['R2']) > 0 else -AXES['R2']]
    for k in range(1, 17):
        for s in (1, -1):
            for zz in (0.0, 0.7, -2.9):
                ang = ref.PI / 2 - ref.LD(10.0) ** -k
                mats.append(ref.f64(model(order, [0.4], [s * ang], [zz])[:, :, 0]))
    base = list(mats)
    for i in range(26):          # all products: the group is closed, products of the rational ones are new
        for j in range(26):
            mats.append(base[i] @ base[j])
    for M in mats:
        rec.cover(states=1, transitions=2, traces=1)
        x, y, z = extract(order, M)
        rec.close(model(order, [x], [y], [z])[:, :, 0], ref.ld(M), 32 * EPS, 'angles rebuild a rotation matrix (model)', M=M)
        rec.close(build(order, x, y, z), ref.ld(M), 32 * EPS, 'angles rebuild a rotation matrix (library)', M=M)
        lock = abs(M[0, 2] if order == 'xyz' else M[2, 0]) > 1 - 1e-12
        rec.outcome('gimbal lock' if lock else 'regular')
    T = np.stack(mats, axis=2)
    x, y, z = extract(order, T)
    rec.cover(states=T.shape[2], transitions=T.shape[2], traces=T.shape[2])
    rec.close(model(order, x, y, z), ref.ld(T), 32 * EPS, 'angles rebuild stacked rotation matrices')
