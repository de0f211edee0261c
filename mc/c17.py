import itertools
from mc.common import *

BOUNDS = """all ordered tuples of 1-4 (thorough 5) positions over a position alphabet (poles, antimeridian, equator), all permutations and
repetitions of larger sets, lattice directions, sets rotated by the 24 octahedral rotations and about the Earth's axis, all array sizes to 130
and some to 65537 x axes x depths (shared or per position); functional and Nvector.mean; oracle: the direction of the sum of the given
float64 vectors in extended precision. Sets whose n-vectors nearly cancel are skipped and counted."""


def tasks(tier):
    q = tier == 'quick'
    out = []
    for axes in AXES:
        for size in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
            m = {1: 16, 2: 16, 3: 16, 4: 6 if q else 10, 5: 6}[size]
            out.append(('tuples', dict(axes=axes, size=size, m=m)))
        out.append(('larger', dict(axes=axes)))
        out.append(('nearly_cancelling', dict(axes=axes)))
    out.append(('lattice_sets', dict(m=1 if q else 2)))
    for ell in (alph.ells(0) if q else alph.ells(2)):
        for axes in ('e', 'E'):
            out.append(('objects_', dict(ell=ell, axes=axes, m=4 if q else 8)))
    return out


def _check(rec, n, what, **info):
    s = np.sum(ref.ld(n), axis=1, keepdims=True)
    L = float(ref.norm(s)[0])
    if L < 1e-6:
        rec.outcome('cancelling')
        k = n.shape[1] // 2
        if n.shape[1] == 2 * k and np.array_equal(n[:, :k], -n[:, k:]) and k == 1:
            X = nv.mean_horizontal_position(n)
            rec.ok(np.shape(X) == (3, 1) and np.isnan(X).all(), what + ': undefined when the n-vectors cancel exactly', got=X, **info)
            rec.cover(states=1, transitions=2, traces=1)
            rec.outcome('cancelling exactly')
        return None
    X = nv.mean_horizontal_position(n)
    rec.cover(states=1, transitions=n.shape[1], traces=1)     # a transition adds one position to the set
    if np.shape(X) != (3, 1):
        return rec.fail(what + ': one mean position', shape=np.shape(X), **info)
    rec.close(X, s / L, 4 * EPS * (1 + n.shape[1] / L * (1 + n.shape[1] / 200.0)), what + ': direction of the sum', **info)
    rec.close(ref.norm(ref.ld(X)), np.ones(1), 8 * EPS, what + ': unit vector', **info)
    return X


def tuples(rec, axes, size, m):
    la, lo, _ = positions_deg()
    N = nE(la, lo, axes)
    for combo in itertools.product(range(m), repeat=size):
        n = N[:, list(combo)]
        X = _check(rec, n, 'tuple', combo=combo)
        if X is not None and len(set(combo)) == 1:
            rec.close(X, ref.ld(n[:, :1]), 8 * EPS, 'coincident positions', combo=combo)
        if X is not None and combo == tuple(sorted(combo)):
            _check(rec, np.concatenate([n] * 3, axis=1), 'set repeated', combo=combo)
            _check(rec, np.repeat(n, 5, axis=1), 'positions repeated', combo=combo)
    rec.sample(axes=axes, size=size, alphabet=alph.POSITIONS[:m])


def larger(rec, axes):
    la, lo, _ = positions_deg()
    N = nE(la, lo, axes)
    for perm in itertools.permutations(range(6)):
        _check(rec, N[:, list(perm)], 'permutation', perm=perm)
    for k in list(range(5, 131)) + [n + d for n in (200, 256, 300, 360, 500, 512, 1000, 1024, 2000, 4096) for d in (-1, 0, 1)] + [10000, 65537]:
        n = nE(np.resize(la, k) * np.linspace(0.1, 1, k), np.resize(lo, k) + np.linspace(0, 2, k), axes)
        for variant in (n, n[:, ::-1], np.asfortranarray(n), np.roll(n, 3, axis=1)):
            _check(rec, variant, 'many positions', k=k)
    # rotations of the set rotate the mean
    n = N[:, [0, 2, 9, 13]]
    X = nv.mean_horizontal_position(n)
    for M in octahedral():
        Y = _check(rec, np.dot(M, n), 'rotated set')
        if Y is not None:
            rec.close(Y, ref.mm(M, X), 8 * EPS, 'the mean rotates with the positions', M=M)


def nearly_cancelling(rec, axes):
    """sets whose n-vectors cancel up to a small remainder: the remainder of the given vectors is what counts"""
    la, lo, _ = positions_deg()
    N = nE(la, lo, axes)
    for i in range(la.size):
        for j in range(la.size):
            t = np.cross(N[:, i], N[:, j])
            if np.linalg.norm(t) < 1e-3:
                t = np.cross(N[:, i], [0.3, -0.5, 0.7])
            for k in range(1, 15):
                # given float64 vectors: opposite up to 10^-k
                b = -N[:, i] + t * 10.0 ** -k
                b = b / np.linalg.norm(b)
                for n in (np.stack([N[:, i], b], axis=1), np.stack([N[:, j], N[:, i], b, -N[:, j]], axis=1)):
                    s = np.sum(ref.ld(n), axis=1, keepdims=True)
                    L = float(ref.norm(s)[0])
                    if L < 1e-15:
                        continue
                    X = nv.mean_horizontal_position(n)
                    Y = nv.Nvector(n, 3.0).mean()
                    rec.cover(states=1, transitions=n.shape[1], traces=1)
                    for what, V in (('nearly cancelling', X), ('nearly cancelling, Nvector', Y.normal)):
                        rec.holds(np.isfinite(V), what + ': defined', i=i, j=j, k=k)
                        rec.close(V, s / L, min(2.0, 8 * EPS * (1 + 1 / L)), what + ': direction of the sum', i=i, j=j, k=k)
                    rec.outcome('nearly cancelling')


def lattice_sets(rec, m):
    L = ref.f64(ref.unit(ref.ld(lattice(m))))
    k = L.shape[1]
    for i in range(k):
        for j in range(k):
            _check(rec, L[:, [i, j]], 'pair of lattice directions', i=i, j=j)
            if j % 5 == 0:
                for h in range(0, k, 7):
                    _check(rec, L[:, [i, j, h]], 'triple of lattice directions', i=i, j=j, h=h)


def objects_(rec, ell, axes, m):
    frame = frameE(ell, axes)
    sc = min(1.0, frame.a / 7e6)
    la, lo, zz = positions_deg()
    zz = zz * sc
    for size in (1, 2, 3):
        for combo in itertools.product(range(m), repeat=size):
            c = list(combo)
            n = nE(la[c], lo[c], axes)
            s = np.sum(ref.ld(n), axis=1, keepdims=True)
            L = float(ref.norm(s)[0])
            if L < 1e-6:
                continue
            for z in (zz[c], zz[c] * 0, 100.0 * sc - zz[c] * 3, 12.0 * sc, np.array([7.0 * sc])):
                for obj in (frame.Nvector(n, z), frame.GeoPoint(la[c], lo[c], z).to_nvector()):
                    M = obj.mean()
                    rec.cover(states=1, transitions=size, traces=1)
                    if not rec.ok(type(M) is nv.Nvector and M.frame == frame and np.shape(M.normal) == (3, 1) and is_scalar(M.z) and M.scalar,
                                  'the mean is one position of the frame', combo=combo, shape=np.shape(M.normal), z=z):
                        continue
                    rec.close(M.normal, s / L, 8 * EPS * (1 + size / L), 'mean normal does not depend on the depths', combo=combo, z=z)
                    rec.close(np.asarray(M.z), np.mean(ref.ld(z)), 1e-13 * (1 + np.max(np.abs(z))), 'mean depth', combo=combo, z=z)
                    g = M.to_geo_point()
                    rec.ok(is_scalar(g.latitude) and is_scalar(g.longitude) and is_scalar(g.z), 'one geographical point')
                    with np.errstate(all='ignore'):
                        D = obj.mean_horizontal_position()
                    rec.ok(D == M, 'deprecated name', combo=combo)
