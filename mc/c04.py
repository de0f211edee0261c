from mc.common import *

BOUNDS = """every sequence of conversions up to the given depth (to_geo_point, to_nvector, to_ecef_vector, change_frame
to a north-east-down, wander-azimuth and body frame at another origin) from every representation, for the position alphabet (and, to two steps, depths
and heights of every order of magnitude from 1e-7 to 1e9) x ellipsoids x axes x single/array (lengths 1..5); after every step the object is decoded by the reference model and must denote
the same point, with the same frame, depth, type and scalar/array nature."""


def tasks(tier):
    q = tier == 'quick'
    out = []
    for ell in ('wgs84', 'sphere', 'prolate'):
        for axes in ('e', 'E'):
            for n in (0, 1, 2, 3, 5):
                for lo, hi in chunks(len(alph.POSITIONS), 4 if n == 0 else 16):
                    for start in KINDS:
                        out.append(('tree', dict(ell=ell, axes=axes, n=n, lo=lo, hi=hi, start=start,
                                                 depth=4 if q else 6)))
            for start in KINDS:
                for n in (0, 1, 3):
                    out.append(('ladder', dict(ell=ell, axes=axes, n=n, start=start, full=not q)))
    return out


def ladder(rec, ell, axes, n, start, full):
    """depths and heights of every order of magnitude, two conversions"""
    frame = frameE(ell, axes)
    lat, lon, z = positions_deg()
    loc = _locals(frame, axes, lat, lon)
    pos = list(range(len(lat)))[::1 if full else 4]
    mags = [m * 10.0 ** e for e in range(-7, 10) for m in (1.0, 1.7, 4.0, 7.3)]
    for zz in [s * m for m in mags for s in (1, -1) if s * m < 0.3 * frame.a]:
        for i in pos if n == 0 else pos[:1] if not full else pos:
            if n == 0:
                la, lo, d = float(lat[i]), float(lon[i]), zz
            else:
                idx = (i + np.arange(n)) % len(lat)
                la, lo, d = lat[idx], lon[idx], zz * np.array([1.0, 0.6, -0.2 if abs(zz) < 0.3 * frame.a else 0.2])[:n]
            want = ref.ecef(ref.nvec(np.atleast_1d(la), np.atleast_1d(lo)), np.atleast_1d(d), frame.a, frame.f)
            rec.context = dict(lat=la, lon=lo, z=d, start=start)
            _walk(rec, mk(start, frame, axes, la, lo, d), (), 2, frame, axes, loc, want, np.atleast_1d(d), n)
    rec.sample(depths=len(mags) * 2, start=start)


def _locals(frame, axes, lat, lon):
    o = frame.GeoPoint(0.3, -2.2, 5.0)
    s = frame.GeoPoint(-1.1, 2.9, 0.0)
    oo = np.array([[0.3], [-2.2]]), np.array([[-1.1], [2.9]])
    fN, fL, fB = nv.FrameN(o), nv.FrameL(s, wander_azimuth=0.9), nv.FrameB(o, yaw=10, pitch=-20, roll=170, degrees=True)
    mN = local_axes(axes, nE(oo[0][0], oo[0][1], axes))
    mL = local_axes(axes, nE(oo[1][0], oo[1][1], axes), wa=[0.9])
    ypr = [np.array([v]) * ref.PI / 180 for v in (10, -20, 170)]
    mB = local_axes(axes, nE(oo[0][0], oo[0][1], axes), ypr=ypr)
    return {'N': (fN, mN), 'L': (fL, mL), 'B': (fB, mB)}


def tree(rec, ell, axes, n, lo, hi, start, depth):
    frame = frameE(ell, axes)
    lat, lon, z = positions_deg()
    pos = list(range(lo, hi))
    loc = _locals(frame, axes, lat, lon)
    for i in pos:
        if n == 0:
            la, lo_, zz = float(lat[i]), float(lon[i]), float(z[i])
        else:
            idx = (i + np.arange(n)) % len(lat)
            la, lo_, zz = lat[idx], lon[idx], z[idx]
        want = ref.ecef(ref.nvec(np.atleast_1d(la), np.atleast_1d(lo_)), np.atleast_1d(zz), frame.a, frame.f)
        x = mk(start, frame, axes, la, lo_, zz)
        rec.context = dict(lat=la, lon=lo_, z=zz, start=start)
        if i == 0:
            rec.sample(lat=la, lon=lo_, z=zz, start=start, depth=depth)
        _walk(rec, x, (), depth, frame, axes, loc, want, np.atleast_1d(zz), n)


def _decode(x, axes, loc, path):
    if type(x) is nv.Pvector:
        return mv3(np.broadcast_to(loc[path[-1]][1], (3, 3, x.pvector.shape[1])), ref.ld(x.pvector))
    return obj_ecef(x, axes)


def _walk(rec, x, path, depth, frame, axes, loc, want, z, n):
    rec.cover(states=1)
    tol = (24 + 24 * len(path)) * EPS * 3 * max(frame.a, np.max(np.abs(z), initial=0))
    got = _decode(x, axes, loc, path)
    good = rec.close(got, want, tol, 'same position', path='.'.join(path))
    single = n == 0
    if isinstance(x, nv.Pvector):
        good &= rec.ok(bool(x.scalar) == single, 'scalar flag kept', path=path, scalar=x.scalar)
        good &= rec.ok(is_scalar(x.length) == single, 'length is scalar for single positions only', path=path)
    if isinstance(x, nv.Nvector):
        good &= rec.close(np.atleast_1d(x.z), z, tol, 'same depth', path='.'.join(path))
        good &= rec.ok(is_scalar(x.z) == single and bool(x.scalar) == single, 'single/array kept', path=path)
    if isinstance(x, nv.GeoPoint):
        good &= rec.close(np.atleast_1d(x.z), z, tol, 'same depth', path='.'.join(path))
        good &= rec.ok(is_scalar(x.z) == single and is_scalar(x.latitude) == single
                       and is_scalar(x.longitude) == single and bool(x.scalar) == single,
                       'single/array kept', path=path)
    if type(x) is not nv.Pvector:
        good &= rec.ok(x.frame == frame, 'frame kept', path=path)
    if not good or depth == 0:
        rec.cover(traces=1)
        return
    nexts = [('to_geo_point', x.to_geo_point, nv.GeoPoint), ('to_nvector', x.to_nvector, nv.Nvector),
             ('to_ecef_vector', x.to_ecef_vector, nv.ECEFvector)]
    for name, fun, typ in nexts:
        rec.cover(transitions=1)
        y = fun()
        rec.outcome(type(x).__name__ + '.' + name)
        rec.ok(type(y) is typ, 'conversion gives its type', path=path + (name,), got=type(y).__name__)
        if type(y) is type(x):
            same = rec.ok(y == x, 'conversion to the same representation changes nothing', path=path + (name,))
            if same and y is x:
                continue
        _walk(rec, y, path + (name,), depth - 1, frame, axes, loc, want, z, n)
    if isinstance(x, nv.ECEFvector):
        for name in 'NLB':
            rec.cover(transitions=1)
            y = x.change_frame(loc[name][0])
            rec.outcome('change_frame ' + name)
            _walk(rec, y, path + (name,), depth - 1, frame, axes, loc, want, z, n)
