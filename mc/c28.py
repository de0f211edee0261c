import itertools
from mc.ops import *
from mc.c18 import layout

BOUNDS = """every operation of the object interface that takes or returns angles x every element of two tables (angles arbitrary, and angles that are whole degrees) x single,
array, list and one-against-many calls x axes x ellipsoids, in degrees and in radians; constructors and accessors over the special-value grids of latitude and longitude; the
body frame over a grid of yaw, pitch, roll and which of them are arrays; direct and inverse geodesics x method x unrolling x position and keyword form. Oracle: the radian form with
angles converted by the exact factor."""

KEEP = ('POn', 'PGeod', 'gOn')


def table(E, whole):
    el = elements(E)
    if whole:
        for k, v in el.items():
            if k[0] == 'P' and k not in KEEP:
                v[:2] = np.radians(np.round(np.degrees(v[:2])))
        for k in ('lat', 'lon', 'lat2', 'lon2', 'az'):
            el[k] = np.radians(np.round(np.degrees(el[k])))
    return el


def tasks(tier):
    q = tier == 'quick'
    out = []
    for name, o in OPS.items():
        if not o.deg:
            continue
        for axes in ('e', 'E') if o.axes else ('e', ):
            for ell in ('wgs84', 'sphere') if q else ('wgs84', 'sphere', 'prolate', 'flat50'):
                for whole in (False, True):
                    out.append(('compare', dict(name=name, axes=axes, ell=ell, whole=whole, E=24 if q else 160)))
    for axes in ('e', 'E'):
        out.append(('points', dict(axes=axes, level=1 if q else 2)))
        out.append(('bodies', dict(axes=axes, full=not q)))
        out.append(('deltas', dict(axes=axes, full=not q)))
    for unroll in (False, True):
        for m in ('direct', 'inverse'):
            for part in range(4):
                out.append(('geodesics', dict(which=m, unroll=unroll, part=part, full=not q)))
    return out


def same_(rec, got, want, msg, scale, **info):
    """as same, and angles on the same turn (but for those at the end of the range, where rounding decides)"""
    same(rec, got, want, msg, scale, **info)
    for i, ((kind, g, note), (_, w, wnote)) in enumerate(zip(got, want)):
        if kind in ('a', 'lon') and not note and not wnote:
            end = np.abs(np.abs(w) - np.pi) < 1e-6
            with np.errstate(invalid='ignore'):
                rec.holds(end | ~(np.abs(g - w) > 1), msg + ': on the same turn', answer=g, wanted=w, output=i, **info)


def turn(diff, at):
    """difference of angles in degrees, modulo a turn only next to the end of the range"""
    with np.errstate(invalid='ignore'):
        return np.where(np.abs(np.abs(np.mod(np.asarray(at) + 180, 360) - 180) - 180) < 1e-4, np.mod(diff + 180, 360) - 180, diff)


def compare(rec, name, axes, ell, whole, E):
    o = OPS[name]
    el = table(E, whole)
    rec.context = dict(op=name, axes=axes, ellipsoid=ell, whole=whole)
    scale = 100.0
    for lay in ('plain', 'list', 'reversed'):
        if o.onlysingle or (lay == 'list' and not o.listok):
            continue
        vals = [take(el, p, slice(0, E)) for p in o.params]
        want = o.run(Cx(axes=axes, ell=ell, lay=layout(lay)), vals, E)
        got = o.run(Cx(axes=axes, ell=ell, lay=layout(lay), deg=True), vals, E)
        same_(rec, got, want, 'arrays in degrees', scale)
        rec.cover(states=E, transitions=2, traces=1)
        rec.outcome('defined', sum(np.sum(np.isfinite(v)) for _, v, _ in want))
        rec.outcome('undefined', sum(np.sum(~np.isfinite(v)) for _, v, _ in want))
    for i in range(E):
        vals = [take(el, p, slice(i, i + 1)) for p in o.params]
        want = o.run(Cx(axes=axes, ell=ell, single=True), vals, 1)
        got = o.run(Cx(axes=axes, ell=ell, single=True, deg=True), vals, 1)
        same_(rec, got, want, 'single values in degrees', scale, element=i)
        rec.cover(states=1, transitions=2, traces=1)
    if len(o.params) > 1 and not o.onlysingle and name != 'GeoPath_ends':
        for mask in itertools.product((0, 1), repeat=len(o.params)):
            if all(mask) or not any(mask):
                continue
            for s in (1, 11):
                vals = [take(el, p, slice(s, s + 1) if m else slice(s, s + 5)) for p, m in zip(o.params, mask)]
                want = o.run(Cx(axes=axes, ell=ell, single=True), vals, 5)
                got = o.run(Cx(axes=axes, ell=ell, single=True, deg=True), vals, 5)
                same_(rec, got, want, 'one against many in degrees', scale, start=s, pattern=mask)
                rec.cover(states=5, transitions=2, traces=1)
    rec.sample(op=name, axes=axes, params=o.params)


def rd(x):
    """exact conversions in extended precision"""
    return ref.f64(np.asarray(x, dtype=np.longdouble) * ref.PI / 180)


def dg(x):
    return ref.f64(np.asarray(x, dtype=np.longdouble) * 180 / ref.PI)


def points(rec, axes, level):
    fr = nv.FrameE(axes=axes)
    la = sorted(set(np.degrees(alph.lats(level)).tolist() + [90.0, -90.0, 45.0, 0.0, 1e-9, -12.5]))
    lo = sorted(set(np.degrees(alph.lons(level)).tolist() + [180.0, -180.0, 360.0, 90.0, 540.0, -0.0, 179.999999]))
    lat, lon = alph.grid(np.array(la), np.array(lo))
    z = np.where(np.arange(lat.size) % 3 == 1, -100.0, 7.0)
    rec.cover(states=lat.size)
    makers = [lambda a, b, c: nv.GeoPoint(a, b, c, fr, True), lambda a, b, c: fr.GeoPoint(a, b, c, degrees=True),
              lambda a, b, c: nv.GeoPoint(latitude=a, longitude=b, z=c, frame=fr, degrees=True), lambda a, b, c: fr.GeoPoint(latitude=a, longitude=b, z=c, degrees=True)]
    def verify(p, lat, lon, z, what):
        t = 4 * EPS
        rec.close(p.latitude, rd(lat), t * np.abs(rd(lat)) + 5e-324, what + ': latitude', lat=lat, lon=lon)
        rec.close(p.longitude, rd(lon), t * np.abs(rd(lon)) + 5e-324, what + ': longitude', lat=lat, lon=lon)
        rec.close(np.asarray(p.z, dtype=float), z, 0, what + ': depth')
        rec.close(p.latitude_deg, np.asarray(lat), t * np.abs(lat) + 1e-323, what + ': latitude in degrees')
        rec.close(p.longitude_deg, np.asarray(lon), t * np.abs(lon) + 1e-323, what + ': longitude in degrees')
        d = p.latlon_deg
        r = p.latlon
        rec.ok(len(d) == 3 and len(r) == 3, 'latlon tuples')
        for g, w, u in ((d[0], p.latitude_deg, 'latlon_deg'), (d[1], p.longitude_deg, 'latlon_deg'), (d[2], p.z, 'latlon_deg'),
                        (r[0], p.latitude, 'latlon'), (r[1], p.longitude, 'latlon'), (r[2], p.z, 'latlon')):
            rec.close(g, np.asarray(w, dtype=float), 0, what + ': ' + u)
        rec.ok(p.frame == fr, 'frame')
    for mk_ in makers:
        p = mk_(lat, lon, z)
        verify(p, lat, lon, z, 'from degrees')
        q = fr.GeoPoint(rd(lat), rd(lon), z)
        mild = np.abs(lon) <= 540
        rec.ok(mk_(lat[mild], lon[mild], z[mild]) == fr.GeoPoint(rd(lat[mild]), rd(lon[mild]), z[mild]), 'equal to the position in radians')
        n, m = p.to_nvector(), q.to_nvector()
        rec.close(n.normal, m.normal, 4 * EPS * np.maximum(1, np.max(np.abs(lon))), 'n-vector')
        e = p.to_ecef_vector()
        rec.close(e.pvector, q.to_ecef_vector().pvector, 7e6 * 8 * EPS * np.maximum(1, np.max(np.abs(lon))), 'position vector')
        rec.cover(transitions=4, traces=1)
    p = fr.GeoPoint(rd(lat), rd(lon), z, degrees=False)
    verify(p, lat, lon, z, 'from radians')
    small = range(0, lat.size, 1 if level > 1 else 7)
    for i in small:
        p = makers[i % 4](float(lat[i]), float(lon[i]), float(z[i]))
        rec.ok(is_scalar(p.latitude_deg) and is_scalar(p.longitude_deg), 'single values')
        verify(p, float(lat[i]), float(lon[i]), float(z[i]), 'single, from degrees')
        rec.cover(transitions=1, traces=1)
    for form in (lambda v: v.tolist(), lambda v: tuple(v.tolist()), lambda v: v[::-1].copy()[::-1]):
        p = fr.GeoPoint(form(lat), form(lon), form(z), degrees=True)
        verify(p, lat, lon, z, 'lists, from degrees')
        rec.cover(transitions=1, traces=1)
    # one of the two given once
    for a, b in ((45.0, lon), (lat, 30.0), (45.0, lon.tolist()), (45, np.array([1, 2, 3])), ([10, 20], 5)):
        p = fr.GeoPoint(a, b, 3.0, degrees=True)
        x, y = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        verify(p, x, y, np.full(x.shape, 3.0), 'one against many, from degrees')
        rec.cover(transitions=1, traces=1)
    # default is radians
    p = fr.GeoPoint(0.5, 1.0)
    rec.close(np.array([p.latitude, p.longitude]), np.array([0.5, 1.0]), 0, 'radians unless degrees are asked for')
    rec.sample(axes=axes, grid=lat.size)


def bodies(rec, axes, full):
    fr = nv.FrameE(axes=axes)
    A = [0.0, 90.0, -90.0, 30.0, 180.0, -135.5, 360.0, 725.0] if not full else [0.0, 90.0, -90.0, 30.0, 180.0, -180.0, -135.5, 360.0, 725.0, 1e-9, 89.9999, 270.0]
    pts = [(10.0, 20.0, 5.0), (90.0, 0.0, 0.0), (-45.0, 180.0, -3.0)]
    for (la, lo, z), y, p, r in itertools.product(pts, A, A, A):
        P = fr.GeoPoint(la, lo, z, degrees=True)
        d = nv.FrameB(P, y, p, r, degrees=True)
        w = nv.FrameB(P, rd(y), rd(p), rd(r))
        for g, v, what in ((d.yaw, y, 'yaw'), (d.pitch, p, 'pitch'), (d.roll, r, 'roll')):
            rec.close(np.asarray(g), np.asarray(rd(v)), 4 * EPS * abs(rd(v)), what, yaw=y, pitch=p, roll=r)
        rec.close(d.R_EN, w.R_EN, 30 * EPS * 15, 'body frame', yaw=y, pitch=p, roll=r)
        rec.cover(states=1, transitions=2, traces=1)
    # every magnitude of one angle
    P = fr.GeoPoint(10.0, 20.0, 5.0, degrees=True)
    for k, m, sign, which in itertools.product(range(-14, 4), (1.0, 2.0, 5.0, 5.7), (1, -1), range(3)):
        ang = [25.0, -40.0, 110.0]
        ang[which] = sign * m * 10.0 ** k
        d = nv.FrameB(P, *ang, degrees=True)
        for g, v, what in zip((d.yaw, d.pitch, d.roll), ang, ('yaw', 'pitch', 'roll')):
            rec.close(np.asarray(g), np.asarray(rd(v)), 4 * EPS * abs(rd(v)), what + ' of any magnitude', angles=ang)
        rec.cover(states=1, transitions=1, traces=1)
    # defaults and partly given angles
    P = fr.GeoPoint(10.0, 20.0, 5.0, degrees=True)
    for kw in ({}, dict(yaw=30.0), dict(pitch=30.0), dict(roll=30.0), dict(yaw=10.0, roll=-40.0), dict(pitch=1.0, roll=2.0)):
        d, w = nv.FrameB(P, degrees=True, **kw), nv.FrameB(P, **{k: rd(v) for k, v in kw.items()})
        rec.close(d.R_EN, w.R_EN, 1e-14, 'body frame, some angles given', given=str(kw))
        rec.cover(states=1, transitions=2, traces=1)
    # arrays and lists of any of the three
    many = np.array([30.0, -100.0, 190.0])
    PS = fr.GeoPoint([10.0, 50.0, -90.0], [20.0, 180.0, 0.0], [1.0, 2.0, 3.0], degrees=True)
    for mask in itertools.product((0, 1, 2), repeat=3):
        vals = [(55.0, many * f, (many * f).tolist())[m] for m, f in zip(mask, (1.0, 0.4, -0.8))]
        rads = [rd(v) for v in vals]
        for pt in (P, PS):
            for pos in (True, False):
                d = nv.FrameB(pt, *vals, degrees=True) if pos else nv.FrameB(pt, yaw=vals[0], pitch=vals[1], roll=vals[2], degrees=True)
                w = nv.FrameB(pt, *rads)
                rec.close(d.R_EN, w.R_EN, 1e-13, 'body frame, arrays', mask=mask)
                e = PS.to_ecef_vector() if pt is PS or any(mask) else P.to_ecef_vector()
                rec.close(e.change_frame(d).pvector, e.change_frame(w).pvector, 1e-6, 'vector in the body frame', mask=mask)
                rec.cover(states=3, transitions=4, traces=1)


def deltas(rec, axes, full):
    fr = nv.FrameE(axes=axes)
    v = lattice(3 if full else 2)
    o = fr.GeoPoint(20.0, 30.0, 0, degrees=True)
    forms = {'N': nv.FrameN(o).Pvector, 'L': nv.FrameL(o, 0.3).Pvector, 'B': nv.FrameB(o, 1, 2, 3, degrees=True).Pvector, 'E': fr.ECEFvector}
    for what, mk_ in forms.items():
        p = mk_(v)
        rec.close(p.azimuth_deg, dg(np.arctan2(v[1], v[0])), 1e-13 * 180, 'azimuth in degrees', v=v)
        rec.close(p.elevation_deg, dg(p.elevation), 1e-13 * 180, 'elevation in degrees', v=v)
        rec.close(p.azimuth_deg, dg(p.azimuth), 1e-13 * 180, 'azimuth in degrees', v=v)
        rec.cover(states=v.shape[1], transitions=4, traces=1)
        for i in range(v.shape[1]):
            q = mk_(v[:, i:i + 1])
            rec.close(np.asarray(q.azimuth_deg), dg(q.azimuth), 1e-13 * 180, 'azimuth in degrees, single', v=v[:, i])
            rec.close(np.asarray(q.elevation_deg), dg(q.elevation), 1e-13 * 180, 'elevation in degrees, single', v=v[:, i])
            rec.cover(states=1, transitions=4, traces=1)


def geodesics(rec, which, unroll, part, full):
    """one signature at a time: FrameE.direct / FrameE.inverse / displace / distance_and_azimuth"""
    L1 = [0.0, 45.0, -30.5, 90.0, -90.0, 89.999, 1e-9, -60.0]
    L2 = [0.0, 180.0, -180.0, 10.0, 359.0, -725.0, 179.9999]
    AZ = [0.0, 90.0, 180.0, -90.0, 45.5, 270.0, -400.0]
    S = [0.0, 1.0, 1e5, 1.5e7, 4.5e7, -3e6]
    Z = [0.0, -1e4, 500.0]
    fr = [nv.FrameE(), nv.FrameE(a=6371009.0, f=0), nv.FrameE(name='Airy 1858', axes='E'), nv.FrameE(a=6.4e6, f=-1 / 120.0)][part]
    tm = 1e-6
    combos = list(itertools.product(L1, L2, AZ, S)) if which == 'direct' else list(itertools.product(L1, L2, L1, L2))
    arr = np.array(combos).T
    kw = dict(long_unroll=unroll)
    z = np.array(Z)[np.arange(arr.shape[1]) % 3]
    def one(vals, zz, single):
        if which == 'direct':
            la, lo, az, s = vals
            d = fr.direct(la, lo, az, s, zz, unroll, True) if single else fr.direct(la, lo, az, s, z=zz, degrees=True, **kw)
            r = fr.direct(rd(la), rd(lo), rd(az), s, zz, unroll, False) if single else fr.direct(rd(la), rd(lo), rd(az), s, z=zz, **kw)
            pole = np.abs(np.abs(d[0]) - 90) < 1e-4
            near = np.where(pole, 1e-3 if not pole.ndim else 1e-3, 0) + 1e-9
            rec.close(np.asarray(d[0]), dg(r[0]), 1e-10, 'latitude', lat=la, lon=lo, az=az, s=s)
            ln = np.asarray(d[1]) - dg(r[1])
            if unroll:
                rec.close(np.where(pole, 0, ln), np.zeros(np.shape(ln)), 1e-9, 'unrolled longitude', lat=la, lon=lo, az=az, s=s)
            else:
                rec.close(np.where(pole, 0, turn(ln, d[1])), np.zeros(np.shape(ln)), 1e-9, 'longitude', lat=la, lon=lo, az=az, s=s)
            da = np.asarray(d[2]) - dg(r[2])
            rec.close(np.where(pole, 0, turn(da, d[2])), np.zeros(np.shape(da)), 1e-9, 'azimuth at the end', lat=la, lon=lo, az=az, s=s)
            A = fr.GeoPoint(la, lo, zz, degrees=True)
            AR = fr.GeoPoint(rd(la), rd(lo), zz)
            for method in (None, 'ellipsoid', 'e', 'greatcircle'):
                k2 = {} if method is None else dict(method=method)
                B, b = A.displace(s, az, degrees=True, **kw, **k2)
                C, c = AR.displace(s, rd(az), degrees=False, **kw, **k2)
                X, Y = B.to_nvector(), C.to_nvector()
                rec.close(X.normal, Y.normal, 1e-12, 'displaced position', method=str(method), lat=la, lon=lo, az=az, s=s)
                rec.close(np.asarray(B.z, dtype=float), np.asarray(C.z, dtype=float), 0, 'depth')
                if unroll and (method or 'e')[0] == 'e':
                    rec.close(np.where(pole, 0, B.longitude_deg - dg(C.longitude)), np.zeros(np.shape(ln)), 1e-9, 'unrolled longitude of the position', lat=la, lon=lo, az=az, s=s)
                sing = (np.abs(np.abs(B.latitude_deg) - 90) < 1e-4) | (np.abs(np.abs(la) - 90) < 1e-6) | (np.abs(s) < 1e-3)
                if (method or 'e')[0] != 'e':
                    half = np.mod(np.abs(s) / (np.pi * fr.a), 1)
                    sing = sing | (half < 1e-3) | (half > 1 - 1e-3)
                else:
                    sing = pole
                db = np.asarray(b) - dg(c)
                rec.close(np.where(sing, 0, turn(db, b)), np.zeros(np.shape(db)), 1e-7, 'azimuth of arrival', method=str(method), lat=la, lon=lo, az=az, s=s)
        else:
            la, lo, lb, lob = vals
            d = fr.inverse(la, lo, lb, lob, zz, unroll, True) if single else fr.inverse(la, lo, lb, lob, z=zz, degrees=True, **kw)
            r = fr.inverse(rd(la), rd(lo), rd(lb), rd(lob), zz, unroll, False) if single else fr.inverse(rd(la), rd(lo), rd(lb), rd(lob), z=zz, **kw)
            rec.close(np.asarray(d[0]), np.asarray(r[0]), tm, 'distance', la=la, lo=lo, lb=lb, lob=lob)
            A, B = fr.GeoPoint(la, lo, zz, degrees=True), fr.GeoPoint(lb, lob, zz, degrees=True)
            AR, BR = fr.GeoPoint(rd(la), rd(lo), zz), fr.GeoPoint(rd(lb), rd(lob), zz)
            # directions are ill-conditioned for (nearly) coincident, antipodal and polar positions
            na, nb = ref.nvec(rd(la), rd(lo)), ref.nvec(rd(lb), rd(lob))
            th = ref.f64(ref.angle(np.atleast_2d(na.T).T if na.ndim == 1 else na, nb if nb.ndim > 1 else np.atleast_2d(nb.T).T))
            th = th[0] if np.ndim(la) == 0 and np.ndim(th) else th
            bad = (th < 1e-2) | (th > 3.1) | (np.abs(np.abs(la) - 90) < 1e-2) | (np.abs(np.abs(lb) - 90) < 1e-2)
            for j in (1, 2):
                dd = np.asarray(d[j]) - dg(r[j])
                rec.close(np.where(bad, 0, turn(dd, d[j])), np.zeros(np.shape(dd)), 1e-9, 'azimuth %d' % j, la=la, lo=lo, lb=lb, lob=lob)
            for method in (None, 'ellipsoid', 'e', 'greatcircle', 'g'):
                k2 = {} if method is None else dict(method=method)
                d = A.distance_and_azimuth(B, degrees=True, **kw, **k2)
                for P, Q in ((A, B), (AR, BR), (A, BR)):
                    r = P.distance_and_azimuth(Q, degrees=False, **kw, **k2)
                    rec.close(np.asarray(d[0]), np.asarray(r[0]), tm, 'distance', method=str(method), la=la, lo=lo, lb=lb, lob=lob)
                    for j in (1, 2):
                        dd = np.asarray(d[j]) - dg(r[j])
                        rec.close(np.where(bad, 0, turn(dd, d[j])), np.zeros(np.shape(dd)), 1e-9, 'azimuth %d of distance_and_azimuth' % j,
                                  method=str(method), la=la, lo=lo, lb=lb, lob=lob)
        rec.cover(states=np.size(zz), transitions=10, traces=1)
    rec.context = dict(which=which, unroll=unroll, part=part)
    size = 97
    for s, e in chunks(arr.shape[1], size):
        one(list(arr[:, s:e]), z[s:e], False)
    for i in range(0, arr.shape[1], 3 if full else 41):
        one([float(v) for v in arr[:, i]], float(z[i]), True)
    rec.sample(which=which, unroll=unroll, first=arr[:, 100])
