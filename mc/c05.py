from mc.common import *

BOUNDS = """all ordered pairs of the position alphabet (coincident, antipodal, polar, antimeridian) and of close neighbours
(1e-6 m .. 1 km) x ellipsoids x axes x representation of each operand x frame kind (N, L with wander azimuths, B with
attitudes), single and array; arrays of starts that coincide, are stacked or nearly so; local vectors of equal, nearly equal and very different lengths up to 1e-7 rad
from the vertical; functional deltas for six axes."""

ATT = [(0., 0., 0.), (10., 20., 30.), (-170., -89.9, 180.), (45., 90., -45.), (720., -60., 7.), (90., 0., -90.)]
WA = [0.0, np.pi / 2, -2.5, 3.5, 10.0]


def tasks(tier):
    q = tier == 'quick'
    out = []
    ells = ('wgs84', 'sphere', 'prolate') if q else list(alph.ELLIPSOIDS)
    for ell in ells:
        for axes in AXES:
            out.append(('functional', dict(ell=ell, axes=axes, level=0 if q else 1)))
    for axes in ('e', 'E'):
        out.append(('vectors', dict(axes=axes)))
    for ell in ells[:3]:
        for axes in ('e', 'E'):
            for i in range(len(alph.POSITIONS)):
                out.append(('single', dict(ell=ell, axes=axes, i=i, full=not q)))
            for ka in KINDS:
                for kb in KINDS:
                    out.append(('arrays', dict(ell=ell, axes=axes, ka=ka, kb=kb)))
                    out.append(('stacked', dict(ell=ell, axes=axes, ka=ka, kb=kb)))
    return out


def functional(rec, ell, axes, level):
    a, f = alph.ELLIPSOIDS[ell]
    sc = a / 6371009.0 if a < 1000 else 1
    lat, lon = alph.grid(alph.lats(0), alph.lons(0)[::1 if level else 2])
    n = nE(lat, lon, axes)
    m = lat.size
    ia, ib = [v.ravel() for v in np.meshgrid(np.arange(m), np.arange(m), indexing='ij')]
    if not level:
        ia, ib = ia[::7], ib[::7]
    za = np.resize(np.array(alph.depths(0)), ia.size) * sc
    zb = np.resize(np.array(alph.depths(0))[::-1][:5], ia.size) * sc
    na, nb = n[:, ia], n[:, ib]
    kw = dict(a=a, f=f, **kwR(axes))
    pa = ref.ecef(ref.unit(toG(axes, na)), za, a, f)
    pb = ref.ecef(ref.unit(toG(axes, nb)), zb, a, f)
    tol = 48 * EPS * (a + np.abs(za) + np.abs(zb))
    rec.cover(states=ia.size, transitions=3 * ia.size, traces=ia.size)
    p = nv.n_EA_E_and_n_EB_E2p_AB_E(na, nb, za, zb, **kw)
    rec.sample(ell=ell, axes=axes, n_EA_E=na[:, 3], n_EB_E=nb[:, 3], z=(za[3], zb[3]), p_AB_E=p[:, 3])
    rec.close(p, toE(axes, pb - pa), tol, 'delta E (functional)', na=na, nb=nb, za=za, zb=zb)
    p0 = nv.n_EA_E_and_n_EB_E2p_AB_E(na, nb, **kw)
    w0 = ref.ecef(ref.unit(toG(axes, nb)), 0, a, f) - ref.ecef(ref.unit(toG(axes, na)), 0, a, f)
    rec.close(p0, toE(axes, w0), tol, 'delta E at the surface by default', na=na, nb=nb)
    n2, z2 = nv.n_EA_E_and_p_AB_E2n_EB_E(na, ref.f64(toE(axes, pb - pa)), za, **kw)
    rec.close(ref.ecef(ref.unit(toG(axes, n2)), z2, a, f), pb, 8 * tol, 'position B from A and delta', na=na, nb=nb)
    rec.close(n2, ref.ld(nb), 512 * EPS, 'n-vector of B from A and delta', na=na, nb=nb)
    # straight down / up: the other position lies on the vertical of A
    for dz in (1e-3, 1.0, -5.0, 1000.0):
        p = nv.n_EA_E_and_n_EB_E2p_AB_E(n, n, 0, dz * sc, **kw)
        rec.close(p, -ref.ld(n) * ref.LD(dz * sc), 48 * EPS * a, 'delta along the vertical', lat=lat, lon=lon)
        rec.cover(states=m, transitions=m, traces=m)


def _vec_check(rec, v, want, tol, what, **info):
    """v: Pvector answering with components want (3, n) """
    if not rec.close(v.pvector, want, tol, what + ': components', **info):
        return
    w = ref.ld(v.pvector)
    L = ref.norm(w)
    big = L > 1e-6 * 1e-3
    h = np.hypot(w[0], w[1])
    got = dict(length=np.atleast_1d(v.length), azimuth=np.atleast_1d(v.azimuth), elevation=np.atleast_1d(v.elevation))
    rec.close(got['length'], L, 16 * EPS * L + 1e-30, what + ': length', **info)
    az = np.arctan2(w[1], w[0])
    rec.close(np.where(h > 0, ref.wrap(got['azimuth'] - az), 0), 0 * az, 16 * EPS, what + ': azimuth', **info)
    with np.errstate(all='ignore'):
        el = np.arctan2(w[2], h)
        tol = 16 * EPS + np.minimum(8 * EPS * L / h, 1e-7)
    rec.close(np.where(big, got['elevation'], 0), np.where(big, el, 0), np.where(big, tol, 1), what + ': elevation', **info)
    rec.close(np.where(big, v.azimuth_deg, 0), np.where(big, az * 180 / ref.PI, 0), 1e-12, what + ': azimuth in degrees', **info)
    rec.close(np.where(big, v.elevation_deg, 0), np.where(big, el * 180 / ref.PI, 0), np.where(big, 60 * tol, 1) + 1e-13,
              what + ': elevation in degrees', **info)


def _deltas(rec, axes, frame, A, B, a_scalar, pa, pb, na, single, full, what, wz):
    """A, B: objects; pa, pb: their reference positions in g; na: reference normal of A (E axes)"""
    d = pb - pa
    tol = 64 * EPS * 2 * frame.a
    de = nv.delta_E(A, B)
    info = dict(case=what)
    rec.cover(transitions=1)
    rec.ok(type(de) is nv.ECEFvector and de.frame == frame, 'delta_E is an ECEF vector of the same frame', **info)
    rec.close(de.pvector, toE(axes, d), tol, 'delta_E', **info)
    if np.shape(de.pvector) != d.shape:
        return
    rec.ok(bool(de.scalar) == single, 'delta_E scalar for single positions', **info)
    back = A.to_ecef_vector() + de
    rec.close(back.pvector, toE(axes, pb), tol, 'A + delta = B', **info)
    if single:
        rec.ok(is_scalar(de.length), 'scalar length', **info)
    g = ref.unit(toG(axes, na))
    h = np.hypot(g[0], g[1])
    ok = h > 1e-9   # north is defined
    amp = 1 + 4 * np.where(ok, 1 / np.where(ok, h, 1), 0) * EPS / (64 * EPS)
    MN = local_axes(axes, na) if ok.all() else None

    def local(vec, M, name):
        rec.cover(transitions=1)
        rec.ok(type(vec) is nv.Pvector and bool(vec.scalar) == single, name + ': vector, scalar when single', **info)
        if M is not None:
            want = mv3(tr3(M), d)
            t = tol * amp
            _vec_check(rec, vec, want, t, name, **info)
        rec.close(ref.norm(ref.ld(vec.pvector)), ref.norm(d), tol, name + ': same length', **info)
        rec.close(vec.to_ecef_vector().pvector, toE(axes, d), 2 * tol, name + ': converts back to the same Earth vector', **info)
        back = A.to_ecef_vector() + vec.to_ecef_vector()
        rec.close(back.pvector, toE(axes, pb), 2 * tol, name + ': added to A gives B', **info)

    dn = nv.delta_N(A, B)
    local(dn, MN, 'delta_N')
    rec.close(dn.pvector[2], -ref.dot(g, d), tol, 'delta_N: down component', **info)
    rec.close(A.delta_to(B).pvector, ref.ld(dn.pvector), 1e-30, 'delta_to is delta_N', **info)
    local(de.change_frame(nv.FrameN(A)), MN, 'change_frame to N')
    for wa in WA if full else WA[1:3]:
        ML = mm3(MN, ref.rot(2, [wa])) if MN is not None else None
        local(nv.delta_L(A, B, wander_azimuth=wa), ML, 'delta_L')
        local(de.change_frame(nv.FrameL(A, wander_azimuth=wa)), ML, 'change_frame to L')
    local(nv.delta_L(A, B), MN, 'delta_L without wander azimuth')
    for ypr in ATT if full else ATT[1:3]:
        MB = None
        y = [np.array([v]) * ref.PI / 180 for v in ypr]
        if MN is not None:
            MB = mm3(mm3(mm3(MN, ref.rot(2, y[0])), ref.rot(1, y[1])), ref.rot(0, y[2]))
        local(de.change_frame(nv.FrameB(A, *ypr, degrees=True)), MB, 'change_frame to B (degrees)')
        local(de.change_frame(nv.FrameB(A, *[float(v[0]) for v in y])), MB, 'change_frame to B (radians)')


def single(rec, ell, axes, i, full):
    frame = frameE(ell, axes)
    lat, lon, z = positions_deg()
    others = [(lat[j], lon[j], z[j]) for j in range(len(lat))]
    others += [(-lat[i], lon[i] + np.pi, z[i]), (-lat[i], lon[i] + np.pi, -z[i])]
    others += [(lat[i] - k / 6371e3, lon[i], z[i]) for k in (1e-6, 1e-3, 1.0, 1000.0)]
    others += [(lat[i], lon[i] + k / 6371e3, z[i] + k) for k in (1e-3, 1.0, -1000.0)]
    others += [(lat[i], lon[i], z[i] + k) for k in (1e-3, -2.0, 3000.0)]
    kinds = [(ka, kb) for ka in KINDS for kb in KINDS]
    for j, (la, lo, zz) in enumerate(others):
        pick = kinds if full else [kinds[j % 9], kinds[(j + 4) % 9]]
        for ka, kb in pick:
            A = mk(ka, frame, axes, float(lat[i]), float(lon[i]), float(z[i]))
            B = mk(kb, frame, axes, float(la), float(lo), float(zz))
            pa, pb = obj_ecef(A, axes), obj_ecef(B, axes)
            na = nE(lat[i:i + 1], lon[i:i + 1], axes)
            rec.cover(states=1, traces=1)
            _deltas(rec, axes, frame, A, B, True, pa, pb, na, True, full,
                    dict(A=(lat[i], lon[i], z[i], ka), B=(la, lo, zz, kb)), (z[i], zz))


def vectors(rec, axes):
    """local vectors of (almost) equal and of very different lengths: length, azimuth and elevation of every one"""
    frame = frameE('wgs84', axes)
    lat, lon, z = positions_deg()
    el = np.concatenate([[0.0, 0.3, -0.9, 1.5], (np.pi / 2 - 10.0 ** -np.arange(1, 8)) * [1, -1, 1, -1, 1, -1, 1]])
    az = np.array([0.0, 1.0, -2.0, 3.0, np.pi, -np.pi / 2])
    E_, A_ = alph.grid(el, az)
    for L in (1.0, 1e6, 1e-3):
        for spread in (0.0, 1e-15, 5e-7, 1e-3, 1.0, 1e6):
            for order in (1, -1):
                n = E_.size
                Ls = L * (1 + spread * (np.arange(n) % 5) / 4)[::order]
                v = np.array([np.cos(E_) * np.cos(A_), np.cos(E_) * np.sin(A_), -np.sin(E_)]) * Ls
                for i in (0, 4, 12):
                    A = frame.GeoPoint(float(lat[i]), float(lon[i]), float(z[i]))
                    for fr in (nv.FrameN(A), nv.FrameL(A, 0.4), nv.FrameB(A, 0.1, 0.2, 0.3)):
                        p = fr.Pvector(v)
                        rec.cover(states=n, transitions=5 * n, traces=n)
                        _vec_check(rec, p, ref.ld(v), 0, 'vectors', length=L, spread=spread)
                        for ix in pieces(n, 3, order) if i == 0 else ():
                            q = fr.Pvector(v[:, ix])
                            rec.cover(states=ix.size, transitions=5 * ix.size, traces=ix.size)
                            if ix.size > 1:
                                _vec_check(rec, q, ref.ld(v[:, ix]), 0, 'few vectors', length=L, spread=spread)


def stacked(rec, ell, axes, ka, kb):
    """starts that differ in depth, in one coordinate or in nothing"""
    frame = frameE(ell, axes)
    lat, lon, z = positions_deg()
    n = 3
    for i in range(len(lat)):
        if abs(abs(lat[i]) - np.pi / 2) < 1e-9:
            continue
        for what, (da, do, dz) in dict(equal=(0, 0, 0), above=(0, 0, 100.5), meridian=(1e-3, 0, 0), parallel=(0, 2e-3, 0), close=(1e-9, 1e-9, 1e-3)).items():
            k = np.arange(n) - 1
            J = (i + 3 + np.arange(n)) % len(lat)
            la, lo, zz = lat[i] - np.sign(lat[i]) * abs(da * k), lon[i] + do * k, z[i] + dz * k
            A, B = mk(ka, frame, axes, la, lo, zz), mk(kb, frame, axes, lat[J], lon[J], z[J])
            rec.cover(states=n, traces=1)
            _deltas(rec, axes, frame, A, B, False, obj_ecef(A, axes), obj_ecef(B, axes), nE(la, lo, axes), False, False,
                    dict(i=i, starts=what, ka=ka, kb=kb), None)


def arrays(rec, ell, axes, ka, kb):
    frame = frameE(ell, axes)
    lat, lon, z = positions_deg()
    N = len(lat)
    nonpole = [i for i in range(N) if abs(abs(lat[i]) - np.pi / 2) > 1e-9]
    for shift in range(0, len(nonpole)):
        idx = np.array(nonpole)
        jdx = (idx + shift) % N
        for n in (1, 2, 3, len(idx)):
            I, J = idx[:n], jdx[:n]
            A = mk(ka, frame, axes, lat[I], lon[I], z[I])
            B = mk(kb, frame, axes, lat[J], lon[J], z[J])
            rec.cover(states=n, traces=1)
            _deltas(rec, axes, frame, A, B, False, obj_ecef(A, axes), obj_ecef(B, axes), nE(lat[I], lon[I], axes), False,
                    False, dict(I=I, J=J, ka=ka, kb=kb), None)
        # one against many
        i0 = nonpole[shift]
        A = mk(ka, frame, axes, float(lat[i0]), float(lon[i0]), float(z[i0]))
        B = mk(kb, frame, axes, lat[idx], lon[idx], z[idx])
        pa = obj_ecef(A, axes)
        na = np.repeat(nE(lat[i0:i0 + 1], lon[i0:i0 + 1], axes), len(idx), axis=1)
        rec.cover(states=len(idx), traces=1)
        _deltas(rec, axes, frame, A, B, True, np.repeat(pa, len(idx), axis=1), obj_ecef(B, axes), na, False, False,
                dict(A=i0, J='all', ka=ka, kb=kb), None)
        # one vector seen from many local frames
        de = nv.delta_E(mk(ka, frame, axes, float(lat[i0]), float(lon[i0]), float(z[i0])), mk(kb, frame, axes, float(lat[0]), float(lon[0]), float(z[0])))
        d1 = np.repeat(toG(axes, de.pvector), len(idx), axis=1)
        MN = local_axes(axes, nE(lat[idx], lon[idx], axes))
        for name, fr, M in (('N', nv.FrameN(B), MN), ('L', nv.FrameL(B, 0.7), mm3(MN, ref.rot(2, [0.7])))):
            v = de.change_frame(fr)
            rec.cover(states=len(idx), transitions=1, traces=1)
            rec.ok(not v.scalar, 'one vector in many frames is many vectors', frame=name)
            _vec_check(rec, v, mv3(tr3(M), d1), 64 * EPS * 2 * frame.a * (1 + 1 / np.hypot(MN[0, 2], MN[1, 2])), 'one vector in many local frames', frame=name)
            one = np.array([[1000.0], [-2e5], [30.0]])
            many = nv.Pvector(one, frame=fr, scalar=True).to_ecef_vector()
            rec.close(many.pvector, toE(axes, mv3(M, np.repeat(ref.ld(one), len(idx), axis=1))), 64 * EPS * 3e5 * (1 + 1 / np.hypot(MN[0, 2], MN[1, 2])), 'one local vector in many frames', frame=name)
            rec.ok(np.shape(many.length) == (len(idx),), 'one local vector in many frames is many vectors', frame=name, shape=np.shape(many.length))
        A, B = B, A
        rec.cover(states=len(idx), traces=1)
        _deltas(rec, axes, frame, A, B, False, obj_ecef(A, axes), np.repeat(obj_ecef(B, axes), len(idx), axis=1),
                nE(lat[idx], lon[idx], axes), False, False, dict(A='all', J=i0, ka=kb, kb=ka), None)
