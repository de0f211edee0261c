from mc.ops import *
from mc.c18 import layout

BOUNDS = """every operation of the catalogue (about 90, functional and object interface) x every element of the table of elements (positions
including exact poles for the conventions that are exact permutations, near-pole, antimeridian, equator) x every pair of axes out of: none
given, 'e', 'E', a cyclic permutation and two rational rotations (functional interface), and x ellipsoids; single and array form. Oracle: the
answer of the same call with the default axes, vectors mapped back by the known rotation."""


def tasks(tier):
    q = tier == 'quick'
    out = []
    for name, o in OPS.items():
        if not o.axes:
            continue
        if o.group == 'f':
            pairs = [('default', a) for a in ('e', 'E', 'R3', 'R1', 'R2')]
        else:
            pairs = [('e', 'E')]
        for ref_axes, axes in pairs:
            for ell in (['wgs84', 'sphere'] if q else ['wgs84', 'sphere', 'prolate', 'flat50', 'unit']):
                if ell == 'unit' and o.group == 'o':
                    continue
                out.append(('compare', dict(name=name, ref_axes=ref_axes, axes=axes, ell=ell, E=80 if q else 640)))
    for axes in ('E', 'e'):
        out.append(('frame_axes', dict(axes=axes)))
    return out


def compare(rec, name, ref_axes, axes, ell, E):
    o = OPS[name]
    exact = exact_axes(axes)
    el = elements(E, poles=exact)
    rec.context = dict(op=name, axes=axes, ellipsoid=ell)
    cx0, cx1 = Cx(axes=ref_axes, ell=ell), Cx(axes=axes, ell=ell)
    s0, s1 = Cx(axes=ref_axes, ell=ell, single=True), Cx(axes=axes, ell=ell, single=True)
    scale = 3.0 if exact else 100.0
    if ell == 'unit':
        scale *= 1.0
    if not o.onlysingle:
        vals = [take(el, p, slice(0, E)) for p in o.params]
        want, got = o.run(cx0, vals, E), o.run(cx1, vals, E)
        same(rec, got, want, 'array answers with other axes', scale)
        rec.cover(states=E, transitions=2, traces=1)
        for kind, v, _ in want:
            rec.outcome('%s defined' % kind, np.sum(np.isfinite(v)))
            rec.outcome('%s undefined' % kind, np.sum(~np.isfinite(v)))
    for i in range(E):
        vals = [take(el, p, slice(i, i + 1)) for p in o.params]
        want, got = o.run(s0, vals, 1), o.run(s1, vals, 1)
        same(rec, got, want, 'answer with other axes', scale, element=i)
        rec.cover(states=1, transitions=2, traces=1)
    rec.sample(op=name, axes=axes, element=[take(el, p, slice(1, 2)) for p in o.params])


def frame_axes(rec, axes):
    """the frame carries the documented rotation and every object made from it keeps it"""
    fr = nv.FrameE(axes=axes)
    want = {'e': AXES['e'], 'E': np.eye(3)}[axes]
    rec.close(fr.R_Ee, want, 0, 'rotation of the frame')
    rec.close(rotation.E_rotation(axes), want, 0, 'E_rotation')
    p = fr.GeoPoint(10.0, 20.0, 5.0, degrees=True)
    for d in (p, p.to_nvector(), p.to_ecef_vector(), p.to_nvector().to_geo_point(), p.displace(1e5, 0.3)[0], p.displace(1e5, 0.3, method='greatcircle')[0],
              nv.FrameN(p).nvector, nv.FrameL(p, 0.1).nvector, nv.FrameB(p, 1, 2, 3, degrees=True).nvector, p.to_nvector().mean(),
              nv.GeoPath(p, fr.GeoPoint(11.0, 22.0, degrees=True)).interpolate(0.3)):
        rec.close(d.frame.R_Ee, want, 0, 'rotation of the frame of a result')
        rec.cover(states=1, transitions=1, traces=1)
