import itertools
from mc.common import *

BOUNDS = """every documented ellipsoid number and name x every capitalisation pattern of its first eight letters and whole-name styles x every way of inserting
single or double spaces; every unknown number in a range and every one-letter mutation of every name; FrameE for every subset of explicit parameters
(semi-axis, flattening, name, axes) over an alphabet of values (zero flattening and prolate included), positional and by keyword."""

# number: (semi-major axis, inverse flattening, names); figures as published (DMA TR 8350.2, EPSG)
TABLE = {
    1: ('6377563.396', '299.3249646', ['Airy 1858']),
    2: ('6377340.189', '299.3249646', ['Airy Modified']),
    3: ('6378160', '298.25', ['Australian National']),
    4: ('6377397.155', '299.1528128', ['Bessel 1841', 'Bessel']),
    5: ('6378249.145', '293.465', ['Clarke 1880']),
    6: ('6377276.345', '300.8017', ['Everest 1830']),
    7: ('6377304.063', '300.8017', ['Everest Modified']),
    8: ('6378166', '298.3', ['Fisher 1960']),
    9: ('6378150', '298.3', ['Fisher 1968']),
    10: ('6378270', '297', ['Hough 1956', 'Hough']),
    11: ('6378388', '297', ['International', 'Hayford', 'ED50']),
    12: ('6378245', '298.3', ['Krassovsky 1938', 'Krassovsky']),
    13: ('6378145', '298.25', ['NWL-9D', 'WGS 66']),
    14: ('6378160', '298.25', ['South American 1969', 'SAD69']),
    15: ('6378136', '298.257', ['Soviet Geod. System 1985']),
    16: ('6378135', '298.26', ['WGS 72']),
    17: ('6378206.4', '294.9786982138', ['Clarke 1866', 'NAD27']),
    18: ('6378137', '298.257223563', ['WGS84', 'GRS80', 'NAD83']),      # one entry for the three, as documented
    19: ('6378137', '298.257222101', ['ETRS89']),
}


def tasks(tier):
    q = tier == 'quick'
    return [('numbers', {})] + [('names', dict(number=n, full=not q)) for n in TABLE] + [('unknown', dict(full=not q)), ('explicit', dict(full=not q)), ('aliases', {})]


def figure(n):
    a, rf, _ = TABLE[n]
    return float(a), 1.0 / float(rf)


def same_figure(rec, ell, n, **info):
    a, f = figure(n)
    rec.ok(abs(ell.a - a) <= 1e-9 * 1e-3 + 1e-9, 'semi-major axis', got=ell.a, want=a, number=n, **info)
    rec.ok(abs(ell.f - f) <= 1e-15, 'flattening', got=ell.f, want=f, number=n, **info)


def frame_of(rec, n, **kw):
    for axes in ('e', 'E'):
        fr = nv.FrameE(axes=axes, **kw)
        same_figure(rec, fr, n, frame=True, **{k: repr(v) for k, v in kw.items()})
        rec.close(fr.R_Ee, AXES[axes], 0, 'axes')
        rec.cover(states=1, transitions=1, traces=1)


def numbers(rec):
    for n in TABLE:
        e = nv.get_ellipsoid(n)
        same_figure(rec, e, n)
        rec.ok(tuple(e) == (e.a, e.f, e.name) and isinstance(e.name, str), 'a named tuple of axis, flattening and name')
        frame_of(rec, n, name=n)
        rec.cover(states=1, transitions=1, traces=1)
    rec.ok(sorted(util.ELLIPSOID) == sorted(TABLE), 'all documented numbers')
    fr = nv.FrameE()
    same_figure(rec, fr, 18)
    for p in (nv.GeoPoint(0, 0), nv.Nvector([[1.0], [0], [0]]), nv.ECEFvector(np.ones((3, 1)))):
        same_figure(rec, p.frame, 18)
    # default arguments of the functional interface are WGS84 too
    n = nE([0.3], [1.0])
    rec.close(nv.n_EB_E2p_EB_E(n, 7.0), nv.n_EB_E2p_EB_E(n, 7.0, *figure(18)), 0, 'default ellipsoid')
    p = np.array([[3e6], [4e6], [3.5e6]])
    rec.close(nv.p_EB_E2n_EB_E(p)[1], nv.p_EB_E2n_EB_E(p, *figure(18))[1], 0, 'default ellipsoid')
    m = nE([0.4], [1.3])
    rec.close(nv.n_EA_E_and_n_EB_E2p_AB_E(n, m, 1, 2), nv.n_EA_E_and_n_EB_E2p_AB_E(n, m, 1, 2, *figure(18)), 0, 'default ellipsoid')
    rec.close(nv.n_EA_E_and_p_AB_E2n_EB_E(n, p, 1)[1], nv.n_EA_E_and_p_AB_E2n_EB_E(n, p, 1, *figure(18))[1], 0, 'default ellipsoid')
    rec.close(nv.n_EA_E_and_n_EB_E2azimuth(n, m), nv.n_EA_E_and_n_EB_E2azimuth(n, m, *figure(18)), 0, 'default ellipsoid')


def spellings(name, full):
    base = name
    out = {base, base.lower(), base.upper(), base.title(), base.swapcase(), base.capitalize()}
    letters = [i for i, c in enumerate(base) if c.isalpha()][:12 if full else 8]
    for bits in itertools.product((0, 1), repeat=len(letters)):
        s = list(base.lower())
        for b, i in zip(bits, letters):
            if b:
                s[i] = s[i].upper()
        out.add(''.join(s))
    for s in (base, base.lower()):
        t = s.replace(' ', '')
        out.add(t)
        for i in range(len(t) + 1):
            out.add(t[:i] + ' ' + t[i:])
            out.add(t[:i] + '  ' + t[i:])
            for j in range(i, len(t) + 1):
                out.add(t[:i] + ' ' + t[i:j] + ' ' + t[j:])
        out.add(' '.join(t))
        out.add(' ' + s + ' ')
    return sorted(out)


def names(rec, number, full):
    for name in TABLE[number][2]:
        for s in spellings(name, full):
            rec.cover(states=1, transitions=1, traces=1)
            try:
                e = nv.get_ellipsoid(s)
            except Exception as exc:
                rec.fail('a documented name is accepted', name=s, error=repr(exc))
                continue
            same_figure(rec, e, number, name=s)
        for s in (name, name.lower(), name.upper().replace(' ', '')):
            frame_of(rec, number, name=s)
            fr = nv.FrameE(None, None, s)
            same_figure(rec, fr, number, name=s)
            same_figure(rec, nv.GeoPoint(0.1, 0.2, frame=nv.FrameE(name=s)).to_ecef_vector().frame, number, name=s)
    rec.sample(number=number, names=TABLE[number][2], spellings=len(spellings(TABLE[number][2][0], full)))


def aliases(rec):
    """names of one number agree in everything, names of different figures differ"""
    flat = [(n, s) for n, (_, _, ss) in TABLE.items() for s in ss]
    for (n, s), (m, t) in itertools.product(flat, flat):
        x, y = nv.FrameE(name=s), nv.FrameE(name=t)
        rec.ok((x == y) == (figure(n) == figure(m)), 'frames of two names are equal exactly when the figures are', names=(s, t))
        if n == m:
            rec.ok(nv.get_ellipsoid(s) == nv.get_ellipsoid(t) == nv.get_ellipsoid(n), 'aliases agree', names=(s, t))
        rec.cover(states=1, transitions=2, traces=1)


def refused(rec, fun, what, **info):
    try:
        got = fun()
    except Exception:
        rec.outcome('refused')
        return
    rec.fail(what, got=repr(got)[:200], **info)


def unknown(rec, full):
    known = {s.lower().replace(' ', '') for _, _, ss in TABLE.values() for s in ss}
    known |= set(util.ELLIPSOID_IX)          # spellings the catalogue adds are its own business
    for n in [0, -1, 20, 21, 100, 1000] + list(range(-50, 0)) + list(range(20, 200)):
        refused(rec, lambda: nv.get_ellipsoid(n), 'an unknown number is an error', number=n)
        refused(rec, lambda: nv.FrameE(name=n), 'an unknown number is an error', number=n)
        rec.cover(states=1, transitions=2, traces=1)
    for s in ['', ' ', 'x', 'wgs', 'wgs85', 'wgs-84', 'grs', 'nad', 'ed', 'clarke', 'fisher', 'everest', 'airy', '18 ', None, '84']:
        if isinstance(s, str) and s.lower().replace(' ', '') in known:
            continue
        refused(rec, lambda: nv.get_ellipsoid(s), 'an unknown name is an error', name=s)
        refused(rec, lambda: nv.FrameE(name=s), 'an unknown name is an error', name=s)
    letters = 'abcdefghijklmnopqrstuvwxyz0123456789.-' if full else 'axz0589'
    for k in sorted(known):
        muts = {k[:i] + k[i + 1:] for i in range(len(k))}
        muts |= {k[:i] + c + k[i + 1:] for i in range(len(k)) for c in letters}
        muts |= {k[:i] + c + k[i:] for i in range(len(k) + 1) for c in letters}
        for s in sorted(muts - known):
            refused(rec, lambda: nv.get_ellipsoid(s), 'an unknown name is an error', name=s)
            rec.cover(states=1, transitions=1, traces=1)


def explicit(rec, full):
    AS = [None, 6378137.0, 6371009.0, 1.0, 6378137, 6300000.5, 1e9]
    FS = [None, 0, 0.0, 1 / 298.257223563, 0.1, -1 / 150.0, 1 / 299.0, 1e-12]
    NAMES = [None] + [18, 16, 'WGS84', 'wgs 72', 'Airy 1858', 'ETRS89', 'my planet']
    for a, f, name, axes in itertools.product(AS, FS, NAMES, (None, 'e', 'E')):
        if name == 'my planet' and (a is None or f is None):
            refused(rec, lambda: nv.FrameE(a=a, f=f, name=name), 'an unknown name is an error', a=a, f=f)
            continue
        base = {None: 18, 18: 18, 16: 16, 'WGS84': 18, 'wgs 72': 16, 'Airy 1858': 1, 'ETRS89': 19, 'my planet': 18}[name]
        wa, wf = figure(base)
        wa, wf = (wa if a is None else a), (wf if f is None else f)
        kw = {}
        if a is not None:
            kw['a'] = a
        if f is not None:
            kw['f'] = f
        if name is not None:
            kw['name'] = name
        if axes is not None:
            kw['axes'] = axes
        forms = [nv.FrameE(**kw)]
        if name is not None:
            forms.append(nv.FrameE(a, f, name, *([axes] if axes else [])))
        for fr in forms:
            rec.cover(states=1, transitions=1, traces=1)
            rec.ok(fr.a == wa and abs(fr.f - wf) <= (0 if f is not None else 1e-15), 'the parameters given are used', a=a, f=f, name=name, got=(fr.a, fr.f))
            rec.close(fr.R_Ee, AXES[axes or 'e'], 0, 'axes')
        # ... in answers too
        p = fr.GeoPoint(0.0, 0.0).to_ecef_vector().pvector
        rec.close(np.sqrt(np.sum(p ** 2)), wa, 1e-12 * wa, 'equatorial radius')
        p = fr.GeoPoint(np.pi / 2, 0.0).to_ecef_vector().pvector
        rec.close(np.sqrt(np.sum(p ** 2)), wa * (1 - wf), 1e-12 * wa, 'polar radius')
        s = fr.inverse(0.0, 0.0, 0.0, 0.5)[0]
        rec.close(np.asarray(s), np.asarray(0.5 * wa), 1e-9 * wa, 'equatorial distance')
    for axes in ('x', 'ee', '', None, 1, 'z'):
        refused(rec, lambda: nv.FrameE(axes=axes), 'unknown axes are an error', axes=repr(axes))
        refused(rec, lambda: nv.E_rotation(axes), 'unknown axes are an error', axes=repr(axes))
