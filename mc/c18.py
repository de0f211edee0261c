import itertools
from mc.ops import *

BOUNDS = """every operation of the catalogue (functional and object interface) x every array length 0-130, round numbers and powers of two up to 4097 and their neighbours, 10007 .. 100003 x every
window of the element table x every broadcasting pattern (each parameter an array or a single position) x memory layouts (plain,
strided, reversed, Fortran order, read-only) x nesting (arrays, lists, 0-dimensional arrays) x number types (float64, integers) x
axes; oracle: the operation called once per element."""

BIG = [33, 257, 1000, 1025, 4099, 10007, 65537, 100003]
SIZES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 16]
MANY = list(range(10, 131)) + [n + d for n in (150, 180, 200, 250, 256, 300, 360, 365, 400, 500, 512, 720, 750, 1000, 1024, 1440, 1500, 2000, 2048, 3000, 3600, 4000, 4096)
                               for d in (-1, 0, 1)]
MANY_SLOW = sorted(set(range(10, 131, 6)) | {30, 32, 50, 60, 64, 100, 128, 180, 200, 250, 255, 256, 257, 360})
E_ = 24


def layout(name):
    def lay(v, what):
        v = np.asarray(v)
        if name == 'strided':
            return np.repeat(v, 2, axis=-1)[..., ::2]
        if name == 'reversed':
            return v[..., ::-1].copy()[..., ::-1]
        if name == 'fortran':
            return np.asfortranarray(v)
        if name == 'readonly':
            v = v.copy()
            v.flags.writeable = False
            return v
        if name == 'list' and what == 'num':
            return v.tolist()
        if name == 'transposed' and v.ndim > 1:
            return np.array(np.moveaxis(v, -1, 0).copy().swapaxes(0, 0)).transpose(*(list(range(1, v.ndim)) + [0]))
        return v
    return lay


LAYOUTS = ['plain', 'strided', 'reversed', 'fortran', 'readonly', 'list', 'transposed']


def tasks(tier):
    q = tier == 'quick'
    out = []
    for name, o in OPS.items():
        if o.onlysingle:
            continue
        axs = ['e', 'E'] if o.axes else ['e']
        if not q and o.axes and o.group == 'f':
            axs += ['R1', 'R3']
        for axes in axs:
            out.append(('arrays', dict(name=name, axes=axes, full=not q)))
        out.append(('integers', dict(name=name)))
        out += [('crowds', dict(name=name, axes=axes, full=not q)) for axes in axs[:1 if q else None]]
    return out


# answers that are one number for a single position, whatever form it came in (distances taken by the length of a vector)
SCALARS = {('gc', 2), ('GeoPath_cross_track_distance', 2)}


def singles(o, axes, el, want_scalar=None, rec=None):
    """answers of the E_ single calls, concatenated"""
    cx = Cx(axes=axes, single=True)
    outs = []
    for i in range(E_):
        vals = [take(el, p, slice(i, i + 1)) for p in o.params]
        raw = o.fn(cx, *vals)
        if rec is not None:
            if o.group == 'o':
                for kind, v in raw:
                    if kind in ('a', 'lon', 'z', 'b', 'm', 'x'):
                        rec.ok(is_scalar(v), 'a single input gives a scalar answer', op=o.name, kind=kind, shape=np.shape(v))
        outs.append(canon(cx, raw, 1))
    return [(outs[0][j][0], np.concatenate([outs[i][j][1] for i in range(E_)], axis=1),
             next((outs[i][j][2] for i in range(E_) if outs[i][j][2]), None)) for j in range(len(outs[0]))]


def pick(c, idx):
    return [(k, v[:, idx], n) for k, v, n in c]


def arrays(rec, name, axes, full):
    o = OPS[name]
    el = elements(E_)
    rec.context = dict(op=name, axes=axes)
    one = singles(o, axes, el, rec=rec)
    rec.cover(states=E_, transitions=E_, traces=E_)
    for kind, v, note in one:
        rec.ok(note is None, 'single answer: %s' % note)
        rec.outcome('finite answers', np.sum(np.isfinite(v)))
        rec.outcome('undefined answers', np.sum(~np.isfinite(v)))
        if kind == 'b':
            rec.outcome('%s true' % name, np.sum(v == 1))
            rec.outcome('%s false' % name, np.sum(v == 0))
    if o.group == 'o' and 'ecef' not in name and 'ECEF' not in name:
        # arrays of one position are arrays: the answer is an array of one (Cartesian vectors of shape (3, 1) have no such form)
        for i in range(E_):
            raw = o.fn(Cx(axes=axes), *[take(el, p, slice(i, i + 1)) for p in o.params])
            rec.cover(states=1, transitions=1, traces=1)
            for j, (kind, v) in enumerate(raw):
                if kind in ('a', 'lon', 'z', 'b', 'm', 'x') and (name.split('_')[0], j) not in SCALARS and (name, j) not in SCALARS:
                    rec.ok(np.shape(v) == (1,), 'an array of one position gives an array of one answer', op=name, kind=kind, j=j, shape=np.shape(v))
    for lname in LAYOUTS:
        if lname == 'list' and not o.listok:
            continue
        cx = Cx(axes=axes, lay=layout(lname))
        sizes = SIZES + ([] if lname != 'plain' else BIG if full else BIG[1::2])
        for k in sizes:
            if k > 16 and ('ellips' in name or 'FrameE' in name or 'unrolled' in name) and not full and k > 300:
                continue
            starts = range(0, E_, 1 if full or lname == 'plain' else 5) if k <= 16 else [0, 7] if k < 2000 else [3]
            for s in starts:
                idx = (s + np.arange(k)) % E_
                got = o.run(cx, [take(el, p, idx) for p in o.params], k)
                rec.cover(states=k, transitions=1, traces=1)
                same(rec, got, pick(one, idx), 'array call, %s' % lname, size=k, start=s)
    # nothing in, nothing out
    got = o.fn(Cx(axes=axes), *[take(el, p, slice(0, 0)) for p in o.params])
    rec.cover(states=1, transitions=1, traces=1)
    for j, (kind, v) in enumerate(got):
        rec.ok(np.size(v) == 0, 'no positions give no answers', op=name, kind=kind, j=j, shape=np.shape(v))
    # every length, a different start each
    slow = 'ellips' in name or 'FrameE' in name or 'unrolled' in name
    cx = Cx(axes=axes)
    for k in (MANY_SLOW if slow else MANY):
        idx = (k * 7 + np.arange(k)) % E_
        got = o.run(cx, [take(el, p, idx) for p in o.params], k)
        rec.cover(states=k, transitions=1, traces=1)
        same(rec, got, pick(one, idx), 'array call of any length', size=k, start=k * 7 % E_)
    # one position broadcast against many: every non-trivial pattern of which parameters are single
    if len(o.params) > 1 and name not in ('GeoPath_ends',):
        for mask in itertools.product((0, 1), repeat=len(o.params)):
            if all(mask) or not any(mask):
                continue
            for k in (2, 3, 4, 7) if not full else (2, 3, 4, 5, 7, 9):
                for s in (0, 5, 9, 13) if full else (0, 9):
                    for j in ((s, s + 2) if not full else (s, s + 2, s + 4, 23)):
                        idx = (s + np.arange(k)) % E_
                        jj = np.array([j % E_])
                        sel = [jj if m else idx for m in mask]
                        cs = Cx(axes=axes, single=True)
                        want = []
                        for i in range(k):
                            want.append(o.run(cs, [take(el, p, jj if m else idx[i:i + 1]) for p, m in zip(o.params, mask)], 1))
                        want = [(want[0][c][0], np.concatenate([w[c][1] for w in want], axis=1), None) for c in range(len(want[0]))]
                        for form in (False, True):     # the single one as a scalar or as an array of one
                            cx = Cx(axes=axes, single=form)
                            got = o.run(cx, [take(el, p, i) for p, i in zip(o.params, sel)], k)
                            rec.cover(states=k, transitions=1, traces=1)
                            same(rec, got, want, 'one against many', size=k, single=[p for p, m in zip(o.params, mask) if m], start=s, one=j)
    rec.sample(op=name, axes=axes, params=o.params, element=[take(el, p, slice(3, 4)) for p in o.params])


INT = dict(lat=[0, 1, -1, 1], lon=[0, 2, -3, 1], lat2=[1, 0, 1, -1], latnear=[0, 2, -1, 1], lon2=[-2, 1, 3, 3], z=[0, 5, -700, 3], z2=[3, 0, 2, -9], az=[0, 1, -2, 3],
           wa=[0, 1, -2, 3], drad=[1, 2, 0, 3], t=[0, 1, 1, 0], s=[1000, 5, 200000, 3000000], pos=[8, 27, 1, 64])


def integers(rec, name):
    """integers give the answers of the same numbers as floats"""
    o = OPS[name]
    rec.context = dict(op=name)
    el = {k: np.array(v) for k, v in INT.items()}
    for p, (a, b, c) in dict(PA=('lat', 'lon', 'z'), PB=('lat2', 'lon2', 'z2')).items():
        el[p] = np.stack([el[a], el[b], el[c]])
    el['PC'] = np.stack([[1, -1, 0, 0], [-1, 3, 2, -2], [0, 0, 40, 2]])
    el['PD'] = np.stack([[-1, 1, 1, 0], [3, -1, 0, 2], [7, 0, 4, 2]])
    el['gA'] = np.array([[1, 0, 0, 0], [0, 1, 0, -1], [0, 0, 1, 0]])
    el['gB'] = np.array([[0, 1, 0, 0], [1, 0, -1, 0], [0, 0, 0, 1]])
    el['gC'] = np.array([[0, 0, -1, 1], [0, 0, 0, 0], [1, -1, 0, 0]])
    el['gD'] = np.array([[1, 0, 0, 0], [0, 1, 1, 1], [0, 0, 0, 0]])
    el['gOn'] = np.array([[0, 1, 0, 0], [1, 0, 0, 0], [0, 0, 1, 1]])
    el['p'] = np.array([[6378137, 0, 4000000, -3], [0, 0, -3000000, 6400000], [0, -6356000, 4000000, 100]])
    el['dp'] = np.array([[1, 5000, 0, 0], [0, 100, 0, -7], [-20, 3, 0, 900000]])
    el['M'] = np.stack([np.array(m) for m in octahedral()[3:7]], axis=2)
    el['M2'] = np.stack([np.array(m) for m in octahedral()[11:15]], axis=2)
    el['R'] = np.stack([np.array(m) for m in octahedral()[13:17]], axis=2)
    for p in o.params:
        if p not in el:
            return
    flt = {k: np.asarray(v, dtype=float) for k, v in el.items()}
    for axes in ('e', 'E'):
        for single in (False, True):
            for k in (1, 2, 3, 4):
                for s in range(5 - k):
                    cx = Cx(axes=axes, single=single)
                    sl = slice(s, s + k)
                    want = o.run(cx, [take(flt, p, sl) for p in o.params], k)
                    got = o.run(cx, [take(el, p, sl) for p in o.params], k)
                    rec.cover(states=k, transitions=2, traces=1)
                    same(rec, got, want, 'integers', size=k, start=s, axes=axes, single=single)
                    # one argument of integers among floats, one of floats among integers
                    for j, whole in itertools.product(range(len(o.params)), (True, False)):
                        if len(o.params) < 2 or k == 2:
                            continue
                        vals = []
                        for i, p in enumerate(o.params):
                            v = take(el, p, sl)
                            if (i == j) != whole:
                                v = v.astype(float)
                                if p[0] not in 'gMR':
                                    v = v * 0.75 + 0.125
                            vals.append(v)
                        want = o.run(cx, [np.asarray(v, float) for v in vals], k)
                        got = o.run(cx, vals, k)
                        rec.cover(states=k, transitions=2, traces=1)
                        same(rec, got, want, 'integers among floats', size=k, start=s, axes=axes, single=single, which=o.params[j], whole=whole)


def near(v, p, steps):
    """copies of one element, each moved a little"""
    k = steps.size
    v = np.repeat(v, k, axis=-1)
    if p[0] == 'g':
        return ref.f64(ref.unit(ref.ld(v) + steps * ref.ld(np.roll(v, 1, axis=0)) + 0.3 * steps))
    if p in ('M', 'M2', 'R'):
        return ref.f64(mm3(v, ref.rot(2, steps)))
    if p[0] == 'P':
        return v * (1 + steps) + steps * np.array([1.0, -0.7, 5.0])[:, None]
    return v * (1 + steps) + steps


def crowds(rec, name, axes, full):
    """arrays of positions that lie close together, are all the same, come in groups, in sorted or alternating order: every answer is that of the single call"""
    o = OPS[name]
    rec.context = dict(op=name, axes=axes)
    el = elements(E_)
    cs = Cx(axes=axes, single=True)
    slow = 'ellips' in name or 'FrameE' in name or 'unrolled' in name
    exact = {q: (np.eye(3)[:, [j]] if w else -np.eye(3)[:, [j]]) for q, j, w in (('gA', 0, 1), ('gB', 1, 1), ('gC', 2, 0), ('gD', 0, 0))}
    exact.update(gOn=exact['gB'], M=np.eye(3)[:, :, None], M2=np.eye(3)[:, :, None], R=np.eye(3)[:, :, None])
    turned = [{q: np.roll(v, j, axis=0) if q[0] == 'g' else v for q, v in exact.items()} for j in range(3)] if any(p in exact for p in o.params) else []
    for b in list(range(0, E_, 1 if full else 5)) + turned:
        special, b = (b, 3) if isinstance(b, dict) else ({}, b)
        for d in (0.0, 1e-12, 1e-8, 1e-5, 1e-2) if full or not slow else (0.0, 1e-8, 1e-2):
            for k in (2, 3, 4, 5, 8, 33) if full or not slow else (3, 5):
                pool = [near(special[p] if p in special else take(el, p, slice(b, b + 1)), p, d * np.array([0.0, 1.0, -2.0, 0.6])) for p in o.params]
                far = [near(take(el, p, slice((b + 7) % E_, (b + 7) % E_ + 1)), p, d * np.array([0.0, 1.0])) for p in o.params]
                both = [np.concatenate([x, y], axis=-1) for x, y in zip(pool, far)]
                outs = [o.run(cs, [v[..., i:i + 1] for v in both], 1) for i in range(6)]
                one = [(outs[0][j][0], np.concatenate([w[j][1] for w in outs], axis=1), None) for j in range(len(outs[0]))]
                i = np.arange(k)
                for pattern, idx in (('together', i % 4), ('sorted', i * 4 // k), ('last apart', np.where(i == k - 1, 4, i % 4)), ('first apart', np.where(i == 0, 5, i % 4)),
                                     ('two groups', np.where(i < k // 2, i % 3, 4 + i % 2)), ('alternating', np.where(i % 2, 4 + (i // 2) % 2, (i // 2) % 3)),
                                     ('same at both ends', np.where(i == k - 1, 0, i % 3)), ('all but one the same', np.where(i == k // 2, 1, 0))):
                    got = o.run(Cx(axes=axes), [v[..., idx] for v in both], k)
                    rec.cover(states=k, transitions=1, traces=1)
                    same(rec, got, pick(one, idx), 'array of close elements', size=k, base=b, exact=bool(special), spread=d, pattern=pattern)
                # one argument far or close, the others the same for all
                if len(o.params) > 1 and name not in ('GeoPath_ends',) and k in (3, 5):
                    for j in range(len(o.params)):
                        vals = [(v if m == j else v[..., :1]) for m, v in enumerate(both)]
                        outs_ = [o.run(cs, [v[..., i:i + 1] if m == j else v for m, v in enumerate(vals)], 1) for i in range(6)]
                        want = [(outs_[0][c][0], np.concatenate([w[c][1] for w in outs_], axis=1), None) for c in range(len(outs_[0]))]
                        idx = np.resize([0, 1, 2, 4, 3], k)
                        got = o.run(Cx(axes=axes), [v[..., idx] if m == j else np.repeat(v, k, axis=-1) for m, v in enumerate(vals)], k)
                        rec.cover(states=k, transitions=1, traces=1)
                        same(rec, got, pick(want, idx), 'array where one argument varies', size=k, base=b, exact=bool(special), spread=d, which=o.params[j])
