"""Bounded-exhaustive exploration engine.

A check is a module mc.<id> with
    BOUNDS            text describing the explored space
    tasks(tier)       -> list of (function name, kwargs); kwargs are JSON values
    <function>(rec, **kwargs)   explores one slice of the space on the real code

Every slice is explored completely; there is no sampling and no use of the seed.
A slice that reports a failure is written to out/<id>/<n>.json and can be
re-executed with  ./check --replay <file>.
"""
import collections
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
if os.path.join(REPO, 'src') not in sys.path:
    sys.path.insert(0, os.path.join(REPO, 'src'))

import numpy as np  # noqa: E402

MAXFAIL = 4


def _plain(x):
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return _plain(x.tolist()) if x.size <= 40 else 'array%s' % (x.shape,)
    if isinstance(x, np.generic):
        return _plain(x.item()) if not isinstance(x, np.longdouble) else float(x)
    if isinstance(x, float):
        return x if x == x and abs(x) != float('inf') else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)[:300]


class Rec(object):
    """Collects what one slice covered and what failed in it."""

    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.outcomes = collections.Counter()
        self.margins = {}
        self.fails = []
        self.nfail = 0
        self.samples = []
        self.context = {}
        self.compared = 0

    # -- coverage -----------------------------------------------------------
    def cover(self, states=0, transitions=0, traces=0):
        self.states += int(states)
        self.transitions += int(transitions)
        self.traces += int(traces)

    def outcome(self, name, n=1):
        if n:
            self.outcomes[str(name)] += int(n)

    def sample(self, **info):
        if len(self.samples) < 2:
            self.samples.append(_plain(info))

    # -- verdicts -----------------------------------------------------------
    def fail(self, msg, key=None, **info):
        self.nfail += 1
        if len(self.fails) < MAXFAIL:
            d = dict(self.context)
            d.update(info)
            self.fails.append(dict(msg=msg, key=key or msg, info=_plain(d)))

    def ok(self, cond, msg, **info):
        self.compared += 1
        if not cond:
            self.fail(msg, **info)
        return bool(cond)

    def _pick(self, bad, arrays):
        idx = np.argwhere(bad)[0]
        out = {'index': idx.tolist(), 'failing': int(np.sum(bad)), 'of': int(np.size(bad))}
        for name, arr in arrays.items():
            try:
                arr = np.asarray(arr)
                if arr.shape and arr.shape[-1] == bad.shape[-1] and arr.ndim >= bad.ndim:
                    lead = (Ellipsis,) + tuple(idx[-1:])
                    out[name] = arr[lead]
                elif arr.size <= 12:
                    out[name] = arr
            except Exception:
                out[name] = repr(arr)[:200]
        return out

    def holds(self, mask, msg, **arrays):
        """mask must be all true; reports the first element where it is not."""
        mask = np.atleast_1d(np.asarray(mask, dtype=bool))
        self.compared += mask.size
        if mask.all():
            return True
        self.fail(msg, **self._pick(~mask, arrays))
        return False

    def close(self, got, want, tol, msg, **arrays):
        """got equals want within tol elementwise (tol may be an array); NaN only where want is."""
        try:
            got = np.asarray(got)
            if got.dtype == object:
                got = got.astype(float)
            want = np.asarray(want)
            if got.shape != want.shape:
                self.fail(msg + ': wrong shape', got_shape=got.shape, want_shape=want.shape,
                          **{k: v for k, v in arrays.items() if np.size(v) <= 12})
                return False
            gnan, wnan = np.isnan(got), np.isnan(want)
            with np.errstate(all='ignore'):
                err = np.abs(np.asarray(got, dtype=np.longdouble) - want)
                err = np.where(got == want, 0, err)
            tol = np.broadcast_to(np.asarray(tol, dtype=np.longdouble), err.shape)
            self.compared += err.size
            good = (gnan & wnan) | (~gnan & ~wnan & (err <= tol))
            if err.size:
                with np.errstate(all='ignore'):
                    ratio = np.where(gnan | wnan | (err == 0), 0, err / tol)
                m = float(np.max(ratio))
                if m > self.margins.get(msg, -1):
                    self.margins[msg] = m
        except Exception as e:  # unusable answer
            self.fail(msg + ': unusable answer %s' % type(e).__name__, got=repr(got)[:200])
            return False
        if good.all():
            return True
        good1, got1, want1 = np.atleast_1d(good), np.atleast_1d(got), np.atleast_1d(want)
        self.fail(msg, **self._pick(~good1, dict(arrays, got=got1, want=want1,
                                                 err=np.atleast_1d(err))))
        return False

    def data(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces,
                    outcomes=dict(self.outcomes), margins=self.margins, fails=self.fails,
                    nfail=self.nfail, samples=self.samples, compared=self.compared)


def run_task(spec):
    prop, fname, kwargs = spec
    rec = Rec()
    t0 = time.time()
    try:
        mod = importlib.import_module('mc.' + prop.lower())
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                getattr(mod, fname)(rec, **kwargs)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        rec.fail('exception %s: %s' % (type(e).__name__, str(e)[:200]),
                 where=['%s:%s' % (os.path.basename(f.filename), f.lineno) for f in tb][-6:])
    out = rec.data()
    out['wall'] = time.time() - t0
    return out


def load_known():
    known = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: '):
                # known: property=<id> key=<failure key> what=<text>
                body = line[len('known: '):]
                prop = body.split()[0].split('=', 1)[1]
                key = body.split(' key=', 1)[1].split(' what=', 1)[0]
                known.append((prop, key, body.split(' what=', 1)[1]))
    return known


def main(prop, tier, seed=None, jobs=None, limit=None, verbose=False):
    t0 = time.time()
    jobs = jobs or min(8, os.cpu_count() or 1)
    limit = limit or (700 if tier == 'quick' else 6 * 3600)
    mod = importlib.import_module('mc.' + prop.lower())
    specs = [(prop, f, kw) for f, kw in mod.tasks(tier)]
    results = [None] * len(specs)
    hung = []
    ctx = mp.get_context('fork')
    pool = ctx.Pool(min(jobs, len(specs)), maxtasksperchild=getattr(mod, 'TASKS_PER_CHILD', None))
    try:
        handles = [pool.apply_async(run_task, (s,)) for s in specs]
        for i, h in enumerate(handles):
            left = limit - (time.time() - t0)
            try:
                results[i] = h.get(max(left, 0.01))
            except mp.TimeoutError:
                hung.append(i)
                results[i] = dict(Rec().data(), wall=0.0, nfail=1, fails=[dict(
                    msg='did not finish within the time limit', key='hang', info={})])
                break
    finally:
        pool.terminate()
        pool.join()
    results = [r for r in results if r is not None]
    known = load_known()
    fails, known_hit = [], []
    for spec, r in zip(specs, results):
        for f in r['fails']:
            hit = [k for k in known if k[0] == prop and k[1] == f['key']]
            if hit:
                known_hit.append(hit[0])
            else:
                fails.append((spec, f))
    outdir = os.path.join(VERIF, 'out', prop)
    os.makedirs(outdir, exist_ok=True)
    for old in os.listdir(outdir):
        os.unlink(os.path.join(outdir, old))
    first = None
    for n, (spec, f) in enumerate(fails[:20]):
        path = os.path.join(outdir, '%d.json' % n)
        with open(path, 'w') as fid:
            json.dump(dict(property=prop, function=spec[1], kwargs=spec[2], failure=f), fid, indent=1)
        first = first or path
    for k in sorted(set(known_hit)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))

    outcomes = collections.Counter()
    margins = {}
    for r in results:
        outcomes.update(r['outcomes'])
        for k, v in r['margins'].items():
            margins[k] = max(v, margins.get(k, 0))
    samples = [s for r in results for s in r['samples']][:8]
    per_slice = collections.Counter(s[1] for s in specs)
    evidence = dict(
        property=prop, tier=tier, seed=int(seed or 0), level='model_checking',
        coverage=dict(
            states=sum(r['states'] for r in results),
            transitions=sum(r['transitions'] for r in results),
            traces_validated_against_impl=sum(r['traces'] for r in results),
            counting='states: distinct combinations of inputs and configuration visited; transitions: operations of the '
                     'library applied to them (constructions and reassignments included where they are part of the history); '
                     'traces: executions of the real code whose answers were compared with the oracle',
            samples=samples, exhaustive=not hung, bounds=' '.join(mod.BOUNDS.split()),
            slices=dict(per_slice), slices_that_compared_nothing=[list(x[1:]) for x, r in zip(specs, results) if not r['compared'] and not r['transitions']],
            outcomes=dict(outcomes.most_common(60)),
            largest_error_over_tolerance={k: float('%.3g' % v) for k, v in
                                          sorted(margins.items(), key=lambda kv: -kv[1])[:25]},
            values_compared_with_oracle=sum(r['compared'] for r in results),
            failing_executions=sum(r['nfail'] for r in results)),
        violations=len(fails), wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fid:
        json.dump(evidence, fid, indent=1)
    if verbose:
        print(json.dumps(evidence['coverage'], indent=1))
        slow = sorted(zip([r['wall'] for r in results], [s[1:] for s in specs]), key=lambda x: -x[0])
        print('slowest', slow[:5], 'cpu', sum(r['wall'] for r in results))
    c = evidence['coverage']
    print('%s %s: states=%d transitions=%d traces=%d slices=%d wall=%.1fs' % (
        prop, tier, c['states'], c['transitions'], c['traces_validated_against_impl'],
        len(results), evidence['wall_s']))
    if fails:
        for spec, f in fails[:6]:
            print('  %s%s: %s %s' % (spec[1], json.dumps(spec[2])[:160], f['msg'], json.dumps(f['info'])[:700]))
        print('VIOLATION property=%s replay=%s' % (prop, first))
        return 1
    return 0


def replay(path):
    d = json.load(open(path))
    r = run_task((d['property'], d['function'], d['kwargs']))
    for f in r['fails']:
        print(f['msg'], json.dumps(f['info'])[:1500])
    if r['nfail']:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('replay: the property held')
    return 0
