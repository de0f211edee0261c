import itertools
import multiprocessing
import os
import queue
import sys
import threading
from mc.ops import *
from mc import c22, c23
from mc.engine import REPO

BOUNDS = """two (thorough: also three) threads, each running one or two operations of the library under a controlled scheduler that can switch threads before every
source line (thorough: also before every bytecode) of the library: all schedules with at most one (thorough: two) preemptions. Explored for every operation of the
catalogue against itself with other arguments (each schedule in a process of its own, so caches are cold), every pair of catalogue operations in one
process (short arrays; and arrays of 40 and 1030 positions against a fifth of the catalogue), every pair of operations on one pool of shared objects, and every
operation that combines positions, on two equal frames taken in opposite order. Oracle: the answers of each operation run alone; every thread must finish."""

TASKS_PER_CHILD = 1
SRC = os.path.join(os.path.realpath(REPO), 'src', 'nvector') + os.sep
BLOCK, DEAD = 1.0, 20.0
STUCK = multiprocessing.Value('i', 0)       # schedules that never finished, in all processes: a few are enough
ALL = 1 << 60


class Run(object):
    """runs the functions under the plan: list of (thread, number of steps); then all to completion"""

    count = 0

    def __init__(self, fns, plan, opcodes=False):
        if STUCK.value > 4:
            raise RuntimeError('not explored: threads that never finished were found elsewhere')
        self.points, self._seen = [], {}
        self.fns, self.plan, self.opcodes = fns, plan, opcodes
        n = len(fns)
        self.go = [threading.Semaphore(0) for _ in fns]
        self.msg = queue.Queue()
        self.budget = [0] * n
        self.steps = [0] * n
        self.out = [None] * n
        self.state = ['ready'] * n
        self.deadlock = False

    def _step(self, i, frame):
        self.steps[i] += 1
        if i == 0 and self.count:
            where = (frame.f_code, frame.f_lasti)
            c = self._seen[where] = self._seen.get(where, 0) + 1
            if c <= self.count and self.steps[0] > 1:
                self.points.append(self.steps[0] - 1)
        self.budget[i] -= 1
        if self.budget[i] < 0:
            self.msg.put((i, 'yield'))
            self.go[i].acquire()

    def _thread(self, i):
        cache = {}

        def local(frame, event, arg):
            if event == ('opcode' if self.opcodes else 'line'):
                self._step(i, frame)
            return local

        def tracer(frame, event, arg):
            name = frame.f_code.co_filename
            mine = cache.get(name)
            if mine is None:
                mine = cache[name] = os.path.realpath(name).startswith(SRC)
            if not mine:
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local
        self.go[i].acquire()
        if self.count or not self.plan or any(j == i and n < ALL for j, n in self.plan):
            sys.settrace(tracer)        # a thread that is never preempted runs at full speed
        try:
            with np.errstate(all='ignore'):
                self.out[i] = self.fns[i]()
        except Exception as e:
            self.out[i] = e
        finally:
            sys.settrace(None)
        self.msg.put((i, 'done'))

    def _await(self, i, timeout):
        """until thread i stops (True) or does not within the time (False)"""
        while self.state[i] not in ('yield', 'done'):
            try:
                j, what = self.msg.get(timeout=timeout)
            except queue.Empty:
                self.state[i] = 'blocked'
                return False
            self.state[j] = what
        return True

    def _resume(self, i, n):
        self.budget[i] = n
        self.state[i] = 'running'
        self.go[i].release()

    def execute(self):
        threads = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in threads:
            t.start()
        for i, n in self.plan:
            if self.state[i] == 'done':
                continue
            if self.state[i] in ('blocked', 'running'):
                self._await(i, 0.01)          # may have become free
                if self.state[i] == 'blocked':
                    continue
                if self.state[i] == 'done':
                    continue
            self._resume(i, n)
            self._await(i, BLOCK)
        for rnd in range(len(self.fns) + 1):
            for i in range(len(self.fns)):
                if self.state[i] in ('ready', 'yield'):
                    self._resume(i, ALL)
                if self.state[i] != 'done':
                    if self.state[i] == 'blocked':
                        self.state[i] = 'running'
                    # a blocked thread that comes free stops at its old budget: let it go on
                    self.budget[i] = ALL
                    if self._await(i, BLOCK if rnd < len(self.fns) else DEAD) and self.state[i] == 'yield':
                        self._resume(i, ALL)
                        self._await(i, BLOCK)
        self.deadlock = any(s != 'done' for s in self.state)
        STUCK.value += self.deadlock
        return self


def points(fn, visits=1, opcodes=False):
    """the steps at which the function reaches a source line (bytecode) for the first `visits` times, and the number of steps"""
    r = Run([fn], [], opcodes)
    r.count = visits
    r.execute()
    return r.points, r.steps[0]


def schedules(pts, bound):
    """all plans with at most `bound` preemptions at the given points (one list per thread), for every order of start"""
    k = len(pts)
    for order in itertools.permutations(range(k)):
        yield [(i, ALL) for i in order]
        a, b = order[0], order[1]
        for x in pts[a]:
            yield [(a, x)] + [(i, ALL) for i in order[1:]]       # a runs x steps, then the others completely, then a
            if bound >= 2:
                for y in pts[b]:
                    yield [(a, x), (b, y)] + [(i, ALL) for i in order]


def tasks(tier):
    q = tier == 'quick'
    out = []
    names = list(OPS)
    pn = list(c23.OPS_)
    for n in names:
        out.append(('cold', dict(name=n, bound=1 if q else 2, opcodes=False)))
        if not q:
            out.append(('cold', dict(name=n, bound=1, opcodes=True)))
    for i in range(len(names)):
        out.append(('against_all', dict(kind='catalogue', first=i, visits=1 if q else 3, groups=2 if q else 8)))
        if not q:
            out.append(('cross', dict(first=i)))
        out.append(('against_all', dict(kind='long', first=i, visits=1 if q else 2, groups=1 if q else 4)))
    for n in c22.OPS:
        out.append(('twins', dict(name=n, full=not q)))
    for i in range(len(pn)):
        out.append(('against_all', dict(kind='pool', first=i, visits=1 if q else 3, groups=2 if q else 8)))
        if not q:
            out.append(('shared', dict(first=i)))
            out.append(('three', dict(first=i)))
            out.append(('two_each', dict(first=i)))
    return out


def _answer(o, el, start, k, axes='e', ell='wgs84'):
    return c23.call(o, el, axes=axes, ell=ell, start=start, k=k)


def judge(rec, run, want, cmp, info):
    rec.cover(transitions=sum(run.steps), traces=1)
    if run.deadlock:
        rec.fail('a thread never finishes', **info)
        return False
    good = True
    for i, w in enumerate(want):
        good &= bool(cmp(run.out[i], w, i))
    return good


def cold(rec, name, bound, opcodes):
    """one operation against itself with other arguments; every schedule starts in a fresh process"""
    o = OPS[name]
    el = elements(24)
    rec.context = dict(op=name, bound=bound, opcodes=opcodes)
    configs = [(3, (0, 'e', 'wgs84'), (5, 'E' if o.axes else 'e', 'flat50'))]
    if bound > 1:
        configs.append((1, (2, 'e', 'wgs84'), (9, 'e', 'wgs84')))
    for k, A, B in configs:
        calls = [lambda s=s, ax=ax, e=e: _answer(o, el, s, k, ax, e) for s, ax, e in (A, B)]
        want = [c23.in_child(c) for c in calls]
        pts = [c23.in_child(lambda c=c: points(c, 1, opcodes))[0] for c in calls]
        rec.cover(states=1)
        plans = list(schedules(pts, bound))
        rec.outcome('schedules', len(plans))
        for plan in plans:
            res = c23.in_child(lambda: _exec(calls, plan, opcodes))
            rec.cover(transitions=sum(res['steps']), traces=1)
            if res['deadlock']:
                rec.fail('a thread never finishes', plan=plan)
                if rec.nfail > 3:
                    return
                continue
            for i in range(2):
                for what in ('out', 'after'):
                    if isinstance(res[what][i], str):
                        rec.fail('an error appears only with concurrency', plan=plan, error=res[what][i])
                    else:
                        same(rec, res[what][i], want[i], 'answer %s concurrency' % ('under' if what == 'out' else 'after'), plan=plan, thread=i)
            if rec.nfail > 8:
                return
    rec.sample(op=name, preemption_points=pts, schedules=len(plans))


def _exec(calls, plan, opcodes):
    r = Run(calls, plan, opcodes).execute()
    out = [repr(x)[:200] if isinstance(x, Exception) else x for x in r.out]
    after = []
    if not r.deadlock:
        for c in calls:
            try:
                after.append(c())
            except Exception as e:
                after.append(repr(e)[:200])
    return dict(out=out if not r.deadlock else None, steps=r.steps, deadlock=r.deadlock, after=after)


def against_all(rec, kind, first, visits, groups):
    """this operation, stopped at each of its lines while the other thread performs many other operations completely"""
    if kind == 'catalogue':
        names = list(OPS)
        el = elements(24)
        fs = {n: (lambda n=n, s=0, k=3, e='wgs84', d=None: _answer(OPS[n], el, s, k, 'e', e)) for n in names}
        f = lambda d: fs[names[first]]()
        others = {n: (lambda d, n=n, i=i: fs[n](s=4, k=2 + i % 2, e=('wgs84', 'flat50')[i % 2])) for i, n in enumerate(names)}
        conv, new = (lambda x: x), (lambda: None)
    elif kind == 'long':
        # arrays of one length in both threads
        k = 40 if first % 2 else 1030
        slow = [n for n in OPS if 'ellips' in n or 'FrameE' in n or 'unrolled' in n or OPS[n].onlysingle]
        names = [n for n in OPS if n not in slow]
        if list(OPS)[first] in slow:
            return
        first = names.index(list(OPS)[first])
        el = elements(48)
        many = {s: {p: np.take(v, (s + np.arange(k)) % 48, axis=-1) for p, v in el.items()} for s in (0, 5)}
        fs = {n: (lambda n=n, s=0: _answer(OPS[n], many[s], 0, k)) for n in names}
        f = lambda d: fs[names[first]]()
        some = [n for i, n in enumerate(names) if n == names[first] or (i + first) % 5 == 0]
        others = {n: (lambda d, n=n: fs[n](s=5)) for n in some}
        conv, new = (lambda x: x), (lambda: None)
    else:
        names = list(c23.OPS_)
        f = lambda d: c23.run(c23.OPS_[names[first]], d)
        others = {n: (lambda d, n=n: c23.run(c23.OPS_[n], d)) for n in names}
        conv, new = c23.flat, c23.pool
    rec.context = dict(op=names[first])

    def equal(got, want, i, what):
        if isinstance(got, Exception) and kind != 'pool':
            return rec.fail('an error appears only with concurrency', error=repr(got)[:200], plan=i, other=what)
        if kind != 'pool':
            return same(rec, got, want, 'answer under concurrency', plan=i, other=what)
        if c23.differ(conv(got), want):
            return rec.fail('answer under concurrency on shared objects', plan=i, other=what, got=repr(got)[:200])
        return True
    d = new()
    wf = conv(f(d))
    wo = {n: conv(g(d)) for n, g in others.items()}
    pts, n = points(lambda: f(d), visits)
    rec.outcome('preemption points', len(pts))
    order = [n for n in names[first + 1:] + names[:first + 1] if n in others]
    size = -(-len(order) // groups)
    for g in range(0, len(order), size):
        part = order[g:g + size]
        for x in pts:
            d = new()
            before = c23.snap(d) if d else None
            run = Run([lambda: f(d), lambda: [others[m](d) for m in part]], [(0, x), (1, ALL), (0, ALL)]).execute()
            rec.cover(states=1, transitions=sum(run.steps), traces=1)
            if run.deadlock:
                rec.fail('a thread never finishes', plan=x)
            else:
                equal(run.out[0], wf, x, 'preempted')
                if isinstance(run.out[1], Exception):
                    rec.fail('an error appears only with concurrency', error=repr(run.out[1])[:200], plan=x)
                else:
                    for m, got in zip(part, run.out[1]):
                        equal(got, wo[m], x, m)
                if d:
                    rec.ok(c23.snap(d) == before, 'shared objects are unchanged')
            if rec.nfail > 8:
                return
    rec.sample(op=names[first], preemption_points=len(pts), others=len(order))


def cross(rec, first):
    """every pair of operations of the catalogue"""
    names = list(OPS)
    o = OPS[names[first]]
    el = elements(24)
    a = lambda: _answer(o, el, 0, 3)
    wa = a()
    for second in range(first, len(names)):
        p = OPS[names[second]]
        b = lambda: _answer(p, el, 4, 2)
        wb = b()
        rec.cover(states=1)
        for plan in schedules([points(a)[0], points(b)[0]], 1):
            run = Run([a, b], plan).execute()
            rec.context = dict(ops=(o.name, p.name), plan=plan)

            def cmp(got, want, i):
                if isinstance(got, Exception):
                    return rec.fail('an error appears only with concurrency', error=repr(got)[:200])
                return same(rec, got, want, 'answer under concurrency', thread=i)
            judge(rec, run, (wa, wb), cmp, {})
            if rec.nfail > 8:
                return


def twins(rec, name, full):
    """an operation on positions of two equal frames in one thread, the same with the frames in the other order in the other"""
    fun, ka, kb = c22.OPS[name]
    for A, B in itertools.product(ka, kb) if full else {(ka[0], kb[-1]), (ka[-1], kb[0])}:
        F, G = nv.FrameE(), nv.FrameE()
        one = (c22.make(A, F, 0.2, 0.4, 10.0, False), c22.make(B, G, 0.5, 0.45, -20.0, False))
        two = (c22.make(A, G, 0.3, 0.5, 30.0, False), c22.make(B, F, -0.5, 0.4, 40.0, False))
        calls = [lambda v=v: fun(*v) for v in (one, two)]
        want = [c23.flat(c()) for c in calls]
        rec.cover(states=1)
        for plan in schedules([points(c)[0] for c in calls], 1):
            run = Run(calls, plan).execute()
            rec.context = dict(op=name, kinds=(A, B), plan=plan)
            judge(rec, run, want, _pool_cmp(rec, want), {})
            if rec.nfail > 4:
                return


def _pool_cmp(rec, want):
    def cmp(got, w, i):
        if c23.differ(c23.flat(got), w):
            rec.fail('answer under concurrency on shared objects', thread=i, got=repr(got)[:200])
            return False
        return True
    return cmp


def _interleave(rec, ops, visits=1):
    """ops: list of lists of pool operations, one list per thread"""
    seq = lambda d, names: [c23.run(c23.OPS_[m], d) for m in names]
    want = [c23.flat(seq(c23.pool(), names)) for names in ops]
    d = c23.pool()
    pts = [points(lambda: seq(d, names), visits)[0] for names in ops]
    rec.cover(states=1)
    for plan in schedules(pts, 1):
        d = c23.pool()
        before = c23.snap(d)
        run = Run([lambda names=names: seq(d, names) for names in ops], plan).execute()
        rec.context = dict(ops=ops, plan=plan)
        judge(rec, run, want, _pool_cmp(rec, want), {})
        if not run.deadlock:
            rec.ok(c23.snap(d) == before, 'shared objects are unchanged')
        if rec.nfail > 8:
            return


def shared(rec, first):
    """two operations on the same objects at once"""
    names = list(c23.OPS_)
    for second in names[first:]:
        _interleave(rec, [[names[first]], [second]])


def two_each(rec, first):
    """each thread runs two operations one after the other on the shared objects"""
    names = list(c23.OPS_)
    for da, db, dc in ((1, 2, 3), (7, 0, 7), (0, 11, 5)):
        _interleave(rec, [[names[first], names[(first + da) % len(names)]], [names[(first + s) % len(names)] for s in (db, dc)]])


def three(rec, first):
    names = list(c23.OPS_)
    for da, db in ((1, 2), (5, 9), (0, 0)):
        _interleave(rec, [[names[(first + s) % len(names)]] for s in (0, da, db)])
