"""P23: profiling counts each call once and changes nothing.

Programs of nested calls (synthetic objects, and real models) run under the profiler with a simulated clock that
advances by any step, zero included, whenever it is read or work is done; calls raise, recurse, switch the profiler on
and off, and several processes each write their file."""
import os
import struct

import numpy as np

from checks import p01, sess
from sim import models as M, mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P23'
RULE = ('the raw record holds each call that began under profiling once, in order of completion, under its true chain '
        'of callers and with a time between what passed inside and around it; report and totals add up; values, '
        'derivatives and exceptions are those of the program without profiling')
QUICK = (8000, 40)
THOROUGH = (300000, 800)
COMPONENTS = {'real': 'openmdao: profile (setup, start, stop, wrappers, raw files, process_profile), problems, groups, '
                      'components, solvers; the file system (in a scratch directory)',
              'stub': 'the clock; user components'}
ASSUMPTIONS = ['the clock does not go backwards', 'a call that began while profiling was off is not recorded',
               'the end of each process (atexit) is a call of its handler']
FAULTS = ('call raises', 'clock stands still', 'clock jumps', 'user code raises in solve_nonlinear',
          'user code raises in linearize')
PROBES = ('recursion', 'stopped inside a call', 'started inside a call', 'call after a failed one',
          'several processes', 'real model', 'derivatives under profiling')
prepare = H.prepare
DIRECTED = []
STEPS = [0.0, 0.0, 1e-6, 1e-3, 0.02, 1.0, 300.0]


# ------------------------------------------------------------------ generator
def gen_calls(rng, depth, n):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.1:
            out.append(['stop'])
        elif k < 0.22:
            out.append(['start'])
        elif k < 0.35:
            out.append(['work', rng.choice(STEPS)])
        elif k < 0.42 and depth:
            out.append(['raise', rng.choice(sess.EXC)])
        else:
            sub = gen_calls(rng, depth + 1, rng.choice([0, 0, 1, 2, 3])) if depth < 4 else []
            out.append(['call', rng.randrange(4), rng.choice(['run', 'solve', 'apply']), sub, rng.random() < 0.4])
    return out


def gen(rng, i, tier):
    scn = {'steps': [rng.choice(STEPS[:4]) for _ in range(rng.choice([1, 3, 7]))], 'salts': rng.randrange(1, 10 ** 6)}
    if rng.random() < 0.25:
        ps = sess.gen_problem(rng, fd=0.2, dirs=0.0, sub=0.0, size=rng.choice([2, 3, 5]))
        ops = []
        for _ in range(rng.randint(1, 3)):
            k = rng.choice(['run', 'run', 'grad'])
            op = [k] + ([rng.choice(['fwd', 'rev', 'fd'])] if k == 'grad' else [])
            f = sess.fault(rng, 0.3)
            ops.append(op + ([f] if f else []))
        scn.update(mode='model', probs=[ps], ops=ops, early=rng.random() < 0.5)
        return scn
    scn['mode'] = 'calls'
    scn['procs'] = [gen_calls(rng, 0, rng.choice([1, 2, 4])) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    return scn


def shrink(scn):
    if len(scn['steps']) > 1 or scn['steps'] != [0.0]:
        yield dict(scn, steps=[0.0])
    if scn['mode'] == 'model':
        for i in range(len(scn['ops'])):
            yield dict(scn, ops=scn['ops'][:i] + scn['ops'][i + 1:])
        for i, o in enumerate(scn['ops']):
            if isinstance(o[-1], dict):
                yield dict(scn, ops=scn['ops'][:i] + [o[:-1]] + scn['ops'][i + 1:])
        for s in sess.shrink(dict(scn, ops=[])):
            yield dict(s, ops=scn['ops'])
        return
    for i, c in enumerate(scn['procs']):
        if len(scn['procs']) > 1:
            yield dict(scn, procs=scn['procs'][:i] + scn['procs'][i + 1:])
        for s in shrink_calls(c):
            yield dict(scn, procs=scn['procs'][:i] + [s] + scn['procs'][i + 1:])


def shrink_calls(c):
    for i, x in enumerate(c):
        yield c[:i] + c[i + 1:]
        if x[0] == 'call':
            if x[3]:
                yield c[:i] + x[3] + c[i + 1:]
            for s in shrink_calls(x[3]):
                yield c[:i] + [x[:3] + [s] + x[4:]] + c[i + 1:]
            if x[4]:
                yield c[:i] + [x[:4] + [False]] + c[i + 1:]


# ------------------------------------------------------------------ the run
class Clock(object):
    def __init__(self, scn, run):
        self.now, self.steps, self.n, self.run = 1.4e9, scn['steps'], 0, run

    def read(self):
        d = self.steps[self.n % len(self.steps)]
        self.n += 1
        self.run.count('fault.clock stands still', int(d == 0))
        self.now += d
        return self.now


def pristine():
    """The module as a new process sees it."""
    from openmdao.util import profile as pf
    pf._profile_methods = pf._profile_prefix = pf._profile_out = pf._profile_start = None
    pf._profile_setup, pf._profile_total = False, 0.0
    pf._profile_funcs_dict.clear()
    pf._profile_dec._call_stack = []
    return pf


def execute(scn, ch, run):
    import atexit
    from openmdao.util import profile as pf
    clock = Clock(scn, run)
    saved = pf.etime, pf.MPI, atexit.register
    ends = []

    def register(fn, *a, **kw):
        ends.append(lambda: fn(*a, **kw))
        return fn

    def body(play):
        pf.etime, pf.MPI, atexit.register = clock.read, None, register
        try:
            if scn['mode'] == 'calls':
                calls(scn, run, clock, ends)
            else:
                model(scn, run, clock, ends, play)
        finally:
            pf.etime, pf.MPI, atexit.register = saved
            pristine()
    sess.start(dict(scn, nproc=1, stall=0, sticky=0, send=0), ch, run, body)


class FakeMPI(object):
    def __init__(self, rank, size):
        self.COMM_WORLD = self
        self.rank, self.size = rank, size


class Ref(object):
    """What one process really did."""

    def __init__(self):
        self.stack, self.done, self.active = [], [], False
        self.lo = self.hi = 0.0         # time under profiling, at least and at most
        self.mark = None


def calls(scn, run, clock, ends):
    refs = []
    n = len(scn['procs'])
    for rank, prog in enumerate(scn['procs']):
        pf = pristine()
        if n > 1:
            pf.MPI = FakeMPI(rank, n)
        del ends[:]
        refs.append(process(pf, prog, run, clock, ends, rank))
    files = ['prof_raw.%d' % r for r in range(n)]
    for ref, f in zip(refs, files):
        judge_raw(ref, f, run)
    if any(r.done for r in refs):
        report(pf, refs, files)
    if n > 1:
        run.count('probe.several processes')
    tot = sum(len(r.done) for r in refs)
    run.count('calls recorded', tot)
    run.nontrivial = tot > 1
    run.key = str([[p for p, _, _ in r.done] for r in refs])
    run.sample = run.key[:300]


def process(pf, prog, run, clock, ends, rank):
    ref = Ref()

    class Thing(object):
        def __init__(self, k):
            self.pathname = 'obj%d' % k

        def run(self, sub):
            return self.work('run', sub)

        def solve(self, sub):
            return self.work('solve', sub)

        def apply(self, sub):
            return self.work('apply', sub)

        def work(self, name, sub):
            me = ref.frames[-1]
            me['in'] = clock.now
            clock.now += 1e-3
            try:
                play(sub)
            finally:
                me['out'] = clock.now
            return [self.pathname, name]

    class Bare(Thing):
        def __init__(self, k):
            pass

        pathname = property(lambda self: self.nothing)

    ref.frames = []
    objs = [Thing(0), Thing(1), Thing(2), Bare(3)]
    names = ['obj0', 'obj1', 'obj2', '<Bare>']
    n = [0]

    def play(cs):
        for c in cs:
            if c[0] == 'work':
                clock.now += c[1]
                run.count('fault.clock jumps', int(c[1] > 100))
            elif c[0] == 'start':
                t = clock.now
                pf.start()
                if not ref.active:
                    ref.mark = (t, clock.now)
                    run.count('probe.started inside a call', int(bool(ref.frames)))
                ref.active = True
            elif c[0] == 'stop':
                t = clock.now
                pf.stop()
                if ref.active:
                    ref.lo += t - ref.mark[1]
                    ref.hi += clock.now - ref.mark[0]
                    run.count('probe.stopped inside a call', int(bool(ref.frames)))
                ref.active = False
            elif c[0] == 'raise':
                n[0] += 1
                run.count('fault.call raises')
                raise sess.make_exc(c[1], n[0])
            else:
                call(c)

    def call(c):
        name = names[c[1]] + '.' + c[2]
        fr = {'rec': ref.active, 't0': clock.now}
        if fr['rec']:
            if name in ref.stack:
                run.count('probe.recursion')
            ref.stack.append(name)
            path = ','.join(ref.stack)
        ref.frames.append(fr)
        err = None
        try:
            r = getattr(objs[c[1]], c[2])(c[3])
            want = [getattr(objs[c[1]], '__dict__', {}).get('pathname'), c[2]]
            if want[0] is not None and r != want:
                raise Violation('result-changed', '%s returned %r, should return %r' % (name, r, want))
        except Violation:
            raise
        except BaseException as e:
            if type(e).__name__ in ('SimKilled', 'SimCrash'):
                raise
            if isinstance(e, AttributeError) and 'nothing' in str(e):
                pass
            elif 'sim-fault' not in str(e):
                raise Violation('exception', '%s raised %r' % (name, e))
            err = e
        ref.frames.pop()
        if fr['rec']:
            ref.stack.pop()
            ref.done.append((path, fr['out'] - fr['in'], clock.now - fr['t0']))
        if err is not None:
            if not c[4]:
                raise err
            run.count('probe.call after a failed one')

    def it(top):
        return iter(objs)
    pf.setup(None, methods={'run': (Thing,), 'solve': (Thing,), 'apply': (Thing,)}, obj_iter=it)
    t = clock.now
    pf.start()
    ref.active, ref.mark = True, (t, clock.now)
    try:
        play(prog)
    except Violation:
        raise
    except BaseException as e:
        if 'sim-fault' not in str(e) and 'nothing' not in str(e):
            raise
    t = clock.now
    finish(pf, ends)
    if ref.active:
        ref.lo += t - ref.mark[1]
        ref.hi += clock.now - ref.mark[0]
    return ref


def finish(pf, ends):
    """The process ends: handlers run, files are closed."""
    for f in reversed(ends):
        f()
    if pf._profile_out is not None and not pf._profile_out.closed:
        pf._profile_out.close()


def raw(fname):
    """(total, [(path, t, ovr)]) of a raw file, read on our own."""
    names = {}
    with open('funcs_' + fname) as f:
        for line in f:
            path, ident = line.rstrip('\n').rsplit(' ', 1)
            names[ident] = path
    with open(fname, 'rb') as f:
        data = f.read()
    if len(data) % 16:
        raise Violation('broken-record', '%s has %d bytes, a record has 16' % (fname, len(data)))
    total = [float(n) for i, n in names.items() if i == '@total']
    out = []
    for k in range(0, len(data), 16):
        t, ovr, _, ident = struct.unpack('fffI', data[k:k + 16])
        if str(ident) not in names:
            raise Violation('broken-record', '%s: record %d has the unknown id %d' % (fname, k // 16, ident))
        out.append((names[str(ident)], t, ovr))
    return total[0], out


def judge_raw(ref, fname, run):
    total, recs = raw(fname)
    for k, (a, b) in enumerate(zip(ref.done, recs)):
        if a[0] != b[0]:
            raise Violation('wrong-call', 'record %d of %s is of %s; the call that ended is %s' % (k, fname, b[0], a[0]))
        tol = 1e-6 * (a[2] + 1)
        if not a[1] - tol <= b[1] <= a[2] + tol or b[1] < 0 or not 0 <= b[2] <= a[2] - a[1] + tol:
            raise Violation('wrong-time', 'record %d of %s (%s): %g s and %g s of overhead; %g s passed inside and %g s '
                            'around it' % (k, fname, b[0], b[1], b[2], a[1], a[2]))
    if len(recs) != len(ref.done):
        raise Violation('wrong-count', '%s has %d records, %d calls ended (%s)' % (
            fname, len(recs), len(ref.done), [p for p, _, _ in ref.done][:6]))
    tol = 1e-6 * (ref.hi + 1)
    if not ref.lo - tol <= total <= ref.hi + tol:
        raise Violation('wrong-total', '%s: the time under profiling is %g, should be between %g and %g'
                        % (fname, total, ref.lo, ref.hi))


def report(pf, refs, files):
    """process_profile against the raw records."""
    count, time, tot, totc = {}, {}, {}, {}
    ovr = {}
    under = 0.0
    for f in files:
        total, recs = raw(f)
        under += total
        dec = f[f.rindex('.'):] if len(files) > 1 else ''
        for path, t, o in recs:
            path = ','.join(x + dec for x in path.split(','))
            count[path] = count.get(path, 0) + 1
            time[path] = time.get(path, 0.0) + t
            ovr[path] = ovr.get(path, 0.0) + o
    net = dict((p, time[p] - sum(ovr[q] for q in ovr if q.startswith(p + ','))) for p in time)
    for p in net:
        n = p.split(',')[-1]
        tot[n] = tot.get(n, 0.0) + net[p]
        totc[n] = totc.get(n, 0) + count[p]
    tree, totals = pf.process_profile(files)

    def eq(a, b):
        return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))
    seen = {}

    def rec(node, path):
        for k in node['children']:
            p = path + [k['name']]
            s = ','.join(p)
            if s in seen or s not in count:
                raise Violation('wrong-report', 'the report has %s %s' % (s, 'twice' if s in seen else 'which was not called'))
            seen[s] = 1
            if k['count'] != count[s] or not eq(k['time'], net[s]):
                raise Violation('wrong-report', 'the report gives %d calls and %g s for %s, should be %d and %g'
                                % (k['count'], k['time'], s, count[s], net[s]))
            if k['tot_count'] != totc[k['name']] or not eq(k['tot_time'], tot[k['name']]):
                raise Violation('wrong-report', 'the report gives %d calls and %g s in total for %s, should be %d and %g'
                                % (k['tot_count'], k['tot_time'], k['name'], totc[k['name']], tot[k['name']]))
            rec(k, p)
    rec(tree, [])
    if len(seen) != len(count):
        raise Violation('wrong-report', 'the report lacks %s' % sorted(set(count) - set(seen))[:3])
    for n in totals:
        if totals[n]['count'] != totc.get(n) or not eq(totals[n]['time'], tot[n]):
            raise Violation('wrong-report', 'totals give %s for %s, should be %s calls and %s s' % (
                totals[n], n, totc.get(n), tot.get(n)))
    if set(totals) != set(tot):
        raise Violation('wrong-report', 'totals are of %s, should be of %s' % (sorted(totals), sorted(tot)))
    if not eq(tree['tot_time'], under):
        raise Violation('wrong-report', 'the report gives %g s under profiling, should be %g' % (tree['tot_time'], under))


# ------------------------------------------------------------------ real models
def model(scn, run, clock, ends, play):
    ps = scn['probs'][0]
    run.count('probe.real model')
    outs = []
    counts = {}
    for prof in (False, True):
        pf = pristine()
        del ends[:]
        p, names = sess.build(ps, hookdirs=False)
        st = {'ps': ps, 'p': p, 'names': names}
        if prof and scn['early']:
            pf.setup(p)
        p.setup(check=False)
        if prof and not scn['early']:
            pf.setup(p)

        def hook(comp, what):
            if prof and what in ('solve_nonlinear', 'linearize'):
                k = comp.pathname, what
                counts[k] = counts.get(k, 0) + 1
            play.hook(comp, what)
        M.HOOK[0] = hook
        t0 = clock.now
        if prof:
            pf.start()
        out = []
        for op in scn['ops']:
            play.armed, play.calls, play.fired = (op[-1] if isinstance(op[-1], dict) else None), 0, None
            play.nfault = 0
            r = None
            try:
                if op[0] == 'run':
                    p.run()
                else:
                    mode = op[1] if ps['root'] == 'user' or op[1] == 'fd' else 'auto'
                    r = play.grad(st, mode, 'array')
                    run.count('probe.derivatives under profiling')
            except Violation:
                raise
            except BaseException as e:
                if type(e).__name__ in ('SimKilled', 'SimCrash'):
                    raise
                if 'sim-fault' not in str(e):
                    import traceback
                    raise Violation('exception', '%s raised %r%s\n%s' % (
                        op[0], e, ' under profiling' if prof else '', traceback.format_exc()[-1200:]))
                r = (type(e).__name__, str(e))
            finally:
                play.armed = None
            un, pa, _ = sess.values(p)
            out.append((op[0], r, un, pa))
        outs.append(out)
        if prof:
            pf.stop()
            finish(pf, ends)
    for a, b in zip(*outs):
        if type(a[1]) is not type(b[1]) or not (a[1] == b[1] if not isinstance(a[1], np.ndarray)
                                                 else np.array_equal(a[1], b[1], equal_nan=True)):
            raise Violation('result-changed', '%s gives %s under profiling, without it %s' % (a[0], b[1], a[1]))
        for x, y in ((a[2], b[2]), (a[3], b[3])):
            for k in sorted(x):
                if not np.array_equal(np.asarray(x[k], dtype=object).astype(str), np.asarray(y[k], dtype=object).astype(str)):
                    raise Violation('result-changed', 'after %s, %s of "%s" is %s under profiling, without it %s' % (
                        a[0], k[1], k[0], y[k], x[k]))
    total, recs = raw('prof_raw.0')
    got = {}
    for path, t, ovr in recs:
        parts = path.split(',')
        if t < 0 or ovr < 0:
            raise Violation('wrong-time', 'a call of %s took %g s with %g s of overhead' % (parts[-1], t, ovr))
        if parts[0].split('.')[-1] not in ('run', 'calc_gradient'):
            raise Violation('wrong-call', 'a call is recorded as %s' % path)
        got[parts[-1]] = got.get(parts[-1], 0) + 1
    for (name, what), n in sorted(counts.items()):
        if got.get('%s.%s' % (name, what)) != n:
            raise Violation('wrong-count', '%s of %s was called %d times, recorded %s times' % (
                what, name, n, got.get('%s.%s' % (name, what))))
    if recs:
        report(pf, None, ['prof_raw.0'])
    run.count('calls recorded', len(recs))
    run.key = 'model %s' % p01.hash_key(scn)
    run.nontrivial = len(recs) > 1
    run.sample = {'operations': [o[0] for o in scn['ops']], 'records': len(recs)}
