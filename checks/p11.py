"""P11: concurrent evaluation returns one result per task."""
import hashlib
import json

from sim import mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P11'
RULE = ('1-4 calls of concurrent_eval_lb in a row on a world of 1-8 simulated ranks (or on disjoint '
        'sub-communicators of it, or without a communicator), 0-14 tasks each, given as list, tuple or '
        'generator, with positional and keyword arguments, random durations and a random failing subset '
        '(exceptions of several kinds, some with several arguments), results kept by the root or sent to all; '
        'any message delivery order; every execution of a task and every result on every rank is compared '
        'with the task list; non-trivial: >= 3 ranks and >= 2 tasks')
QUICK = (9000, 50)
THOROUGH = (300000, 1200)
COMPONENTS = {'real': ['openmdao.util.concurrent'],
              'stub': ['mpi4py: sim/simmpi.py', 'process scheduling and clock: sim/kernel.py']}
ASSUMPTIONS = [H.ASSUMPTIONS[0], 'tasks and results can be pickled']
FAULTS = ('slow task', 'failing task')
PROBES = ('no task', 'fewer tasks than workers', 'more tasks than workers', 'every task failed',
          'no communicator', 'one process', 'sub-communicator', 'broadcast', 'kept by the root',
          'results out of task order')
prepare = H.prepare


def gen(rng, i, tier):
    scn = {'nproc': rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8]), 'send': rng.randrange(3),
           'early': rng.random() < 0.8, 'sticky': rng.choice([0, 0, 4, 6]), 'salts': None,
           'comm': rng.choice(['world', 'world', 'world', 'split', 'none'])}
    if scn['comm'] == 'none':
        scn['nproc'] = 1
    calls = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        n = rng.choice([0, 1, 2, 3, 5, 8, 14])
        frac = rng.choice([0, 0, 0.3, 1.0])
        calls.append({'bcast': rng.random() < 0.5, 'as': rng.choice(['list', 'tuple', 'gen']),
                      'tasks': [{'kw': rng.choice([None, 'empty', 'some']), 'nargs': rng.choice([0, 1, 2]),
                                 'fail': rng.choice(['value', 'unicode', 'exit', 'own'])
                                 if rng.random() < frac else None,
                                 'none': rng.random() < 0.1}
                                for _ in range(n)]})
    scn['calls'] = calls
    return scn


def shrink(scn):
    for n in range(1, scn['nproc']):
        yield dict(scn, nproc=n)
    for k, v in (('comm', 'world'), ('send', 0), ('early', False), ('sticky', 0)):
        if scn[k] != v:
            yield dict(scn, **{k: v})
    cs = scn['calls']
    if len(cs) > 1:
        for k in range(len(cs)):
            yield dict(scn, calls=cs[:k] + cs[k + 1:])
    for k, c in enumerate(cs):
        for j in range(len(c['tasks'])):
            yield dict(scn, calls=cs[:k] + [dict(c, tasks=c['tasks'][:j] + c['tasks'][j + 1:])] + cs[k + 1:])
        for j, t in enumerate(c['tasks']):
            for a, b in (('fail', None), ('kw', None), ('nargs', 0), ('none', False)):
                if t[a] != b:
                    yield dict(scn, calls=cs[:k] + [dict(c, tasks=c['tasks'][:j] + [dict(t, **{a: b})] +
                                                         c['tasks'][j + 1:])] + cs[k + 1:])


class Own(Exception):
    def __init__(self, a, b):
        Exception.__init__(self, a, b)


def execute(scn, ch, run):
    from openmdao.util.concurrent import concurrent_eval_lb
    job = H.Job(scn, ch, run)
    kern = job.kern
    ran = {}
    got = {}
    order = {}

    def body(rank):
        from mpi4py import MPI
        comm, color = MPI.COMM_WORLD, 0
        if scn['comm'] == 'split':
            color = rank % 2
            comm = comm.Split(color)
        elif scn['comm'] == 'none':
            comm = None
        for c, call in enumerate(scn['calls']):
            def func(*args, **kw):
                # the task's number travels in the arguments
                j = kw.get('j', args[-1] if args else None)
                t = call['tasks'][j]
                ran.setdefault((color, c, j), []).append((rank, args, kw))
                order.setdefault((color, c), []).append(j)
                if kern.choose(4, 'slow') == 3:
                    kern.count('fault.slow task')
                    kern.sleep((0.01, 0.4, 3.0)[kern.choose(3, 'how slow')])
                f = t['fail']
                if f:
                    kern.count('fault.failing task')
                if f == 'value':
                    raise ValueError('task %d cannot be done' % j)
                if f == 'unicode':
                    raise UnicodeDecodeError('utf8', b'x', 0, 1, 'task %d cannot be done' % j)
                if f == 'exit':
                    raise SystemExit('task %d cannot be done' % j)
                if f == 'own':
                    raise Own('task %d' % j, 'task %d cannot be done' % j)
                return None if t['none'] else ('result of', j, rank)
            cases = [build(t, j) for j, t in enumerate(call['tasks'])]
            if call['as'] == 'tuple':
                cases = tuple(cases)
            elif call['as'] == 'gen':
                cases = (x for x in cases)
            res = concurrent_eval_lb(func, cases, comm, broadcast=call['bcast'])
            got.setdefault((color, c), {})[rank] = (comm.rank if comm is not None else 0,
                                                   None if res is None else list(res))
    job.start(body)
    ncall = 0
    for (color, c), by in sorted(got.items()):
        call = scn['calls'][c]
        ncall += 1
        for rank, (crank, res) in sorted(by.items()):
            here = 'call %d, communicator %d, rank %d' % (c, color, crank)
            if crank != 0 and not call['bcast']:
                if res is not None:
                    raise Violation('unasked', '%s: got %r, results were not asked for' % (here, res))
                continue
            judge(call, res, here, [ran.get((color, c, j), []) for j in range(len(call['tasks']))])
        n = len(call['tasks'])
        workers = len(by) - 1
        run.count('tasks', n)
        run.count('probe.no task', int(n == 0))
        run.count('probe.fewer tasks than workers', int(0 < n < workers))
        run.count('probe.more tasks than workers', int(n > workers > 0))
        run.count('probe.every task failed', int(n > 0 and all(t['fail'] for t in call['tasks'])))
        run.count('probe.one process', int(workers == 0 and scn['comm'] != 'none'))
        run.count('probe.broadcast', int(call['bcast']))
        run.count('probe.kept by the root', int(not call['bcast'] and workers > 0))
        o = order.get((color, c), [])
        run.count('probe.results out of task order', int(o != sorted(o)))
    want = len(scn['calls']) * (2 if scn['comm'] == 'split' and scn['nproc'] > 1 else 1)
    if ncall != want:
        raise Violation('no-return', '%d of %d calls returned' % (ncall, want))
    run.count('probe.no communicator', int(scn['comm'] == 'none'))
    run.count('probe.sub-communicator', int(scn['comm'] == 'split'))
    run.key = hashlib.sha1(json.dumps(scn, sort_keys=True).encode()).hexdigest()
    run.nontrivial = scn['nproc'] >= 3 and any(len(c['tasks']) > 1 for c in scn['calls'])
    run.sample = {'nproc': scn['nproc'], 'comm': scn['comm'], 'calls': [len(c['tasks']) for c in scn['calls']]}


def build(t, j):
    args = ['a%d' % k for k in range(t['nargs'])]
    kw = None
    if t['kw'] == 'some':
        kw = {'j': j, 'extra': 'e%d' % j}
    else:
        args.append(j)
        kw = {} if t['kw'] == 'empty' else None
    return args, kw


def judge(call, res, here, ran):
    tasks = call['tasks']
    for j, t in enumerate(tasks):
        if len(ran[j]) != 1:
            raise Violation('task-count', '%s: task %d ran %d times' % (here, j, len(ran[j])))
        args, kw = build(t, j)
        if list(ran[j][0][1]) != args or ran[j][0][2] != (kw or {}):
            raise Violation('wrong-arguments', '%s: task %d was called with %r %r' % (
                here, j, ran[j][0][1], ran[j][0][2]))
    if res is None:
        raise Violation('no-result', '%s: no results' % here)
    if len(res) != len(tasks):
        raise Violation('result-count', '%s: %d results of %d tasks' % (here, len(res), len(tasks)))
    left = list(range(len(tasks)))
    for r in res:
        if not (isinstance(r, (tuple, list)) and len(r) == 2):
            raise Violation('wrong-result', '%s: result %r' % (here, r))
        val, err = r
        for j in left:
            t = tasks[j]
            if t['fail']:
                ok = val is None and isinstance(err, str) and 'task %d cannot be done' % j in err
            else:
                ok = err is None and (val is None if t['none'] else
                                      tuple(val or ()) == ('result of', j, ran[j][0][0]))
            if ok:
                left.remove(j)
                break
        else:
            raise Violation('wrong-result', '%s: %r is not the result of a task (left) %r' % (here, r, left))
