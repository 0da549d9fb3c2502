"""Recording sessions: one problem with recorders on its driver and its solvers, run and re-run.

A recorder spec is {'kind', 'at': ['driver' or group ids], 'opts': {...}, 'ext': file name}.  What was to be
recorded is observed independently: a wrapper around the call by which a driver or solver announces an
iteration copies the live vectors and the iteration coordinate; how often it has to announce one is counted
from the executions of the model."""
import copy
import fnmatch
import os
import re

import numpy as np

from checks import p01, p02, sess
from sim import kernel as K, models as M, mpiharness as H
from sim.kernel import Violation
from sim.simsql import SimSql

KINDS = ['mem', 'dump', 'csv', 'sql', 'h5']
PAR = ('mem', 'dump')
BOOL = ['record_params', 'record_unknowns', 'record_resids', 'record_derivs', 'record_metadata']


# ------------------------------------------------------------------ generator
def patterns(rng, spec):
    names = [o['n'] for c in spec['comps'].values() for o in c['outs']]
    names += [i['n'] for c in spec['comps'].values() for i in c['ins']]
    groups = ['G%d' % g['g'] for g in M.groups_of(spec)]
    out = []
    for _ in range(rng.randint(1, 3)):
        n = rng.choice(names)
        out.append(rng.choice(['*', '*', n, '*' + n, '*.' + n, rng.choice(sorted(spec['comps'])) + '.*',
                               '*%s*' % rng.choice(sorted(spec['comps'])), '*' + n[:1] + '*', '?*',
                               '*[0-4]', '*[!13]', 'nosuch', '*%s.*' % rng.choice(groups)]))
    return out


def gen_opts(rng, spec, kind):
    o = {}
    for b, p in zip(BOOL, (0.5, 0.85, 0.4, 0.8, 0.7)):
        o[b] = rng.random() < p
    if kind == 'csv':
        o['record_metadata'] = False
    if rng.random() < 0.5:
        o['includes'] = patterns(rng, spec)
    if rng.random() < 0.4:
        o['excludes'] = patterns(rng, spec)
    return o


def gen_recs(rng, spec, kinds, wide=True, n=None):
    gids = [g['g'] for g in M.groups_of(spec)]
    recs = []
    for k in range(n or rng.choice([1, 1, 2, 3])):
        kind = rng.choice(kinds)
        at = ['driver'] if rng.random() < 0.6 else [rng.choice(gids)]
        while rng.random() < 0.35 and len(at) < 4:
            x = rng.choice(['driver'] + gids)
            if x not in at:
                at.append(x)
        recs.append({'kind': kind, 'at': at, 'opts': gen_opts(rng, spec, kind),
                     'ext': rng.choice(['r%d', 'r%d.txt', 'd.1/r%d', 'd.1/r%d.x'])})
    return recs


def gen_ops(rng, ps, drv, recs, nmax=6, fp=0.12):
    ops = []
    for _ in range(rng.randint(2, nmax)):
        x = rng.random()
        if x < 0.2:
            ops.append(['set', sess.rand_set(rng, ps)])
        elif x < 0.6:
            op = ['run']
            f = sess.fault(rng, fp, ['RuntimeError', 'AnalysisError', 'AnalysisError'])
            ops.append(op + ([f] if f else []))
        elif x < 0.75:
            ops.append(['grad', rng.choice(['fwd', 'rev', 'auto', 'fd']), rng.choice(['dict', 'array'])])
        elif x < 0.83:
            ops.append(['setup'])
        elif x < 0.9:
            k = rng.randrange(len(recs))
            ops.append(['opts', k, gen_opts(rng, ps['spec'], recs[k]['kind'])])
        else:
            ops.append(['read'])
    ops.append(['run'])
    return ops


def gen_serial(rng, kinds=KINDS, fp=0.12):
    while True:
        ps = sess.gen_problem(rng, dirs=0.15, size=rng.choice([2, 3, 4, 6]))
        if ps['root'] != 'cs':
            break
    drv = rng.choice(['plain', 'plain', 'doe', 'scipy'])
    recs = gen_recs(rng, ps['spec'], kinds)
    scn = {'mode': 'serial', 'ps': ps, 'drv': drv, 'recs': recs, 'ops': gen_ops(rng, ps, drv, recs, fp=fp),
           'salts': rng.randrange(1, 10 ** 6), 'clk': rng.randrange(4)}
    if drv == 'doe':
        scn['cases'] = [sess.rand_set(rng, ps) for _ in range(rng.randint(1, 4))]
    if drv == 'scipy':
        scn['npt'] = rng.randint(1, 3)
    return scn


def shrink(scn):
    for k in range(len(scn['ops'])):
        yield dict(scn, ops=scn['ops'][:k] + scn['ops'][k + 1:])
    if len(scn['recs']) > 1:
        for k in range(len(scn['recs'])):
            ops = [[o[0], o[1] - (1 if o[1] > k else 0)] + o[2:] if o[0] == 'opts' else o
                   for o in scn['ops'] if not (o[0] == 'opts' and o[1] == k)]
            yield dict(scn, recs=scn['recs'][:k] + scn['recs'][k + 1:], ops=ops)
    for k, r in enumerate(scn['recs']):
        def put(**kw):
            return dict(scn, recs=scn['recs'][:k] + [dict(r, **kw)] + scn['recs'][k + 1:])
        if len(r['at']) > 1:
            for j in range(len(r['at'])):
                yield put(at=r['at'][:j] + r['at'][j + 1:])
        for key in ('includes', 'excludes'):
            if key in r['opts']:
                o = dict(r['opts'])
                del o[key]
                yield put(opts=o)
        for key in BOOL:
            if r['opts'].get(key) and key != 'record_unknowns':
                yield put(opts=dict(r['opts'], **{key: False}))
        if r['ext'] != 'r%d':
            yield put(ext='r%d')
    for k, o in enumerate(scn['ops']):
        if isinstance(o[-1], dict) and 'at' in o[-1]:
            yield dict(scn, ops=scn['ops'][:k] + [o[:-1]] + scn['ops'][k + 1:])
    if scn.get('clk'):
        yield dict(scn, clk=0)
    if scn['mode'] == 'serial':
        if scn['drv'] != 'plain':
            yield dict(scn, drv='plain')
        if scn.get('cases') and len(scn['cases']) > 1:
            for k in range(len(scn['cases'])):
                yield dict(scn, cases=scn['cases'][:k] + scn['cases'][k + 1:])
        for q in sess.shrink_problem(scn['ps']):
            gids = [g['g'] for g in M.groups_of(q['spec'])]
            ok = dict(p01.indep_names(q['spec']))

            def cut(d):
                return {n: v for n, v in d.items() if ok.get(n) == len(v)}
            if all(x == 'driver' or x in gids for r in scn['recs'] for x in r['at']):
                yield dict(scn, ps=q, ops=[[o[0], cut(o[1])] if o[0] == 'set' else o for o in scn['ops']],
                           **({'cases': [cut(c) for c in scn['cases']]} if 'cases' in scn else {}))
    else:
        for s in H.shrink_job(scn):
            yield s
        for s in M.shrinks(scn['ps']['spec']):
            gids = [g['g'] for g in M.groups_of(s)]
            ok = dict(p01.indep_names(s))
            mx = H.maxprocs(s)
            if all(x == 'driver' or x in gids for r in scn['recs'] for x in r['at']):
                yield dict(scn, ps=dict(scn['ps'], spec=s), nproc=min(scn['nproc'], mx),
                           ops=[[o[0], {n: v for n, v in o[1].items() if ok.get(n) == len(v)}]
                                if o[0] == 'set' else o for o in scn['ops']])


# ------------------------------------------------------------------ simulated clock
class Clock(object):
    """time.time() of the recording manager: advances by decided amounts, may stand still or step back."""

    def __init__(self, kind, run):
        self.kind, self.run = kind, run
        self.t = 1.5e9
        self.seen = []

    def time(self):
        k = K.cur()
        j = k.choose((1, 2, 3, 4)[self.kind], 'clock') if k is not None and k.me() is not None else 0
        self.t += (0.125, 0.0, 2.5, -3600.0)[j]
        if j == 1:
            self.run.count('fault.clock stood still')
        elif j == 3:
            self.run.count('fault.clock stepped back')
        self.seen.append(self.t)
        return self.t

    def __getattr__(self, n):
        import time
        return getattr(time, n)


# ------------------------------------------------------------------ observation
def copyval(v):
    return np.array(v, copy=True) if isinstance(v, np.ndarray) else copy.deepcopy(v)


def snapshot(root):
    out = {}
    for key, vec in (('p', root.params), ('u', root.unknowns), ('r', root.resids)):
        out[key] = {n: copyval(vec[n]) for n in vec.keys() if not vec._dat[n].remote}
    return out


def coordname(coord):
    s = ['%s|%s' % (n, '-'.join(str(x) for x in it)) for n, it in zip(coord[1::2], coord[2::2])]
    return 'rank%d:%s' % (coord[0], '|'.join(s))


class Ctx(object):
    """What one process sees."""

    def __init__(self, sim, rank):
        self.sim, self.rank = sim, rank
        self.events = []        # everything announced, in order
        self.sel = {}           # (recorder, manager label) -> selected names
        self.objs = []
        self.labels = {}        # id(manager) -> label
        self.keep = []
        self.execs = {}         # component pathname -> number of executions
        self.marks = {}
        self.nsetup = 0
        self.err = None


class Sim(object):
    """Patches of one run."""

    def __init__(self, scn, run, kern):
        self.scn, self.run, self.kern = scn, run, kern
        self.ctx = {}
        self.clock = Clock(scn.get('clk', 0), run)
        self.sql = SimSql(run)
        self.on_event = None

    def me(self):
        t = self.kern.me()
        return self.ctx.get(t.env.get('rank', 0)) if t is not None else None

    def __enter__(self):
        from openmdao.recorders import recording_manager as rm
        self.rm = rm
        cls = rm.RecordingManager
        self.old = cls.record_iteration, cls.record_derivatives, rm.time
        rm.time = self.clock
        oi, od = self.old[0], self.old[1]
        sim = self

        def record_iteration(mgr, root, metadata, dummy=False):
            c = sim.me()
            lab = c.labels.get(id(mgr)) if c is not None else None
            if lab is None or dummy:
                return oi(mgr, root, metadata, dummy)
            n0 = len(sim.clock.seen)
            e = {'ev': 'it', 'mgr': lab, 'coord': coordname(metadata['coord']), 'last': tuple(metadata['coord'][-1]),
                 'snap': snapshot(root), 'ok': metadata['success'], 'msg': metadata['msg'], 'done': False,
                 'sel': dict((k[0], v) for k, v in c.sel.items() if k[1] == lab),
                 'opts': [dict(o) for o in c.opts], 'execs': dict(c.execs)}
            c.events.append(e)
            try:
                oi(mgr, root, metadata, dummy)
            except BaseException as x:
                e['exc'] = x
                if metadata is not None:
                    e['ts'] = metadata['timestamp']
                raise
            e['done'] = True
            e['ts'] = metadata['timestamp']
            if e['ts'] not in sim.clock.seen[n0:]:
                raise Violation('wrong-timestamp', 'timestamp %r was not read from the clock' % (e['ts'],))
            if sim.on_event is not None:
                sim.on_event(c, e)

        def record_derivatives(mgr, derivs, metadata):
            c = sim.me()
            lab = c.labels.get(id(mgr)) if c is not None else None
            if lab is None:
                return od(mgr, derivs, metadata)
            n0 = len(sim.clock.seen)
            e = {'ev': 'dv', 'mgr': lab, 'coord': coordname(metadata['coord']), 'J': copy.deepcopy(derivs),
                 'ok': metadata['success'], 'msg': metadata['msg'], 'done': False,
                 'opts': [dict(o) for o in c.opts]}
            c.events.append(e)
            try:
                od(mgr, derivs, metadata)
            except BaseException as x:
                e['exc'] = x
                if metadata is not None:
                    e['ts'] = metadata['timestamp']
                raise
            e['done'] = True
            e['ts'] = metadata['timestamp']
            if mgr._recorders and e['ts'] not in sim.clock.seen[n0:]:
                raise Violation('wrong-timestamp', 'timestamp %r of derivatives was not read from the clock' % (e['ts'],))
            if sim.on_event is not None:
                sim.on_event(c, e)
        cls.record_iteration, cls.record_derivatives = record_iteration, record_derivatives
        self.sql.__enter__()
        return self

    def __exit__(self, *exc):
        cls = self.rm.RecordingManager
        cls.record_iteration, cls.record_derivatives, self.rm.time = self.old
        self.sql.__exit__(*exc)


# ------------------------------------------------------------------ recorders
def make(sp, k, top):
    import warnings
    from openmdao.recorders.inmem_recorder import InMemoryRecorder
    from openmdao.recorders.dump_recorder import DumpRecorder
    from openmdao.recorders.csv_recorder import CsvRecorder
    from openmdao.recorders.sqlite_recorder import SqliteRecorder
    path = os.path.join(top, 'rec', sp['ext'] % k)
    kind = sp['kind']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if kind == 'mem':
            r = InMemoryRecorder()
        elif kind == 'dump':
            r = DumpRecorder(path)
        elif kind == 'csv':
            r = CsvRecorder(path)
        elif kind == 'sql':
            r = SqliteRecorder(path)
        else:
            from openmdao.recorders.hdf5_recorder import HDF5Recorder
            r = HDF5Recorder(path)
    setopts(r, sp['opts'])
    return r, path


def dirs(top):
    for d in ('rec', os.path.join('rec', 'd.1')):
        os.mkdir(os.path.join(top, d))


def setopts(r, opts):
    for b in BOOL:
        r.options[b] = bool(opts.get(b, False))
    r.options['includes'] = list(opts.get('includes', ['*']))
    r.options['excludes'] = list(opts.get('excludes', []))


def chosen(names, opts):
    inc, exc = opts.get('includes', ['*']), opts.get('excludes', [])
    return [n for n in names if any(fnmatch.fnmatchcase(n, p) for p in inc) and
            not any(fnmatch.fnmatchcase(n, p) for p in exc)]


def system(p, gid, names):
    if gid == 0:
        return p.root
    want = 'g%d' % gid
    for s in p.root.subgroups(recurse=True):
        if s.name == want:
            return s
    raise KeyError(gid)


def attach(c, p, names, scn, top):
    """Create the recorders of this process and attach them."""
    c.opts = [dict(sp['opts']) for sp in scn['recs']]
    for k, sp in enumerate(scn['recs']):
        r, path = make(sp, k, top)
        c.objs.append((r, path))
        for x in sp['at']:
            if x == 'driver':
                p.driver.add_recorder(r)
            else:
                system(p, x, names).nl_solver.add_recorder(r)
    for x in sorted(set(str(x) for sp in scn['recs'] for x in sp['at'])):
        m = p.driver.recorders if x == 'driver' else system(p, int(x), names).nl_solver.recorders
        c.labels[id(m)] = x
        c.keep.append(m)


def chosen_now(c, p, names, scn):
    """The variables that the options select, after a setup."""
    c.sel = {}
    c.nsetup += 1
    for k, sp in enumerate(scn['recs']):
        o = c.opts[k]
        for x in sp['at']:
            g = p.root if x == 'driver' else system(p, x, names)
            if not g.is_active():
                continue
            c.sel[k, str(x)] = {
                'p': chosen(g.params.keys(), o) if o.get('record_params') else [],
                'u': chosen(g.unknowns.keys(), o) if o.get('record_unknowns') else [],
                'r': chosen(g.resids.keys(), o) if o.get('record_resids') else [],
                'own': dict(g._owning_ranks) if hasattr(g, '_owning_ranks') else {}, 'rank': g.comm.rank}


# ------------------------------------------------------------------ counting announcements
def count_solver(c, g, label, solver_cls):
    """Wrap a solver: an iteration is announced per execution of the group's children."""
    orig = g.nl_solver.solve
    ch = [0]
    oc = g.children_solve_nonlinear

    def children(metadata):
        ch[0] += 1
        return oc(metadata)
    g.children_solve_nonlinear = children

    def solve(params, unknowns, resids, system, metadata=None):
        ch0, e0 = ch[0], len(c.events)
        x0 = dict(c.execs)
        out = orig(params, unknowns, resids, system, metadata)
        evs = [e for e in c.events[e0:] if e['ev'] == 'it' and e['mgr'] == label]
        n = ch[0] - ch0
        at = 'solver of "%s" (%s)' % (g.pathname, solver_cls)
        if solver_cls in ('RunOnce', 'NLGaussSeidel'):
            if len(evs) != n:
                raise Violation('lost-iteration', '%s ran %d iterations, %d were announced for recording' % (
                    at, n, len(evs)))
            prev = x0
            for e in evs:
                for s in g.components(local=True):
                    if s.name in c.watch and e['execs'].get(s.name, 0) <= prev.get(s.name, 0):
                        raise Violation('stale-record', '%s: at iteration %s component %s had not run since '
                                        'the last one' % (at, e['coord'], s.name))
                prev = e['execs']
            want = [(k + 1,) for k in range(len(evs))]
            if solver_cls == 'NLGaussSeidel' and [e['last'] for e in evs] != want:
                raise Violation('wrong-coordinate', '%s: iterations are numbered %s' % (
                    at, [e['last'] for e in evs]))
        else:
            want = []
            for e in evs:
                k, j = e['last']
                want.append((k, j))
            good = True
            pk, pj = 0, 0
            for k, j in want:
                good = good and ((k, j) == (pk + 1, 0) or (k == pk and j == pj + 1 and k > 0))
                pk, pj = k, j
            if not good or pk != g.nl_solver.iter_count:
                raise Violation('lost-iteration', '%s: ran %d iterations, announced %s' % (
                    at, g.nl_solver.iter_count, want))
        return out
    g.nl_solver.solve = solve


# ------------------------------------------------------------------ reading back
def expected(c, k, sp):
    """What recorder k of this process has to hold: [(kind, name, vectors, ok, msg, ts)]."""
    out = []
    labs = [str(x) for x in sp['at']]
    for e in c.events:
        if e['mgr'] not in labs:
            continue
        o = e['opts'][k]
        if e['ev'] == 'dv':
            if o.get('record_derivs'):
                out.append(e)
        else:
            s = e['sel'][k]
            vals = {}
            for key, opt in (('p', 'record_params'), ('u', 'record_unknowns'), ('r', 'record_resids')):
                if o.get(opt):
                    vals[key] = {n: (e.get('all') or e['snap'])[key][n] for n in s[key]
                                 if n in (e.get('all') or e['snap'])[key]}
            e = dict(e, vals=vals)
            out.append(e)
    return out


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        try:
            return bool(np.array_equal(a, b) or np.allclose(a, b, rtol=0, atol=0, equal_nan=True))
        except TypeError:
            return bool((a == b).all())
    try:
        if a != a and b != b:
            return True
    except Exception:
        pass
    return a == b


def cmp_vecs(tag, got, want):
    if got is None or sorted(got) != sorted(want):
        raise Violation('wrong-selection', '%s holds %s, selected are %s' % (
            tag, None if got is None else sorted(got), sorted(want)))
    for n in sorted(want):
        if not same(got[n], want[n]):
            raise Violation('wrong-value', '%s: %s is %s, was %s at that iteration' % (
                tag, n, np.ravel(got[n]).tolist(), np.ravel(want[n]).tolist()))


def cmp_J(tag, got, want):
    if isinstance(want, dict):
        if not isinstance(got, dict) or sorted(got) != sorted(want):
            raise Violation('wrong-derivs', '%s: derivatives %s, should be of %s' % (tag, got, sorted(want)))
        for a in want:
            if sorted(got[a]) != sorted(want[a]):
                raise Violation('wrong-derivs', '%s: derivatives of %s wrt %s, should be %s' % (
                    tag, a, sorted(got[a]), sorted(want[a])))
            for b in want[a]:
                cmp_J(tag, got[a][b], want[a][b])
    elif got is None or not same(np.asarray(got), np.asarray(want)):
        raise Violation('wrong-derivs', '%s: derivative %s, should be %s' % (tag, got, want))


def last_by_name(evs):
    """Files keyed by iteration name hold the latest iteration of a name, in the order of the latest."""
    out = {}
    for e in evs:
        out.pop(e['coord'], None)
        out[e['coord']] = e
    return list(out.values())


KEYS = {'p': ('params', 'parameters'), 'u': ('unknowns', 'unknowns'), 'r': ('resids', 'resids')}


def check_mem(tag, r, evs):
    its = [e for e in evs if e['ev'] == 'it']
    dvs = [e for e in evs if e['ev'] == 'dv']
    if [x['iter'] for x in r.iters] != [e['coord'] for e in its]:
        raise Violation('wrong-entries', '%s holds %s, executed were %s' % (
            tag, [x['iter'] for x in r.iters], [e['coord'] for e in its]))
    for x, e in zip(r.iters, its):
        t = '%s entry %s' % (tag, e['coord'])
        if (x['success'], x['msg'], x['timestamp']) != (e['ok'], e['msg'], e['ts']):
            raise Violation('wrong-info', '%s has success %r message %r time %r, was %r %r %r' % (
                t, x['success'], x['msg'], x['timestamp'], e['ok'], e['msg'], e['ts']))
        for key in 'pur':
            if (KEYS[key][0] in x) != (key in e['vals']):
                raise Violation('wrong-selection', '%s: %s recorded although not asked for, or not' % (
                    t, KEYS[key][0]))
            if key in e['vals']:
                cmp_vecs(t, x[KEYS[key][0]], e['vals'][key])
    if len(r.deriv_iters) != len(dvs):
        raise Violation('wrong-derivs', '%s holds %d derivatives, computed were %d' % (
            tag, len(r.deriv_iters), len(dvs)))
    for x, e in zip(r.deriv_iters, dvs):
        cmp_J('%s derivatives of %s' % (tag, e['coord']), x['Derivatives'], e['J'])
    return len(its)


def check_case(t, case, e, dv=None):
    if (case.success, case.msg, case.timestamp) != (e['ok'], e['msg'], e['ts']):
        raise Violation('wrong-info', '%s has success %r message %r time %r, was %r %r %r' % (
            t, case.success, case.msg, case.timestamp, e['ok'], e['msg'], e['ts']))
    for key in 'pur':
        got = getattr(case, KEYS[key][1])
        if key in e['vals']:
            cmp_vecs(t, got, e['vals'][key])
        elif got is not None:
            raise Violation('wrong-selection', '%s: has %s, which were not to be recorded' % (t, KEYS[key][1]))
    if dv is not None:
        cmp_J(t + ' derivatives', case.derivs, dv['J'])
    elif case.derivs is not None:
        raise Violation('wrong-derivs', '%s has derivatives %s, none were computed' % (t, case.derivs))


def check_file(tag, path, kind, evs, exact=True, need=None, torn=()):
    """Read a file back.  exact: it holds all of evs; else a prefix of them with at least `need` events."""
    from openmdao.recorders.case_reader import CaseReader
    from openmdao.recorders.sqlite_reader import SqliteCaseReader
    from openmdao.recorders.hdf5_reader import HDF5CaseReader
    try:
        rd = CaseReader(path)
    except Exception as x:
        raise Violation('unreadable', '%s: CaseReader raised %s: %s' % (tag, type(x).__name__, x))
    if not isinstance(rd, SqliteCaseReader if kind == 'sql' else HDF5CaseReader):
        raise Violation('unreadable', '%s: read as %s' % (tag, type(rd).__name__))
    keys = list(rd.list_cases())

    def plan(evs):
        return ([e for e in last_by_name([e for e in evs if e['ev'] == 'it'])],
                {e['coord']: e for e in evs if e['ev'] == 'dv'})
    if exact:
        opts = [plan(evs)]
    else:
        opts = [plan(evs[:n]) for n in range(need, len(evs) + 1)]
    err = None
    for its, dvs in opts:
        try:
            if keys != [e['coord'] for e in its]:
                raise Violation('wrong-entries', '%s holds %s, executed were %s' % (
                    tag, keys, [e['coord'] for e in its]))
            if rd.num_cases != len(its):
                raise Violation('wrong-entries', '%s: num_cases is %r for %d' % (tag, rd.num_cases, len(its)))
            for j, e in enumerate(its):
                for cid in (j, e['coord']) + ((j - len(its),) if j == len(its) - 1 else ()):
                    if any(e['coord'] == x['coord'] for x in torn):
                        continue
                    case = rd.get_case(cid)
                    if case.case_id != e['coord']:
                        raise Violation('wrong-entries', '%s: case %r is %s' % (tag, cid, case.case_id))
                    check_case('%s case %r (%s)' % (tag, cid, e['coord']), case, e, dvs.get(e['coord']))
            return len(its), rd
        except Violation as x:
            err = x if err is None or len(opts) == 1 else err
    raise err


NUM = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|nan|inf)j?'


def cmp_text(tag, n, text, want, exact):
    """A value written as text."""
    if isinstance(want, (int, float, np.ndarray, np.number)):
        w = np.ravel(np.asarray(want))
        if np.iscomplexobj(w):
            return
        g = [float(x) for x in re.findall(NUM, text)]
        ok = len(g) == w.size and (list(g) == w.tolist() if exact else
                                   np.allclose(g, w, rtol=1e-6, atol=1e-7 * (np.abs(w).max() if w.size else 0) + 1e-8,
                                               equal_nan=True))
        if not ok:
            raise Violation('wrong-value', '%s: %s is %r, was %s at that iteration' % (tag, n, text, w.tolist()))
    elif text.strip() != str(want).strip():
        raise Violation('wrong-value', '%s: %s is %r, was %r at that iteration' % (tag, n, text, want))


def parse_dump(text):
    """[(kind, coord, ts, success, msg, {section: {name: text}})] and the number of metadata sections."""
    out, nmeta = [], 0
    cur, sec, last, meta = None, None, None, False
    msg = False
    for line in text.split('\n'):
        if line.startswith('Metadata:'):
            nmeta += 1
            meta, msg = True, False
        elif line.startswith('Timestamp: '):
            meta, msg = False, False
            cur = {'ts': float(line[11:]), 'sec': {}, 'msg': None}
            out.append(cur)
            sec = None
        elif meta:
            continue
        elif cur is None:
            if not line:
                continue
            raise Violation('wrong-entries', 'unexpected line %r' % line)
        elif line.startswith('Iteration Coordinate: '):
            cur['coord'] = line[22:]
        elif line.startswith('Iteration succeeded: ') or (line in ('yes', 'no') and sec is None):
            cur['succ'] = line.replace('Iteration succeeded: ', '')
            cur['succline'] = line
        elif line.startswith('Error msg: '):
            cur['msg'] = line[11:]
            msg = True
        elif line in ('Params:', 'Unknowns:', 'Resids:', 'Derivatives:'):
            sec = cur['sec'].setdefault(line[:-1], {})
            last, msg = None, False
        elif msg:
            cur['msg'] += '\n' + line
        elif sec is not None and re.match(r'  \S', line) and ': ' in line:
            last, v = line[2:].split(': ', 1)
            sec[last] = v
        elif sec is not None and last is not None:
            sec[last] += '\n' + line
        elif sec is not None and line.strip():
            sec[''] = sec.get('', '') + line
    return out, nmeta


def check_dump(tag, text, evs, nmeta=None, upto=None):
    got, nm = parse_dump(text)
    names = [g.get('coord') for g in got]
    want = [e['coord'] + ('/Derivs' if e['ev'] == 'dv' else '') for e in evs]
    if names != want:
        raise Violation('wrong-entries', '%s holds %s, executed were %s' % (tag, names, want))
    if nmeta is not None and nm != nmeta:
        raise Violation('wrong-metadata', '%s: %d metadata sections, should be %d' % (tag, nm, nmeta))
    for g, e in zip(got, evs):
        t = '%s entry %s' % (tag, g['coord'])
        if g['ts'] != e['ts'] or g.get('succline') != 'Iteration succeeded: ' + ('yes' if e['ok'] else 'no') or (
                not e['ok'] and (g['msg'] or '').strip() != e['msg'].strip()):
            raise Violation('wrong-info', '%s has time %r success line %r message %r, was %r %r %r' % (
                t, g['ts'], g.get('succline'), g['msg'], e['ts'], e['ok'], e['msg']))
        if e['ev'] == 'dv':
            d = g['sec'].get('Derivatives', {})
            if isinstance(e['J'], dict):
                w = {'%s wrt %s' % (a, b): e['J'][a][b] for a in e['J'] for b in e['J'][a]}
                if sorted(w) != sorted(d):
                    raise Violation('wrong-derivs', '%s has %s, should be %s' % (t, sorted(d), sorted(w)))
                for n in w:
                    cmp_text(t, n, d[n], w[n], False)
            else:
                cmp_text(t, 'derivatives', ' '.join(d.values()), e['J'], False)
            continue
        for key, sec in (('p', 'Params'), ('u', 'Unknowns'), ('r', 'Resids')):
            if (sec in g['sec']) != (key in e['vals']):
                raise Violation('wrong-selection', '%s: section %s %s' % (
                    t, sec, 'is there' if sec in g['sec'] else 'is missing'))
            if key in e['vals']:
                a, b = g['sec'][sec], e['vals'][key]
                if sorted(a) != sorted(b):
                    raise Violation('wrong-selection', '%s %s holds %s, selected are %s' % (
                        t, sec, sorted(a), sorted(b)))
                for n in b:
                    cmp_text(t, n, a[n], b[n], not isinstance(b[n], np.ndarray))
    return len(got)


def check_csv(tag, text, evs, opts):
    import csv
    import io
    rows = list(csv.reader(io.StringIO(text, newline='')))
    if not evs:
        if rows:
            raise Violation('wrong-entries', '%s holds %s, nothing was executed' % (tag, rows))
        return 0
    nrows, head = sum(r[:1] != ['success'] for r in rows), None
    if nrows != len(evs):
        raise Violation('wrong-entries', '%s holds %d rows, executed were %s' % (
            tag, nrows, [e['coord'] for e in evs]))
    left = iter(rows)
    for e in evs:
        t = '%s row of %s' % (tag, e['coord'])
        row = next(left)
        while row[:1] == ['success']:
            head, row = row, next(left)
        if e['ev'] == 'it':
            want = ['success']
            for key in 'pur':
                want += e['vals'].get(key, ())
            if sorted(x for x in head if x != 'Derivatives') != sorted(want):
                raise Violation('wrong-selection', '%s has columns %s, selected are %s' % (t, head, want))
        if len(row) != len(head):
            raise Violation('wrong-entries', '%s has %d fields for %d columns' % (t, len(row), len(head)))
        if row[0] != str(e['ok']):
            raise Violation('wrong-info', '%s has success %r, was %r' % (t, row[0], e['ok']))
        if e['ev'] == 'dv':
            if any(row[1:-1]):
                raise Violation('wrong-entries', '%s has values %s' % (t, row))
            J = e['J']
            if isinstance(J, dict):
                J = np.concatenate([np.ravel(J[a][b]) for a in J for b in J[a]])
                nums = re.findall(r'array\((.*?)\)', row[-1], re.S)
                cmp_text(t, 'derivatives', ' '.join(re.sub('dtype=.*', '', x) for x in nums), J, False)
            else:
                cmp_text(t, 'derivatives', row[-1], J, False)
            continue
        j = 1
        for key in 'pur':
            if key not in e['vals']:
                continue
            n = len(e['vals'][key])
            cols = head[j:j + n]
            if sorted(cols) != sorted(e['vals'][key]):
                raise Violation('wrong-selection', '%s: columns %s, selected are %s' % (
                    t, cols, sorted(e['vals'][key])))
            for name, txt in zip(cols, row[j:j + n]):
                v = e['vals'][key][name]
                cmp_text(t, name, txt, v, np.ndim(v) < 2)
            j += n
    if opts is not None and (head[-1] == 'Derivatives') != bool(opts.get('record_derivs')):
        raise Violation('wrong-selection', '%s has columns %s, derivatives recorded: %s' % (
            tag, head, opts.get('record_derivs')))
    return nrows


def dump_ends(text):
    """Where the entries of a dump end."""
    starts = [m.start() for m in re.finditer(r'^Timestamp: ', text, re.M)]
    stops = sorted(starts + [m.start() for m in re.finditer(r'^Metadata:', text, re.M)] + [len(text)])
    return [min(x for x in stops if x > a) for a in starts]


def csv_ends(text):
    """Where the rows with data end."""
    import csv
    lines = re.findall(r'[^\n]*\n', text)
    offs = [0]
    for x in lines:
        offs.append(offs[-1] + len(x))
    rd = csv.reader(lines)
    return [offs[rd.line_num] for row in rd if row[:1] != ['success']]


def read(path):
    with open(path, newline='') as f:
        return f.read()


def dump_path(path, scn, rank):
    """The documented name of the file of a process."""
    if scn['mode'] != 'mpi':
        return path
    b, e = os.path.splitext(path)
    return '%s_%d%s' % (b, rank, e) if e else '%s%d' % (path, rank)


# ------------------------------------------------------------------ a session in one process
class Serial(object):
    """A recording session without MPI.  step hooks: before_op(op), judge_error(op, err) for P15."""

    def __init__(self, scn, ch, run, max_steps=400000):
        self.scn, self.run = scn, run
        self.kern = K.Kernel(ch, max_steps=max_steps)
        self.kern.globals_savers = K.std_savers()
        self.sim = Sim(scn, run, self.kern)
        self.calls, self.armed, self.fired = 0, None, None
        self.ndrv = 0
        self.nread = 0

    def hook(self, comp, what):
        c = self.c
        if what == 'solve_nonlinear.end':
            c.execs[comp.name] = c.execs.get(comp.name, 0) + 1
        self.kern.event(what, comp.pathname)
        self.calls += 1
        if self.armed is not None and self.calls > self.armed['at']:
            f, self.armed = self.armed, None
            e = sess.make_exc(f['exc'], 1)
            self.fired = e
            self.run.count('fault.user code raised ' + f['exc'])
            raise e

    def start(self, body):
        top = os.path.realpath(self.run.tmp)
        self.top = top
        M.HOOK[0] = self.hook
        from sim import hashorder
        hashorder.set_salt(self.scn.get('salts') or 0)
        hashorder.perms[0] = 0
        out = {}

        def main():
            self.c = self.sim.ctx[0] = Ctx(self.sim, 0)
            with H.no_mpi():
                old = os.getcwd()
                os.chdir(top)
                try:
                    body()
                finally:
                    os.chdir(old)
        t = self.kern.spawn('main', main, {'rank': 0})
        try:
            with self.sim:
                v = self.kern.run()
        finally:
            M.HOOK[0] = None
            hashorder.reset()
            self.run.absorb(self.kern)
        if t.exc is not None and not isinstance(t.exc, Violation):
            import traceback
            tb = ''.join(traceback.format_exception(type(t.exc), t.exc, t.exc_tb))
            raise Violation('exception', 'the session raised %s: %s\n%s' % (type(t.exc).__name__, t.exc, tb[-1800:]))
        if v is not None:
            raise v
        return out

    # ---------------------------------------------------------- parts of a session
    def build(self):
        scn, ps = self.scn, self.scn['ps']
        p, names = sess.build(ps)
        self.p, self.names = p, names
        self.ref = M.Ref(ps['spec'])
        self.inputs = {}
        if scn['drv'] == 'doe':
            from openmdao.api import CaseDriver
            cases = [[(self.at(n), M.classes()['val'](self.shape(n), v)) for n, v in sorted(c.items())]
                     for c in scn['cases']]
            d = CaseDriver(cases)
            for n, sz in p01.indep_names(ps['spec']):
                d.add_desvar(self.at(n))
            p.driver = d
        elif scn['drv'] == 'scipy':
            from openmdao.api import ScipyOptimizer
            d = ScipyOptimizer()
            d.options['optimizer'] = 'SLSQP'
            d.options['disp'] = False
            for x in ps['dv']:
                d.add_desvar(names.at_root(x['c'], x['n']), indices=x['idx'])
            x = ps['re'][0]
            d.add_objective(names.at_root(x['c'], x['n']), indices=[x['idx'][0] if x['idx'] else 0])
            p.driver = d
        return p

    def at(self, n):
        for c, _ in M.walk(self.scn['ps']['spec']):
            for o in self.scn['ps']['spec']['comps'][c]['outs']:
                if o['n'] == n:
                    return self.names.at_root(c, n)

    def shape(self, n):
        for c in self.scn['ps']['spec']['comps'].values():
            for o in c['outs']:
                if o['n'] == n:
                    return o['s']

    def groups(self, p):
        return [(g['g'], system(p, g['g'], self.names)) for g in M.groups_of(self.scn['ps']['spec'])]

    def wrap(self):
        c, ps = self.c, self.scn['ps']
        c.watch = set(x for x, d in ps['spec']['comps'].items() if d['kind'] != 'P' and x not in ps['sub'])
        gids = set(x for r in self.scn['recs'] for x in r['at'] if x != 'driver')
        for gid, g in self.groups(self.p):
            if gid in gids:
                count_solver(c, g, str(gid), type(g.nl_solver).__name__)

    def setup(self):
        self.p.setup(check=False)
        chosen_now(self.c, self.p, self.names, self.scn)
        p01.set_indeps(self.p, self.scn['ps']['spec'], self.names, self.inputs)

    def minimize(self, fun, x0, method=None, jac=None, **kw):
        """An optimizer that visits a few designs."""
        x = np.array(x0, dtype=float)
        for k in range(self.scn['npt']):
            fun(x)
            self.nfun += 1
            if jac is not None and callable(jac):
                jac(x)
            x = x + 0.25

        class Res(object):
            success, message, status, fun_ = True, '', 0, None
        return Res()

    def drive(self):
        """Run the driver."""
        from openmdao.drivers import scipy_optimizer as so
        self.nfun = 0
        old = so.minimize
        so.minimize = self.minimize
        import contextlib
        import io
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self.p.run()
        finally:
            so.minimize = old

    def grad(self, op):
        """Derivatives by the driver."""
        ps = self.scn['ps']
        dv = [self.names.at_root(d['c'], d['n']) for d in ps['dv']]
        re_ = [self.names.at_root(d['c'], d['n']) for d in ps['re']]
        if self.scn['drv'] == 'scipy':
            re_ = re_[:1]
        mode = op[1] if ps['root'] == 'user' or op[1] == 'fd' else 'auto'
        self.p.driver._problem = self.p       # as the drivers do while they run
        return self.p.driver.calc_gradient(dv, re_, mode=mode, return_format=op[2])

    def driver_recorded(self):
        return any('driver' in r['at'] for r in self.scn['recs'])

    def check_driver(self, e0, j):
        """After a run without failure: the driver announced its iterations, at the right values."""
        scn, c, ps = self.scn, self.c, self.scn['ps']
        if not self.driver_recorded():
            return
        evs = [e for e in c.events[e0:] if e['mgr'] == 'driver' and e['ev'] == 'it']
        n = {'plain': 1, 'doe': len(scn.get('cases', ())), 'scipy': self.nfun}[scn['drv']]
        if len(evs) != n:
            raise Violation('lost-iteration', 'operation %d: the driver ran %d iterations, announced %s' % (
                j, n, [e['coord'] for e in evs]))
        lasts = [e['last'][0] for e in evs]
        if any(b != a + 1 for a, b in zip(lasts, lasts[1:])):
            raise Violation('wrong-coordinate', 'operation %d: driver iterations are numbered %s' % (j, lasts))
        tol = 2e-8 if p01.iterates(ps['spec']) or ps['usegs'] else 1e-10
        for e in evs:
            u = e['snap']['u']
            ref = M.Ref(ps['spec'])
            for nme, sz in p01.indep_names(ps['spec']):
                ref.set(nme, np.ravel(u[self.at(nme)]))
            ref.run()
            if not e['ok']:
                continue
            for cid, _ in M.walk(ps['spec']):
                for o in ps['spec']['comps'][cid]['outs']:
                    w = u[self.names.at_root(cid, o['n'])]
                    if not H.close(w, ref.y[o['n']], tol, tol):
                        raise Violation('stale-record', 'operation %d: at driver iteration %s, %s was %s; it is '
                                        '%s for the inputs of that iteration' % (
                                            j, e['coord'], o['n'], np.ravel(w).tolist(), ref.y[o['n']]))

    def verify(self, closed, tag):
        """Everything recorded so far."""
        n = 0
        for k, sp in enumerate(self.scn['recs']):
            r, path = self.c.objs[k]
            evs = expected(self.c, k, sp)
            t = '%s recorder %d (%s on %s)' % (tag, k, sp['kind'], sp['at'])
            if sp['kind'] == 'mem':
                n += check_mem(t, r, evs)
                if self.c.nsetup and self.nmeta[k]:
                    for what, vec in (('params', self.metas[k][0]), ('unknowns', self.metas[k][1])):
                        got = r.meta.get(what)
                        if got is None or sorted(got) != sorted(vec) or any(
                                tuple(np.ravel(got[v].get('shape', ()))) != tuple(np.ravel(vec[v].get('shape', ())))
                                for v in vec):
                            raise Violation('wrong-metadata', '%s: metadata of %s %s, the model has %s' % (
                                t, what, got and sorted(got), sorted(vec)))
            elif sp['kind'] == 'dump':
                o = [x for x in self.c.opts[k:k + 1]]
                n += check_dump(t, read(path), evs, self.nmeta[k] if closed else None)
            elif sp['kind'] == 'csv':
                n += check_csv(t, read(path), evs, None if any(
                    o[0] == 'opts' for o in self.scn['ops']) else self.c.opts[k])
            elif sp['kind'] == 'sql' or closed:
                m, rd = check_file(t, path, sp['kind'], evs)
                self.check_meta(t, rd, k)
                n += m
            else:
                continue
            self.run.count('probe.read back ' + sp['kind'])
        self.nread += n
        return n

    def check_meta(self, t, rd, k):
        has = self.nmeta[k] > 0
        for got, vec, what in ((rd.parameters, self.metas[k] and self.metas[k][0], 'parameters'),
                               (rd.unknowns, self.metas[k] and self.metas[k][1], 'unknowns')):
            if not has:
                if got is not None:
                    raise Violation('wrong-metadata', '%s: %s metadata although not to be recorded' % (t, what))
                continue
            if got is None or sorted(got) != sorted(vec):
                raise Violation('wrong-metadata', '%s: metadata of %s %s, the model has %s' % (
                    t, what, None if got is None else sorted(got), sorted(vec)))
            for n in vec:
                if tuple(np.ravel(got[n].get('shape', ()))) != tuple(np.ravel(vec[n].get('shape', ()))):
                    raise Violation('wrong-metadata', '%s: shape of %s is %s, was %s' % (
                        t, n, got[n].get('shape'), vec[n].get('shape')))

    def note_setup(self):
        """Metadata is recorded at setup, once per attachment."""
        for k, sp in enumerate(self.scn['recs']):
            if self.c.opts[k].get('record_metadata'):
                self.nmeta[k] += len(sp['at'])
                self.metas[k] = ({n: dict(m) for n, m in self.p.root.params.iteritems()},
                                 {n: dict(m) for n, m in self.p.root.unknowns.iteritems()})
