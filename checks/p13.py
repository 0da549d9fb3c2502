"""P13: recorders store what happened, in order, for every run."""
import numpy as np

from checks import p01, rec, sess
from sim import models as M, mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P13'
RULE = ('random models with a plain driver, a design of experiments or an optimizer, one to three recorders '
        '(in memory, text dump, CSV, sqlite, HDF5; on the driver and on solvers of groups, also one recorder '
        'on several) with random options; sessions of runs, failing runs, derivative computations, option '
        'changes and new setups; on 1-6 simulated MPI ranks in a part of the runs; non-trivial: at least two '
        'iterations read back')
QUICK = (2000, 45)
THOROUGH = (40000, 1500)
COMPONENTS = {'real': ['openmdao (all of it, from /repo)', 'sqlitedict', 'sqlite', 'h5py', 'csv', 'numpy', 'scipy'],
              'stub': ['threads, queues and locks of sqlitedict: sim/simsql.py', 'clock of the recording manager',
                       'MPI: sim/simmpi.py', 'scipy.optimize.minimize: visits scripted designs',
                       'set iteration order: sim/hashorder.py', 'user components: sim/models.py']}
ASSUMPTIONS = ['files keyed by iteration name (sqlite, HDF5) hold the latest iteration of a name',
               'options of a recorder change only together with a new setup']
FAULTS = ('clock stood still', 'clock stepped back', 'user code raised RuntimeError',
          'user code raised AnalysisError', 'slow component')
PROBES = ('read back mem', 'read back dump', 'read back csv', 'read back sql', 'read back h5', 'several ranks',
          'recorder on several solvers', 'recorder on an inner solver', 'derivatives recorded', 'failed case',
          'iteration name repeated', 'parallel group', 'solver of a nested group on some ranks')
prepare = H.prepare


def gen(rng, i, tier):
    if rng.random() < 0.65:
        return rec.gen_serial(rng)
    return gen_mpi(rng)


def outer(spec):
    """Groups that live on every process."""
    out = []

    def walk(n, top):
        if isinstance(n, dict):
            if top:
                out.append(n['g'])
            for s in n['subs']:
                walk(s, top and n['kind'] != 'PG')
    walk(spec['tree'], True)
    return out


def gen_mpi(rng):
    scn = p01.gen(rng, 0, 'quick')
    spec = scn.pop('spec')
    scn.pop('reps'), scn.pop('resetup')
    scn['mode'] = 'mpi'
    scn['ps'] = {'spec': spec}
    recs = rec.gen_recs(rng, spec, ['mem', 'dump', 'csv', 'sql', 'sql'])
    ok = outer(spec)
    for r in recs:
        if r['kind'] not in rec.PAR:
            # a serial recorder is on rank 0 (P13-K1)
            r['at'] = [x if x == 'driver' or x in ok else 'driver' for x in r['at']]
            r['at'] = [x for k, x in enumerate(r['at']) if x not in r['at'][:k]]
    scn['recs'] = recs
    scn['clk'] = 0
    ops = []
    for _ in range(rng.randint(1, 4)):
        x = rng.random()
        if x < 0.35:
            ops.append(['set', {n: [round(rng.uniform(-2, 2), 3) for _ in range(sz)]
                                for n, sz in p01.indep_names(spec) if rng.random() < 0.7}])
        elif x < 0.75:
            ops.append(['run'])
        elif x < 0.85:
            ops.append(['setup'])
        else:
            k = rng.randrange(len(recs))
            ops.append(['opts', k, rec.gen_opts(rng, spec, recs[k]['kind'])])
    ops.append(['run'])
    scn['ops'] = ops
    return scn


shrink = rec.shrink


def execute(scn, ch, run):
    run.key = p01.hash_key(scn)
    if scn['mode'] == 'mpi':
        n = mpi(scn, ch, run)
    else:
        n = serial(scn, ch, run)
    for sp in scn['recs']:
        run.count('probe.recorder on several solvers', int(sum(x != 'driver' for x in sp['at']) > 1))
        run.count('probe.recorder on an inner solver', int(any(x not in ('driver', 0) for x in sp['at'])))
    run.count('values compared', n)
    run.nontrivial = n >= 2
    run.sample = {k: scn[k] for k in ('mode', 'recs', 'ops') if k in scn}
    run.sample['order'] = [c for c, _ in M.walk(scn['ps']['spec'])]


def serial(scn, ch, run):
    s = rec.Serial(scn, ch, run)
    s.nmeta = [0] * len(scn['recs'])
    s.metas = [None] * len(scn['recs'])

    def body():
        rec.dirs(s.top)
        p = s.build()
        rec.attach(s.c, p, s.names, scn, s.top)
        s.wrap()
        s.setup()
        s.note_setup()
        ran = False
        for j, op in enumerate(scn['ops']):
            f = op[-1] if isinstance(op[-1], dict) and 'exc' in op[-1] else None
            e0 = len(s.c.events)
            if op[0] == 'set':
                s.inputs.update(op[1])
                p01.set_indeps(p, scn['ps']['spec'], s.names, op[1])
            elif op[0] == 'setup':
                s.setup()
                s.note_setup()
                ran = False
            elif op[0] == 'opts':
                if op[1] >= len(scn['recs']):
                    continue
                s.c.opts[op[1]] = dict(op[2])
                rec.setopts(s.c.objs[op[1]][0], op[2])
                s.setup()
                s.note_setup()
                ran = False
            elif op[0] == 'read':
                s.verify(False, 'operation %d' % j)
            elif op[0] == 'run':
                p01.set_indeps(p, scn['ps']['spec'], s.names, s.inputs)
                s.calls, s.armed, s.fired = 0, f, None
                soft = False
                try:
                    s.drive()
                    ran = True
                except (RuntimeError, Exception) as x:
                    if isinstance(x, Violation) or s.fired is None or x is not s.fired and \
                            'sim-fault' not in str(x):
                        raise
                    ran = False
                finally:
                    s.armed = None
                if ran:
                    s.check_driver(e0, j)
                    if s.fired is not None:
                        soft = True
                        bad = [e for e in s.c.events[e0:] if e['mgr'] == 'driver' and e['ev'] == 'it' and
                               not e['ok']]
                        if scn['drv'] != 'doe' or s.driver_recorded() and (
                                len(bad) != 1 or 'sim-fault' not in bad[0]['msg']):
                            raise Violation('wrong-info', 'operation %d: a case failed, %d are announced as '
                                            'failed' % (j, len(bad)))
                        run.count('probe.failed case')
                        ran = False
                    elif any(not e['ok'] for e in s.c.events[e0:]):
                        raise Violation('wrong-info', 'operation %d: an iteration is announced as failed, none '
                                        'failed' % j)
            elif op[0] == 'grad':
                if not ran or scn['drv'] == 'doe':
                    continue
                J = s.grad(op)
                evs = [e for e in s.c.events[e0:] if e['ev'] == 'dv']
                if s.driver_recorded():
                    if len(evs) != 1:
                        raise Violation('lost-iteration', 'operation %d: derivatives announced %d times' % (
                            j, len(evs)))
                    rec.cmp_J('operation %d announced' % j, evs[0]['J'], J)
                    run.count('probe.derivatives recorded')
                # what the caller does to its result must not matter
                scribble(J)
        p.cleanup()
        s.verify(True, 'in the end')
        names = [(e['mgr'], e['coord']) for e in s.c.events if e['ev'] == 'it']
        run.count('probe.iteration name repeated', int(len(set(names)) < len(names)))
    s.start(body)
    run.count('iterations', sum(e['ev'] == 'it' for e in s.c.events))
    return s.nread


def scribble(J):
    if isinstance(J, dict):
        for a in J.values():
            for b in a.values():
                b[:] = 77.0
    else:
        J[:] = 77.0


def mpi(scn, ch, run):
    spec = scn['ps']['spec']
    names = M.Names(spec)
    job = H.Job(scn, ch, run, max_steps=120000)
    sim = rec.Sim(scn, run, job.kern)
    import os
    top = os.path.realpath(run.tmp)
    rec.dirs(top)
    nmeta = [0] * len(scn['recs'])

    def body(rank):
        from openmdao.api import Problem
        from openmdao.core.petsc_impl import PetscImpl
        c = sim.ctx[rank] = rec.Ctx(sim, rank)
        p = Problem(root=M.build_group(spec, names, p01.setup_group(scn)), impl=PetscImpl)
        rec.attach(c, p, names, scn, top)

        def setup(inputs):
            p.setup(check=False)
            rec.chosen_now(c, p, names, scn)
            if rank == 0:
                for k, sp in enumerate(scn['recs']):
                    nmeta[k] += len(sp['at']) if c.opts[k].get('record_metadata') else 0
            p01.set_indeps(p, spec, names, inputs)
        inputs = {}
        setup(inputs)
        nrun = 0
        for op in scn['ops']:
            if op[0] == 'set':
                inputs.update(op[1])
                p01.set_indeps(p, spec, names, op[1])
            elif op[0] == 'setup':
                setup(inputs)
            elif op[0] == 'opts':
                if op[1] < len(scn['recs']):
                    c.opts[op[1]] = dict(op[2])
                    rec.setopts(c.objs[op[1]][0], op[2])
                    setup(inputs)
            else:
                p.run()
                nrun += 1
        p.cleanup()
        n = sum(e['mgr'] == 'driver' and e['ev'] == 'it' for e in c.events)
        if any('driver' in r['at'] for r in scn['recs']) and n != nrun:
            raise Violation('lost-iteration', 'rank %d: %d runs, %d driver iterations announced' % (rank, nrun, n))
    with sim:
        job.start(body)
    n = judge_mpi(scn, run, sim, top, nmeta)
    run.count('probe.several ranks', int(scn['nproc'] > 1))
    run.count('probe.parallel group', int(any(g['kind'] == 'PG' for g in M.groups_of(spec))))
    return n


def judge_mpi(scn, run, sim, top, nmeta):
    """Every announcement is made by the ranks of its group together; their union is the iteration."""
    total = 0
    labels = sorted(set(str(x) for r in scn['recs'] for x in r['at']))
    for lab in labels:
        lists = {r: [e for e in c.events if e['mgr'] == lab] for r, c in sorted(sim.ctx.items())}
        lists = {r: l for r, l in lists.items() if l}
        if len(set(len(l) for l in lists.values())) > 1:
            raise Violation('lost-iteration', 'ranks %s announced %s iterations of %s' % (
                sorted(lists), [len(lists[r]) for r in sorted(lists)], lab))
        run.count('probe.solver of a nested group on some ranks', int(0 < len(lists) < scn['nproc']))
        for j in range(len(next(iter(lists.values()))) if lists else 0):
            es = [lists[r][j] for r in sorted(lists)]
            tails = set(e['coord'].split(':', 1)[1] for e in es)
            if len(tails) != 1:
                raise Violation('wrong-coordinate', 'ranks are at different iterations: %s' % sorted(tails))
            al = {k: {} for k in 'pur'}
            for e in es:
                for k in 'pur':
                    for n, v in e['snap'][k].items():
                        al[k].setdefault(n, v)
            for e in es:
                e['all'] = al
    for k, sp in enumerate(scn['recs']):
        tag = 'recorder %d (%s on %s)' % (k, sp['kind'], sp['at'])
        if sp['kind'] not in rec.PAR:
            c = sim.ctx[0]
            for x in sp['at']:
                for rank, o in sorted(sim.ctx.items()):
                    if any(e['mgr'] == str(x) for e in o.events) and not any(e['mgr'] == str(x) for e in c.events):
                        raise Violation('unrecorded-group', '%s: iterations of %s happened on rank %d and not on '
                                        'rank 0, nothing was recorded' % (tag, x, rank))
            r, path = c.objs[k]
            evs = rec.expected(c, k, sp)
            if sp['kind'] == 'sql':
                m, rd = rec.check_file(tag, path, 'sql', evs)
                if nmeta[k] and (rd.parameters is None or rd.unknowns is None):
                    raise Violation('wrong-metadata', '%s: no metadata' % tag)
            else:
                m = rec.check_csv(tag, rec.read(path), evs, None if any(o[0] == 'opts' for o in scn['ops']) else c.opts[k])
            run.count('probe.read back ' + sp['kind'])
            total += m
            continue
        # every rank records what it owns: together they hold each variable once
        union = {}
        for rank, c in sorted(sim.ctx.items()):
            evs = []
            r, path = c.objs[k]
            cnt = {}
            for e in rec.expected(dict_ctx(c), k, sp):
                s = e['sel'][k]
                for key in e['vals']:
                    names = s[key]
                    mine = [n for n in names if s['own'].get(n) == s['rank']]
                    e['vals'][key] = {n: e['snap'][key][n] for n in mine if n in e['snap'][key]}
                    j = cnt.setdefault(e['mgr'], 0)
                    u = union.setdefault((e['mgr'], j, key), ([], set()))
                    u[0].extend(e['vals'][key])
                    u[1].update(names)
                cnt[e['mgr']] = cnt.get(e['mgr'], 0) + 1
                evs.append(e)
            t = '%s on rank %d' % (tag, rank)
            if sp['kind'] == 'mem':
                total += rec.check_mem(t, r, evs)
            else:
                total += rec.check_dump(t, rec.read(rec.dump_path(path, scn, rank)), evs)
            run.count('probe.read back ' + sp['kind'])
        for (lab, j, key), (got, want) in sorted(union.items()):
            if sorted(got) != sorted(want):
                raise Violation('wrong-selection', '%s: all ranks together hold %s of %s iteration %d, selected '
                                'are %s' % (tag, sorted(got), lab, j, sorted(want)))
    return total


def dict_ctx(c):
    return c


DIRECTED = [
    {'nproc': 3,
     'send': 2,
     'early': True,
     'sticky': 4,
     'stall': 1,
     'salts': 734042,
     'ln': 'petsc',
     'nl': 'gs',
     'cycnl': 'gs',
     'mode': 'mpi',
     'ps': {'spec': {'tree': {'g': 0,
                              'kind': 'PG',
                              'subs': ['c2', 'c1', {'g': 1, 'kind': 'G', 'subs': ['c3'], 'cyc': False}],
                              'cyc': False},
                     'comps': {'c1': {'kind': 'F',
                                      'ins': [{'n': 'x6', 's': [3], 'src': None, 'v': [-0.407, 0.59, 0.922]}],
                                      'outs': [{'n': 'y2', 's': [1], 'u': 's'}],
                                      'seed': 548689260},
                               'c2': {'kind': 'F',
                                      'ins': [{'n': 'x4', 's': [3], 'src': None, 'v': [0.624, 0.678, 0.988]},
                                              {'n': 'x5', 's': [1], 'src': None, 'v': [0.284]}],
                                      'outs': [{'n': 'y1', 's': 0, 'u': None}],
                                      'seed': 479792882},
                               'c3': {'kind': 'P',
                                      'ins': [],
                                      'outs': [{'n': 'y3', 's': 0, 'u': None, 'v': [-0.927]}],
                                      'seed': 579904368}}}},
     'recs': [{'kind': 'sql',
               'at': [1],
               'opts': {'record_params': False,
                        'record_unknowns': True,
                        'record_resids': False,
                        'record_derivs': False,
                        'record_metadata': False},
               'ext': 'r%d'}],
     'clk': 0,
     'ops': [['run']],
     'directed': 'P13-K1'}]
