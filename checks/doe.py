"""Shared by P08, P09, P10: designs of experiments in every execution mode."""
import copy
import itertools
import random

import numpy as np

from checks import p01, p02
from sim import kernel as K, models as M, mpiharness as H, simmp, simmpi
from sim.kernel import Violation

MODES = ('serial', 'mpi', 'mpi', 'mpilb', 'mpilb', 'mp', 'mp')
COMPONENTS = {
    'real': H.COMPONENTS['real'] + ['worker processes of multiprocessing (forked, run one at a time)'],
    'stub': H.COMPONENTS['stub'] + ['multiprocessing queues and process control: sim/simmp.py'],
}
ASSUMPTIONS = H.ASSUMPTIONS + [
    'multiprocessing queues deliver in order per producer, any order between producers',
    'workers of the multiprocessing mode are scheduled at queue operations and component calls']


def gen(rng, tier, modes=MODES, kinds=('case', 'case', 'ff', 'uniform', 'lhc', 'olhc')):
    mode = rng.choice(modes)
    while True:
        spec = M.gen(rng, ncomp=rng.choice([2, 3, 4]), ngroup=rng.choice([0, 1, 2]),
                     pg=0.5 if mode.startswith('mpi') else 0.1, cyc=0, unconn=0.1, implicit=0.1,
                     deepindep=0.15, vec=0.5)
        if spec['tree']['kind'] != 'G':
            continue
        dvs = p02.consumed(spec) or p01.indep_names(spec)
        if p02.consumed(spec):
            break
    scn = {'spec': spec, 'mode': mode}
    mx = H.maxprocs(spec)
    npar = rng.randint(2, 4)
    if mode == 'serial' or mode == 'mpi' and mx > 1 and rng.random() < 0.15:
        npar = 1
    scn['npar'] = npar
    scn.update(H.knobs(rng, max(2, npar * mx), procs=9, always_par=True))
    if mode == 'mpi':
        scn['nproc'] = rng.randint(max(2, npar), min(9, npar * mx))
    elif mode == 'mpilb':
        scn['nproc'] = rng.randint(npar, min(9, max(npar, npar * mx)))
    else:
        scn['nproc'] = 1
    if mode == 'mp':
        scn['lbflag'] = rng.random() < 0.5
    kind = rng.choice(kinds)
    dv = rng.sample(dvs, rng.randint(1, min(3 if kind == 'olhc' else 2, len(dvs))))
    scn['kind'] = kind
    scn['dv'] = []
    tot = 0
    for c, o in dv:
        sz = M.size(o['s'])
        d = {'c': c, 'n': o['n'], 's': o['s']}
        if o['s'] and len(o['s']) == 1 and sz > 1 and rng.random() < 0.3:
            d['ix'] = rng.sample(range(sz), rng.randint(1, sz))
            sz = len(d['ix'])
        if rng.random() < 0.3:
            d['sc'] = rng.choice([2.0, -0.5, [round(rng.uniform(0.5, 3), 2) for _ in range(sz)]])
        if rng.random() < 0.3:
            d['ad'] = rng.choice([1.5, [round(rng.uniform(-2, 2), 2) for _ in range(sz)]])
        lo = [round(rng.uniform(-2, 0), 2) for _ in range(sz)]
        hi = [round(l + rng.uniform(0.5, 2), 2) for l in lo]
        if rng.random() < 0.4:
            lo, hi = lo[0], hi[0]
        scn['dv'].append(dict(d, lo=lo, hi=hi))
        tot += sz
    outs = [(c, o['n']) for c, _ in M.walk(spec) for o in spec['comps'][c]['outs']
            if spec['comps'][c]['kind'] != 'P']
    scn['re'] = [list(x) for x in rng.sample(outs, rng.randint(1, min(3, len(outs))))] if outs else []
    n = rng.choice([0, 1, 2, 3, 5, 8]) if kind == 'case' else rng.choice([1, 2, 3, 5, 8])
    if kind == 'ff':
        n = rng.choice([1, 2, 3]) if tot <= 2 else (2 if tot <= 3 else 1)
    if kind in ('lhc', 'olhc'):
        n = max(2, n)
    scn['n'] = n
    scn['seed'] = rng.randint(0, 10 ** 6)
    if kind == 'case':
        scn['cases'] = [{d['n']: [round(rng.uniform(-2, 2), 4) for _ in range(nsel(d))]
                         for d in scn['dv']} for _ in range(n)]
        if n > 1 and rng.random() < 0.2:
            scn['cases'][-1] = dict(scn['cases'][0])
    scn['auto'] = rng.random() < 0.3
    scn['runs'] = rng.choice([1, 1, 1, 2])
    if kind == 'olhc':
        scn['opt'] = [rng.choice([1, 3, 5]), rng.choice([1, 2, 3, 4, 6]), rng.choice([1, 2])]
    return scn


def nsel(d):
    return len(d['ix']) if d.get('ix') else M.size(d['s'])


def scaled(d, v):
    """Selected entries as the driver sees them."""
    return (np.array(v, float) + np.array(d.get('ad', 0.0))) * np.array(d.get('sc', 1.0))


def full(scn, d, v):
    """The whole variable once the selected entries are set to v."""
    if not d.get('ix'):
        return np.array(v, float)
    o = [o for o in scn['spec']['comps'][d['c']]['outs'] if o['n'] == d['n']][0]
    out = np.array(o['v'], float).ravel()
    out[d['ix']] = v
    return out


def shrink(scn):
    if scn.get('runs', 1) > 1:
        yield dict(scn, runs=1)
    if scn['kind'] == 'case' and scn['cases']:
        for k in range(len(scn['cases'])):
            yield dict(scn, cases=scn['cases'][:k] + scn['cases'][k + 1:], n=scn['n'] - 1)
    if scn['kind'] in ('uniform', 'lhc', 'olhc') and scn['n'] > 2:
        yield dict(scn, n=scn['n'] - 1)
    if len(scn['re']) > 1:
        for k in range(len(scn['re'])):
            yield dict(scn, re=scn['re'][:k] + scn['re'][k + 1:])
    if scn['npar'] > 2:
        yield dict(scn, npar=scn['npar'] - 1)
    if scn['mode'].startswith('mpi') and scn['nproc'] > scn['npar']:
        yield dict(scn, nproc=scn['nproc'] - 1)
    for k, v in (('stall', 0), ('send', 0), ('early', False), ('salts', None), ('auto', False)):
        if scn.get(k):
            yield dict(scn, **{k: v})
    if scn['kind'] == 'olhc' and scn['opt'][1] > 3:
        yield dict(scn, opt=[scn['opt'][0], scn['opt'][1] - 1, scn['opt'][2]])
    if len(scn['dv']) > 1:
        for k in range(len(scn['dv'])):
            d = scn['dv'][:k] + scn['dv'][k + 1:]
            s = dict(scn, dv=d)
            if scn['kind'] == 'case':
                s['cases'] = [{x['n']: c[x['n']] for x in d} for c in scn['cases']]
            yield s
    for s in M.shrinks(scn['spec']):
        have = dict((o['n'], o['s']) for c in s['comps'].values() for o in c['outs'])
        if all(have.get(d['n'], 'x') == d['s'] for d in scn['dv']) and all(
                c in s['comps'] and any(o['n'] == n for o in s['comps'][c]['outs']) for c, n in scn['re']):
            if scn['mode'] != 'mpi' or scn['nproc'] <= scn['npar'] * H.maxprocs(s):
                yield dict(scn, spec=s)


def make_driver(scn, names):
    from openmdao.api import (CaseDriver, FullFactorialDriver, UniformDriver, LatinHypercubeDriver)
    from openmdao.drivers.latinhypercube_driver import OptimizedLatinHypercubeDriver
    kw = {'num_par_doe': scn['npar'], 'load_balance': scn['mode'] == 'mpilb' or scn.get('lbflag', False)}
    k = scn['kind']
    if k == 'case':
        val = M.classes()['val']
        cases = [[(names.at_root(d['c'], d['n']), scaled(d, c[d['n']]) if 'ix' in d or 'sc' in d or
                   'ad' in d else val(d['s'], c[d['n']]))
                  for d in scn['dv']] for c in scn['cases']]
        drv = CaseDriver(cases, **kw)
    elif k == 'ff':
        drv = FullFactorialDriver(num_levels=scn['n'], **kw)
    elif k == 'uniform':
        drv = UniformDriver(num_samples=scn['n'], seed=scn['seed'], **kw)
    elif k == 'lhc':
        drv = LatinHypercubeDriver(num_samples=scn['n'], seed=scn['seed'], **kw)
    else:
        pop, gens, norm = scn.get('opt', [3, 2, 1])
        drv = OptimizedLatinHypercubeDriver(num_samples=scn['n'], seed=scn['seed'], population=pop,
                                            generations=gens, norm_method=norm, **kw)
    if scn['auto']:
        drv.options['auto_add_response'] = True
    for d in scn['dv']:
        lo, hi = d['lo'], d['hi']
        if isinstance(lo, list):
            lo, hi = np.array(lo), np.array(hi)
        kw = {}
        for k, a in (('sc', 'scaler'), ('ad', 'adder')):
            if k in d:
                kw[a] = np.array(d[k]) if isinstance(d[k], list) else d[k]
        if 'ix' in d:
            kw['indices'] = list(d['ix'])
        drv.add_desvar(names.at_root(d['c'], d['n']), lower=lo, upper=hi, **kw)
    if scn['auto'] and scn['re']:
        c, n = scn['re'][0]
        drv.add_objective(names.at_root(c, n))
        for c, n in scn['re'][1:]:
            drv.add_constraint(names.at_root(c, n), upper=0.0)
    else:
        for d in scn['dv']:
            drv.add_response(names.at_root(d['c'], d['n']))
        drv.add_response([names.at_root(c, n) for c, n in scn['re']])
    return drv


class Keep(object):
    """Makes a recorder that keeps copies of what it is given."""

    @staticmethod
    def make(includes, broken=lambda: False):
        from openmdao.recorders.base_recorder import BaseRecorder

        class KeepRecorder(BaseRecorder):
            def __init__(self):
                super(KeepRecorder, self).__init__()
                self.rows = []

            def record_metadata(self, group):
                pass

            def record_derivatives(self, derivs, metadata):
                pass

            def record_iteration(self, params, unknowns, resids, metadata):
                if broken():
                    raise IOError(28, 'sim-fault: No space left on device')
                v = self._filter_vector(unknowns, 'u', metadata['coord'])
                self.rows.append(({n: np.array(x, copy=True) for n, x in v.items()},
                                  metadata['success'], metadata['msg'], tuple(metadata['coord'])))
        r = KeepRecorder()
        r.options['includes'] = list(includes)
        return r


def problem(scn, names, impl=None):
    from openmdao.api import Problem
    scn2 = dict(scn, ln='lngs', nl='run', cycnl='gs')
    p = Problem(root=M.build_group(scn['spec'], names, p01.setup_group(scn2)), **(
        {'impl': impl} if impl is not None else {}))
    p.driver = make_driver(scn, names)
    return p


def expected_cases(scn, names):
    """The cases of the design, in order: [{name: flat values}]."""
    dv = scn['dv']
    if scn['kind'] == 'case':
        return [{d['n']: full(scn, d, c[d['n']]) for d in dv} for c in scn['cases']]
    if scn['kind'] == 'ff':
        per = []
        for d in dv:
            sz = nsel(d)
            lo = d['lo'] if isinstance(d['lo'], list) else [d['lo']] * sz
            hi = d['hi'] if isinstance(d['hi'], list) else [d['hi']] * sz
            n = scn['n']
            lev = [[lo[k] + (hi[k] - lo[k]) * j / (n - 1.0) if n > 1 else lo[k] for j in range(n)]
                   for k in range(sz)]
            per.append([np.array(x) for x in itertools.product(*lev)])
        return [dict((d['n'], full(scn, d, v)) for d, v in zip(dv, combo)) for combo in itertools.product(*per)]
    # random designs: what a plain serial driver of the same seed makes
    saved = random.getstate(), np.random.get_state()
    with H.no_mpi():
        p = problem(dict(scn, npar=1, mode='serial'), names)
        p.setup(check=False)
        back = {names.at_root(d['c'], d['n']): d for d in dv}
        out = [{back[k]['n']: full(scn, back[k], np.ravel(np.array(v, float)) /
                                   np.array(back[k].get('sc', 1.0)) - np.array(back[k].get('ad', 0.0)))
                for k, v in case}
               for case in p.driver._build_runlist()]
        p.cleanup()
    random.setstate(saved[0])
    np.random.set_state(saved[1])
    return out


class Result(object):
    def __init__(self):
        self.execs = {}        # (where, k) -> {rank: {dv: value}}
        self.responses = {}    # rank -> [(dict, success, msg)]
        self.all = {}
        self.rows = {}
        self.raised = {}
        self.left = []         # worker processes that are still there after a failure
        self.ranks = {}        # where -> set of ranks


def play(scn, ch, run, names, fails=None, draw=None, before=None):
    """Run the design of experiments; returns a Result.

    fails(values) -> None | ('soft'|'hard', component id or None)
    draw(where): called at each case, may draw random numbers."""
    mode = scn['mode']
    res = Result()
    cur = {}
    phase = [0]
    job = None
    mpi = mode.startswith('mpi')
    if mpi:
        job = H.Job(scn, ch, run)

    def who():
        if simmp.CHILD[0] is not None:
            return 'child'
        t = job.kern.me()
        return t.env.get('rank') if t is not None else None

    def note(rank, where, vals):
        k = cur.setdefault(('n', rank, where), 0)
        cur['n', rank, where] = k + 1
        res.execs.setdefault((where, k), {})[rank] = vals
        res.ranks.setdefault(where, set()).add(rank)

    def hook(comp, what):
        t = who()
        f = cur.get(('fail', t))
        if f is not None and what == 'solve_nonlinear' and comp.name == f[1]:
            cur['fail', t] = None
            boom(f[0])
        if t == 'child':
            simmp.rpc('hook', comp.pathname, what)
        else:
            job.hook(comp, what)

    def boom(kind):
        from openmdao.api import AnalysisError
        job_count = 'fault.%s failure of a case' % kind
        if simmp.CHILD[0] is None:
            job.kern.count(job_count)
        if kind == 'soft':
            raise AnalysisError('cannot be evaluated here')
        if kind == 'hard2':
            raise UnicodeDecodeError('utf8', b'x', 0, 1, 'an error whose class takes several arguments')
        raise ValueError('some other failure')

    def wrap(p, where):
        """Notes what each call of the model is given."""
        orig = p.root.solve_nonlinear

        def solve(*a, **kw):
            vals = {}
            for d in scn['dv']:
                acc = p.root.unknowns._dat[names.at_root(d['c'], d['n'])]
                if not acc.remote:
                    vals[d['n']] = np.array(acc.val, copy=True).ravel()
            t = who()
            if t == 'child':
                simmp.rpc('note', vals)
            else:
                note(t, where(), vals)
            if draw is not None:
                draw(t)
            f = fails(vals) if fails is not None and not phase[0] else None
            cur['fail', t] = f
            if f is not None and f[1] is None:
                boom(f[0])
            return orig(*a, **kw)
        p.root.solve_nonlinear = solve

    def body(rank):
        if before is not None:
            before(rank)
        impl = None
        if mpi:
            from openmdao.core.petsc_impl import PetscImpl as impl
        p = problem(scn, names, impl)
        broke = dict([scn['broke']]) if scn.get('broke') else {}

        def unrecorded():
            if phase[0] or broke.get('record') != len(keep.rows):
                return False
            broke.clear()
            job.kern.count('fault.recorder fails')
            return True
        keep = Keep.make([names.at_root(c, n) for c, n in scn['re']] +
                         [names.at_root(d['c'], d['n']) for d in scn['dv']], unrecorded)
        if 'cases' in broke:
            cases = p.driver._build_runlist

            def runlist():
                for k, case in enumerate(cases()):
                    if broke.get('cases') == k and not phase[0]:
                        job.kern.count('fault.case list fails')
                        raise KeyError('sim-fault: the list of cases')
                    yield case
            p.driver._build_runlist = runlist
        if 'fork' in broke:
            mp.fork_fails = broke['fork']
        p.driver.add_recorder(keep)
        p.setup(check=False)
        wrap(p, lambda: p.root.comm._c().name if mpi else 'serial')
        res.raised[rank] = None
        try:
            for k in range(scn.get('runs', 1)):
                p.run()
        except Exception as e:
            if isinstance(e, Violation):
                raise
            res.raised[rank] = e
        if scn.get('broke') and mode == 'mp':
            res.left = [x.name for x in mp.procs if x.is_alive()]
        if res.raised[rank] is not None and not scn.get('rerun'):
            res.rows[rank] = keep.rows
            return
        if scn.get('rerun'):
            # the fault is gone: the same problem runs again
            if mpi:
                p.comm.barrier()
            if rank == 0:
                res.first = dict(execs=dict(res.execs), rows=list(keep.rows), responses=copy.deepcopy(
                    [(dict(r), s, m) for r, s, m in p.driver.get_responses()]))
                res.execs.clear()
                phase[0] = 1
            if mpi:
                p.comm.barrier()
            del keep.rows[:]
            p.run()
        res.responses[rank] = [(dict((a, np.array(b, copy=True)) for a, b in r), s, m)
                               for r, s, m in p.driver.get_responses()]
        if mode != 'mp':
            res.all[rank] = [(dict((a, np.array(b, copy=True)) for a, b in r), s, m)
                             for r, s, m in p.driver.get_all_responses()]
        res.rows[rank] = keep.rows
        p.cleanup()
    if mpi:
        job.user_hook = hook
        job.start(body)
        run.count('probe.' + ('load balanced' if mode == 'mpilb' else 'static split'))
        return res, job.kern
    # without MPI
    from openmdao.drivers import predeterminedruns_driver as pd
    kern = K.Kernel(ch, max_steps=60000, sticky=scn.get('sticky', 0))
    kern.globals_savers = K.std_savers()

    class J(object):
        pass
    job = J()
    job.kern = kern
    stall = scn.get('stall', 0)

    def plain_hook(comp, what):
        kern.event(what, comp.pathname)
        if stall and kern.choose(8, 'stall') >= 8 - stall:
            kern.count('fault.slow component')
            kern.sleep((0.01, 0.3, 5.0)[kern.choose(3, 'stall length')])
    job.hook = plain_hook

    def on_rpc(proc, what, *args):
        if what == 'note':
            note(proc.name, proc.name, args[0])
        elif what == 'hook':
            kern.event(proc.name, args[1], args[0])
            if stall and kern.choose(8, 'stall') >= 8 - stall:
                kern.count('fault.slow component')
                kern.sleep((0.01, 0.3, 5.0)[kern.choose(3, 'stall length')])
    mp = simmp.Multiprocessing(kern, on_rpc)
    saved = pd.multiprocessing
    pd.multiprocessing = mp
    M.HOOK[0] = hook
    try:
        with H.no_mpi():
            t = kern.spawn('main', lambda: body(0), {'rank': 0})
            v = kern.run()
    finally:
        M.HOOK[0] = None
        pd.multiprocessing = saved
        mp.cleanup()
    run.absorb(kern)
    run.count('queue messages', mp.msgs)
    run.count('worker processes', len(mp.procs))
    run.count('probe.' + ('worker processes' if mode == 'mp' else 'serial'))
    if mp.died:
        raise Violation('worker-died', '; '.join('%s: %s' % d for d in mp.died))
    if v is not None:
        raise v
    if t.exc is not None:
        raise Violation('exception', '%s: %s' % (type(t.exc).__name__, t.exc))
    return res, kern


def key(vals, dv):
    return tuple(tuple(np.round(np.ravel(vals[d['n']]), 10)) for d in dv)


def executed(scn, res):
    """[(where, k, values)] with the consistency of the ranks of a case checked."""
    out = []
    for (where, k), by in sorted(res.execs.items(), key=lambda t: (str(t[0][0]), t[0][1])):
        vals = {}
        for r in sorted(by, key=str):
            for n, v in by[r].items():
                if n in vals and not np.array_equal(vals[n], v):
                    raise Violation('split-case', 'case %d of %s: process %s has %s = %s, another one '
                                    '%s' % (k, where, r, n, v, vals[n]))
                vals[n] = v
        missing = res.ranks[where] - set(by)
        if missing:
            raise Violation('split-case', 'case %d of %s did not run on %s' % (k, where, sorted(missing)))
        out.append((where, k, vals))
    return out


def close_case(a, b, dv):
    return all(np.allclose(np.ravel(a[d['n']]), b[d['n']], rtol=1e-9, atol=1e-12) for d in dv)


def match(expected, got, what, dv):
    """Multiset equality up to round-off; returns for each got the index."""
    left = list(range(len(expected)))
    idx = []
    for g in got:
        for j in left:
            if close_case(g, expected[j], dv):
                left.remove(j)
                idx.append(j)
                break
        else:
            raise Violation('wrong-case', '%s: a case with %s is not (or no longer) on the list' % (
                what, {n: np.ravel(v).tolist() for n, v in g.items()}))
    if left:
        raise Violation('lost-case', '%s: %d of %d cases missing, e.g. %s' % (
            what, len(left), len(expected), {n: v.tolist() for n, v in expected[left[0]].items()}))
    return idx


def outputs(scn, names, cases):
    """Reference results for each case: [{root name: flat value}]."""
    ref = M.Ref(scn['spec'])
    out = []
    for c in cases:
        for n, v in c.items():
            ref.set(n, list(v))
        ref.run()
        out.append({names.at_root(a, b): np.array(ref.y[b]).ravel().copy() for a, b in scn['re']})
    return out


def by_var(scn, names, row):
    """Design values of a response row."""
    out = {}
    for d in scn['dv']:
        n = names.at_root(d['c'], d['n'])
        if n not in row:
            raise Violation('missing-value', 'a response has no %s: %s' % (n, sorted(row)))
        out[d['n']] = np.ravel(row[n])
    return out
