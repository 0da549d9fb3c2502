"""P02: analytic total derivatives do not depend on mode, grouping or processes."""
import numpy as np

from checks import p01
from sim import models as M, mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P02'
RULE = ('random models (incl. parallel groups, implicit components, cycles, units, source indices) on '
        '1-6 simulated ranks; totals of random responses w.r.t. random inputs (with index selection, '
        'parallel derivative groups, relevance reduction, nested linear solvers and preconditioners) in '
        'sequences of forward/reverse/auto computations between input changes, against the exact '
        'derivative of the reference model; non-trivial: >= 2 ranks and >= 2 computations')
QUICK = (2400, 55)
THOROUGH = (60000, 1500)
COMPONENTS = H.COMPONENTS
ASSUMPTIONS = H.ASSUMPTIONS
FAULTS = ('slow component',)
PROBES = ('parallel derivative group', 'relevance reduction', 'index selection', 'rev', 'fwd')
prepare = H.prepare


def consumed(spec):
    """Independent outputs somebody reads: [(cid, out)]."""
    out = []
    for c, _ in M.walk(spec):
        if spec['comps'][c]['kind'] != 'P':
            continue
        for k, o in enumerate(spec['comps'][c]['outs']):
            if any(i.get('src') == [c, k] for d in spec['comps'].values() for i in d['ins']):
                out.append((c, o))
    return out


def responses(spec):
    return [(c, o) for c, _ in M.walk(spec) if spec['comps'][c]['kind'] != 'P'
            for o in spec['comps'][c]['outs']]


def pick(rng, lst, withidx):
    k = rng.randint(1, min(3, len(lst)))
    out = []
    for c, o in rng.sample(lst, k):
        d = {'c': c, 'n': o['n'], 'idx': None}
        if withidx and isinstance(o['s'], list) and rng.random() < 0.5:
            n = M.size(o['s'])
            d['idx'] = sorted(rng.sample(range(n), rng.randint(1, n)))
        out.append(d)
    return out


def vsize(spec, d):
    if d['idx'] is not None:
        return len(d['idx'])
    for o in spec['comps'][d['c']]['outs']:
        if o['n'] == d['n']:
            return M.size(o['s'])


def gen(rng, i, tier):
    while True:
        spec = M.gen(rng, ncomp=rng.choice([3, 5, 8, 10]), ngroup=rng.choice([1, 2, 3, 4]), pg=0.6,
                     cyc=rng.choice([0, 0, 0, 0.4]), unconn=rng.choice([0.02, 0.1]),
                     implicit=rng.choice([0, 0.2, 0.4]))
        mx = H.maxprocs(spec)
        if consumed(spec) and responses(spec) and (mx > 1 or rng.random() < 0.05):
            break
    scn = H.knobs(rng, mx, always_par=rng.random() < 0.9)
    scn['spec'] = spec
    scn['cycnl'] = rng.choice(['gs', 'newton'])
    scn['nl'] = 'run'
    scn['ln'] = rng.choice(['petsc', 'petscpre', 'lngs', 'lngs', 'lngs'])
    scn['driver'] = rng.random() < 0.7
    withidx = scn['driver']
    scn['dv'] = pick(rng, consumed(spec), withidx)
    scn['re'] = pick(rng, responses(spec), withidx)
    scn['sub'] = {str(g['g']): rng.choice(['lngs', 'lngs', 'petsc']) for g in M.groups_of(spec)}
    scn['svrr'] = False
    scn['pgrp'] = []
    scn['mode'] = rng.choice(['fwd', 'rev'])
    if scn['driver'] and scn['ln'] == 'lngs':
        scn['svrr'] = rng.random() < 0.4
        if rng.random() < 0.6:
            vs = scn['dv'] if scn['mode'] == 'fwd' else scn['re']
            by = {}
            for v in vs:
                by.setdefault(vsize(spec, v), []).append(v['n'])
            scn['pgrp'] = [g for _, g in sorted(by.items()) if len(g) > 1]
    fixed = scn['svrr'] or scn['pgrp']
    ops = []
    indep = p01.indep_names(spec)
    for _ in range(rng.randint(1, 5)):
        if rng.random() < 0.3:
            ops.append(['set', {n: [round(rng.uniform(-2, 2), 3) for _ in range(sz)]
                                for n, sz in indep if rng.random() < 0.7}])
        else:
            ops.append([scn['mode'] if fixed else rng.choice(['fwd', 'rev', 'auto']),
                        rng.choice(['dict', 'array'])])
    scn['ops'] = ops
    return scn


def shrink(scn):
    for k in range(len(scn['ops'])):
        if len(scn['ops']) > 1:
            yield dict(scn, ops=scn['ops'][:k] + scn['ops'][k + 1:])
    for key in ('dv', 're'):
        for k in range(len(scn[key])):
            if len(scn[key]) > 1:
                gone = scn[key][k]['n']
                pg = [[n for n in g if n != gone] for g in scn['pgrp']]
                yield dict(scn, pgrp=[g for g in pg if len(g) > 1],
                           **{key: scn[key][:k] + scn[key][k + 1:]})
            if scn[key][k]['idx'] is not None and not scn['pgrp']:
                l = [dict(d) for d in scn[key]]
                l[k]['idx'] = None
                yield dict(scn, **{key: l})
    if scn['pgrp']:
        yield dict(scn, pgrp=[])
    if scn['svrr']:
        yield dict(scn, svrr=False)
    if scn['ln'] != 'lngs':
        yield dict(scn, ln='lngs')
    if any(v != 'lngs' for v in scn['sub'].values()):
        yield dict(scn, sub={k: 'lngs' for k in scn['sub']})
    for s in H.shrink_job(scn):
        yield s
    for s in M.shrinks(scn['spec']):
        if not valid(s, scn):
            continue
        ok = dict(p01.indep_names(s))
        ops = [[o[0], {n: v for n, v in o[1].items() if ok.get(n) == len(v)}] if o[0] == 'set' else o
               for o in scn['ops']]
        yield dict(scn, spec=s, nproc=min(scn['nproc'], H.maxprocs(s)), ops=ops)


def valid(s, scn):
    cons = [(c, o['n']) for c, o in consumed(s)]
    resp = [(c, o['n']) for c, o in responses(s)]
    return all((d['c'], d['n']) in cons for d in scn['dv']) and \
        all((d['c'], d['n']) in resp for d in scn['re'])


def setup_group(scn):
    from openmdao.api import LinearGaussSeidel
    from openmdao.solvers.petsc_ksp import PetscKSP
    base = p01.setup_group(dict(scn, ln='lngs'))

    def lngs(node):
        s = LinearGaussSeidel()
        if node['cyc']:
            s.options['maxiter'] = 200
            s.options['atol'] = 1e-13
            s.options['rtol'] = 1e-14
        return s

    def ksp():
        s = PetscKSP()
        s.options['atol'] = 1e-13
        s.options['rtol'] = 1e-13
        s.options['maxiter'] = 200
        return s

    def sg(g, node):
        base(g, node)
        kind = scn['ln'] if node['g'] == 0 else scn['sub'].get(str(node['g']), 'lngs')
        if kind == 'lngs':
            g.ln_solver = lngs(node)
            if node['g'] == 0:
                g.ln_solver.options['single_voi_relevance_reduction'] = bool(scn['svrr'])
                if scn['svrr'] or scn['pgrp']:
                    g.ln_solver.options['mode'] = scn['mode']
        else:
            g.ln_solver = ksp()
            if kind == 'petscpre':
                g.ln_solver.preconditioner = lngs({'cyc': False})
        if node['cyc'] and scn['cycnl'] == 'newton':
            g.nl_solver.ln_solver = ksp() if kind == 'lngs' else None
    return sg


def expected(spec, T, of, wrt):
    m = T[of['n'], wrt['n']]
    if of['idx'] is not None:
        m = m[of['idx'], :]
    if wrt['idx'] is not None:
        m = m[:, wrt['idx']]
    return m


def execute(scn, ch, run):
    spec = scn['spec']
    names = M.Names(spec)
    job = H.Job(scn, ch, run)
    dvn = [names.at_root(d['c'], d['n']) for d in scn['dv']]
    ren = [names.at_root(d['c'], d['n']) for d in scn['re']]
    at = dict((d['n'], names.at_root(d['c'], d['n'])) for d in scn['dv'] + scn['re'])
    ncmp = [0]

    def body(rank):
        from openmdao.api import Problem
        from openmdao.core.petsc_impl import PetscImpl
        ref = M.Ref(spec)
        p = Problem(root=M.build_group(spec, names, setup_group(scn)), impl=PetscImpl)
        if scn['driver']:
            for d, n in zip(scn['dv'], dvn):
                p.driver.add_desvar(n, indices=d['idx'])
            for k, (d, n) in enumerate(zip(scn['re'], ren)):
                if k == 0 and vsize(spec, d) == 1:
                    p.driver.add_objective(n, indices=d['idx'])
                else:
                    p.driver.add_constraint(n, upper=0.0, indices=d['idx'])
            for g in scn['pgrp']:
                p.driver.parallel_derivs([at[n] for n in g])
        p.setup(check=False)
        p.run()
        ref.run()
        T = ref.totals()
        for k, op in enumerate(scn['ops']):
            if op[0] == 'set':
                p01.set_indeps(p, spec, names, op[1], ref)
                p.run()
                ref.run()
                T = ref.totals()
                continue
            J = p.calc_gradient(list(dvn), list(ren), mode=op[0], return_format=op[1])
            r0 = 0
            for of, on in zip(scn['re'], ren):
                c0 = 0
                for wrt, wn in zip(scn['dv'], dvn):
                    e = expected(spec, T, of, wrt)
                    if op[1] == 'dict':
                        j = J[on][wn]
                    else:
                        j = J[r0:r0 + e.shape[0], c0:c0 + e.shape[1]]
                    ncmp[0] += 1
                    if j is None or np.shape(j) != e.shape or not H.close(
                            j, e, 1e-7, 1e-7 * max(1.0, np.abs(e).max())):
                        raise Violation('wrong-derivative', 'rank %d, computation %d (%s, %s): '
                                        'd %s / d %s is %s, should be %s' % (
                                            rank, k, op[0], op[1], on, wn, j, e.tolist()))
                    c0 += e.shape[1]
                r0 += e.shape[0]
    job.start(body)
    run.count('derivative blocks compared', ncmp[0])
    run.count('probe.parallel derivative group', len(scn['pgrp']))
    run.count('probe.relevance reduction', int(scn['svrr']))
    run.count('probe.index selection', sum(d['idx'] is not None for d in scn['dv'] + scn['re']))
    nc = 0
    for op in scn['ops']:
        if op[0] != 'set':
            run.count('probe.' + op[0])
            nc += 1
    run.key = p01.hash_key(scn)
    run.nontrivial = scn['nproc'] > 1 and nc > 1
    run.sample = {'nproc': scn['nproc'], 'order': [c for c, _ in M.walk(spec)], 'ops': scn['ops'],
                  'of': ren, 'wrt': dvn, 'root linear solver': scn['ln'], 'parallel_derivs': scn['pgrp']}
