"""P01: a parallel run gives the answer of a serial run."""
import numpy as np

from sim import models as M, mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P01'
RULE = ('random models (groups, parallel groups, promoted and explicit connections, units, source '
        'indices, implicit and expression components, cycles) on 1-6 simulated MPI ranks under '
        'random schedules; non-trivial: at least 2 ranks, a parallel group and a repeated run')
QUICK = (2400, 55)
THOROUGH = (60000, 1500)
COMPONENTS = H.COMPONENTS
ASSUMPTIONS = H.ASSUMPTIONS
PROBES = ('send waited for its receiver', 'left a collective early', 'any-source race')
FAULTS = ('slow component',)
prepare = H.prepare


def gen(rng, i, tier):
    while True:
        spec = M.gen(rng, ncomp=rng.choice([3, 5, 8, 10]), ngroup=rng.choice([1, 2, 3, 4]), pg=0.7,
                     cyc=rng.choice([0, 0, 0.5]), unconn=rng.choice([0.05, 0.2]))
        mx = H.maxprocs(spec)
        if mx > 1 or rng.random() < 0.05:
            break
    scn = H.knobs(rng, mx, always_par=True)
    scn['spec'] = spec
    scn['ln'] = rng.choice(['petsc', 'lngs', 'lngs'])
    scn['nl'] = rng.choice(['run', 'run', 'gs'])
    scn['cycnl'] = rng.choice(['gs', 'gs', 'aitken', 'newton'])
    names = indep_names(spec)
    scn['reps'] = [{n: [round(rng.uniform(-2, 2), 3) for _ in range(sz)]
                    for n, sz in names if rng.random() < 0.7} for _ in range(rng.randrange(0, 3))]
    scn['resetup'] = rng.random() < 0.15
    return scn


def indep_names(spec):
    return [(o['n'], M.size(o['s'])) for c, _ in M.walk(spec) if spec['comps'][c]['kind'] == 'P'
            for o in spec['comps'][c]['outs']]


def shrink(scn):
    if scn['reps']:
        yield dict(scn, reps=scn['reps'][:-1])
        yield dict(scn, reps=scn['reps'][1:])
    if scn.get('resetup'):
        yield dict(scn, resetup=False)
    for s in H.shrink_job(scn):
        yield s
    for s in M.shrinks(scn['spec']):
        ok = set(n for n, _ in indep_names(s))
        sizes = dict(indep_names(s))
        mx = H.maxprocs(s)
        yield dict(scn, spec=s, nproc=min(scn['nproc'], mx),
                   reps=[{n: v for n, v in r.items() if n in ok and sizes[n] == len(v)}
                         for r in scn['reps']])


def setup_group(scn):
    from openmdao.api import NLGaussSeidel, LinearGaussSeidel, Newton
    from openmdao.solvers.petsc_ksp import PetscKSP

    def sg(g, node):
        if node['cyc'] and scn['cycnl'] == 'newton':
            g.nl_solver = Newton()
            g.nl_solver.options['atol'] = 1e-11
            g.nl_solver.options['rtol'] = 1e-14
            g.nl_solver.options['maxiter'] = 20
        elif node['cyc']:
            g.nl_solver = NLGaussSeidel()
            g.nl_solver.options['atol'] = 1e-12
            g.nl_solver.options['rtol'] = 1e-14
            g.nl_solver.options['maxiter'] = 200
            g.nl_solver.options['use_aitken'] = scn['cycnl'] == 'aitken'
        elif scn['nl'] == 'gs' and node['g'] == 0:
            g.nl_solver = NLGaussSeidel()
            g.nl_solver.options['atol'] = 1e-12
            g.nl_solver.options['maxiter'] = 5
        if (scn['ln'] == 'petsc' and node['g'] == 0) or (
                node['cyc'] and scn['cycnl'] == 'newton'):
            g.ln_solver = PetscKSP()
        else:
            g.ln_solver = LinearGaussSeidel()
            if node['cyc']:
                g.ln_solver.options['maxiter'] = 100
    return sg


def iterates(spec):
    return any(g['cyc'] for g in M.groups_of(spec))


def check_values(p, spec, names, ref, rank, tol, what):
    """Every variable this rank owns or receives equals the reference."""
    n = 0
    for c, _ in M.walk(spec):
        comp = sub(p.root, names, c)
        if not comp.is_active():
            continue
        for o in spec['comps'][c]['outs']:
            v = comp.unknowns[o['n']]
            n += 1
            if not H.close(v, ref.y[o['n']], tol, tol):
                raise Violation('wrong-value', '%s rank %d: output %s.%s is %s, one process gives %s' % (
                    what, rank, comp.pathname, o['n'], np.ravel(v), ref.y[o['n']]))
            w = p[names.at_root(c, o['n'])]
            if not H.close(w, ref.y[o['n']], tol, tol):
                raise Violation('wrong-value', '%s rank %d: problem value of %s is %s, one process '
                                'gives %s' % (what, rank, names.at_root(c, o['n']), np.ravel(w),
                                              ref.y[o['n']]))
        if spec['comps'][c]['kind'] == 'P':
            continue
        for i, e in zip(spec['comps'][c]['ins'], ref.inputs(c)):
            v = comp.params[i['n']]
            n += 1
            if not H.close(v, e, tol, tol * max(1.0, np.abs(e).max() if e.size else 1.0)):
                raise Violation('wrong-value', '%s rank %d: input %s.%s is %s, one process gives %s' % (
                    what, rank, comp.pathname, i['n'], np.ravel(v), e))
    return n


def sub(root, names, c):
    g = root
    for x in names.paths[c][1:]:
        g = g._subsystems[names.gname(x)]
    return g._subsystems[c]


def set_indeps(p, spec, names, vals, ref=None):
    """Set inputs on every rank that holds them."""
    for c, _ in M.walk(spec):
        if spec['comps'][c]['kind'] != 'P':
            continue
        for o in spec['comps'][c]['outs']:
            if o['n'] not in vals:
                continue
            if ref is not None:
                ref.set(o['n'], vals[o['n']])
            if sub(p.root, names, c).is_active():
                v = M.classes()['val'](o['s'], vals[o['n']])
                p[names.at_root(c, o['n'])] = v


def execute(scn, ch, run):
    spec = scn['spec']
    names = M.Names(spec)
    job = H.Job(scn, ch, run)
    tol = 2e-8 if iterates(spec) else 1e-10
    refs = []
    ref = M.Ref(spec)
    ref.run()
    refs.append(dict(ref.y))
    nck = [0]

    def body(rank):
        from openmdao.api import Problem
        from openmdao.core.petsc_impl import PetscImpl
        ref = M.Ref(spec)
        p = Problem(root=M.build_group(spec, names, setup_group(scn)), impl=PetscImpl)
        p.setup(check=False)
        p.run()
        ref.run()
        nck[0] += check_values(p, spec, names, ref, rank, tol, 'first run')
        if scn['resetup']:
            p.setup(check=False)
            p.run()
            nck[0] += check_values(p, spec, names, ref, rank, tol, 'after a second setup')
        for k, r in enumerate(scn['reps']):
            set_indeps(p, spec, names, r, ref)
            p.run()
            ref.run()
            nck[0] += check_values(p, spec, names, ref, rank, tol, 'repetition %d' % (k + 1))
        p.cleanup()
    job.start(body)
    if nck[0] == 0:
        raise RuntimeError('nothing compared')
    run.count('values compared', nck[0])
    pgs = sum(g['kind'] == 'PG' for g in M.groups_of(spec))
    run.key = hash_key(scn)
    run.nontrivial = scn['nproc'] > 1 and pgs > 0 and bool(scn['reps'])
    run.sample = {'nproc': scn['nproc'], 'order': [c for c, _ in M.walk(spec)], 'parallel groups': pgs,
                  'repetitions': len(scn['reps']), 'send mode': scn['send'], 'steps': job.kern.steps}


def hash_key(scn):
    import hashlib
    import json
    return hashlib.md5(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:12]
