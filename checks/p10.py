"""P10: seeded sampling depends on the seed alone."""
import random

import numpy as np

from checks import doe, p01, p08
from sim import models as M, mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P10'
RULE = ('random designs of experiments (uniform, latin hypercube, optimized latin hypercube; 1-9 samples, with '
        'and without a seed) in every execution mode, with the random generators of each process in a state '
        'of its own beforehand and random draws by the model between cases on some processes; the executed '
        'cases are compared with the list a fresh serial driver makes, the bounds and the strata; '
        'non-trivial: a draw happened during the run or >= 2 processes')
QUICK = (2200, 55)
THOROUGH = (60000, 1500)
COMPONENTS = doe.COMPONENTS
ASSUMPTIONS = doe.ASSUMPTIONS
FAULTS = ('slow component', 'queue delay', 'random draws between cases', 'other random state before the run')
PROBES = ('serial', 'static split', 'load balanced', 'worker processes', 'no seed', 'run twice', 'seed zero')
prepare = H.prepare


def gen(rng, i, tier):
    scn = doe.gen(rng, tier, kinds=('uniform', 'uniform', 'lhc', 'lhc', 'olhc'))
    scn['auto'] = False
    scn['seed'] = rng.choice([None, None, 0, 1, rng.randint(2, 10 ** 6), rng.randint(2, 10 ** 6)])
    scn['ambient'] = rng.randint(0, 1000)
    scn['spread'] = rng.random() < 0.7
    scn['draws'] = rng.choice([0, 0, 1, 3])
    scn['reseed'] = rng.random() < 0.2
    scn['runs'] = rng.choice([1, 1, 2])
    return scn


def shrink(scn):
    for k, v in (('spread', False), ('draws', 0), ('reseed', False), ('runs', 1)):
        if scn[k] != v:
            yield dict(scn, **{k: v})
    for s in doe.shrink(scn):
        yield s


def execute(scn, ch, run):
    names = M.Names(scn['spec'])
    dv = scn['dv']

    def before(rank):
        s = scn['ambient'] + (7 * rank if scn['spread'] else 0)
        random.seed(s)
        np.random.seed(s)
        run.count('fault.other random state before the run')
    k = [0]

    def draw(t):
        if not scn['draws']:
            return
        run.count('fault.random draws between cases')
        for _ in range(scn['draws'] + (t if isinstance(t, int) and scn['spread'] else 0)):
            random.random()
            np.random.uniform()
        if scn['reseed']:
            random.seed(5)
            np.random.seed(5)
    res, kern = doe.play(scn, ch, run, names, draw=draw, before=before)
    for r, e in sorted(res.raised.items()):
        if e is not None:
            raise Violation('exception', 'rank %s raised %s: %s' % (r, type(e).__name__, e))
    ex = doe.executed(scn, res)
    times = scn['runs']
    n = scn['n']
    got = [v for _, _, v in ex]
    if len(got) != n * times:
        raise Violation('case-count', '%d executions, %d samples asked for, %d runs' % (len(got), n, times))
    for j, v in enumerate(got):
        for d in dv:
            if d['n'] not in v:
                raise Violation('case-count', 'execution %d ran without %s' % (j, d['n']))
            x = pick(d, v[d['n']])
            lo, hi = np.array(d['lo']), np.array(d['hi'])
            tol = 1e-9 * (1 + np.abs(x).max())
            if (x < lo - tol).any() or (x > hi + tol).any():
                raise Violation('out-of-bounds', '%s = %s, bounds %s .. %s' % (d['n'], x, lo, hi))
    if scn['seed'] is not None:
        exp = doe.expected_cases(scn, names)
        if times == 1 and scn['mode'] == 'serial':
            for j, (g, e) in enumerate(zip(got, exp)):
                if not doe.close_case(g, e, dv):
                    raise Violation('other-cases', 'case %d is %s, the seed gives %s' % (
                        j, show(g), show(e)))
        try:
            doe.match(exp * times, got, 'executed', dv)
        except Violation as v:
            raise Violation('other-cases', 'the seed does not fix the cases: %s' % v)
        judged = [exp]

    else:
        judged = [got] if times == 1 else []
        if times == 2 and not scn['reseed']:
            for a in range(len(got)):
                for b in range(a):
                    if doe.close_case(got[a], got[b], dv) and n > 0:
                        raise Violation('repeated', 'without a seed two samples are equal: %s' % show(got[a]))
    for cases in judged:
        for a in range(len(cases)):
            for b in range(a):
                if doe.close_case(cases[a], cases[b], dv):
                    raise Violation('repeated', 'two samples are equal: %s' % show(cases[a]))
        if scn['kind'] in ('lhc', 'olhc'):
            strata(scn, cases)
    run.count('cases', len(got))
    run.count('probe.no seed', int(scn['seed'] is None))
    run.count('probe.seed zero', int(scn['seed'] == 0))
    run.count('probe.run twice', int(times == 2))
    run.key = p01.hash_key(scn)
    run.nontrivial = bool(scn['draws']) or scn['mode'] != 'serial'
    run.sample = {'mode': scn['mode'], 'design': scn['kind'], 'seed': scn['seed'], 'cases': n,
                  'draws': scn['draws'], 'nproc': scn['nproc'], 'par': scn['npar']}


def show(v):
    return {n: np.round(x, 6).tolist() for n, x in v.items()}


def pick(d, v):
    v = np.ravel(v)
    return v[d['ix']] if d.get('ix') else v


def strata(scn, cases):
    n = scn['n']
    for d in scn['dv']:
        m = doe.nsel(d)
        lo = np.array(d['lo']) * np.ones(m)
        hi = np.array(d['hi']) * np.ones(m)
        for k in range(m):
            x = np.array([pick(d, c[d['n']])[k] for c in cases])
            at = np.floor((x - lo[k]) / (hi[k] - lo[k]) * n).astype(int)
            if sorted(at.tolist()) != list(range(n)):
                raise Violation('strata', '%s[%d]: the samples %s of %s..%s lie in strata %s' % (
                    d['n'], k, np.round(x, 4).tolist(), lo[k], hi[k], at.tolist()))
