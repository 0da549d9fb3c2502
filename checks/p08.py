"""P08: a design of experiments runs every case exactly once."""
import numpy as np

from checks import doe, p01
from sim import models as M, mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P08'
RULE = ('random models and case lists (explicit, full factorial, seeded random designs; 0-9 cases) run '
        'serially, divided over 2-9 simulated ranks, handed out by a master rank, or by 2-4 forked worker '
        'processes behind simulated queues; any message and queue delivery order, slow components; every '
        'execution of the model and every recorded response is compared with the case list and the '
        'reference model; non-trivial: >= 2 processes and >= 2 cases')
QUICK = (1800, 55)
THOROUGH = (60000, 1500)
COMPONENTS = doe.COMPONENTS
ASSUMPTIONS = doe.ASSUMPTIONS
FAULTS = ('slow component', 'queue delay')
PROBES = ('serial', 'static split', 'load balanced', 'worker processes', 'fewer cases than workers',
          'several processes per case', 'workers compete for a case')
prepare = H.prepare


def gen(rng, i, tier):
    return doe.gen(rng, tier)


shrink = doe.shrink


def execute(scn, ch, run):
    names = M.Names(scn['spec'])
    exp = doe.expected_cases(scn, names)
    outs = doe.outputs(scn, names, exp)
    res, kern = doe.play(scn, ch, run, names)
    for r, e in sorted(res.raised.items()):
        if e is not None:
            raise Violation('exception', 'rank %s raised %s: %s' % (r, type(e).__name__, e))
    check(scn, names, exp, outs, res, run)
    n = len(exp)
    run.count('cases', n)
    run.count('probe.fewer cases than workers', int(n < scn['npar'] and scn['mode'] != 'serial'))
    run.count('probe.several processes per case', int(scn['mode'].startswith('mpi') and
                                                      scn['nproc'] > scn['npar']))
    run.key = p01.hash_key(scn)
    run.nontrivial = n > 1 and scn['mode'] != 'serial'
    run.sample = {'mode': scn['mode'], 'design': scn['kind'], 'cases': n, 'par': scn['npar'],
                  'nproc': scn['nproc'], 'steps': kern.steps}


def check(scn, names, exp, outs, res, run):
    dv = scn['dv']
    ex = doe.executed(scn, res)
    times = scn.get('runs', 1)
    doe.match(exp * times, [v for _, _, v in ex], 'executed', dv)
    respond(scn, names, exp, outs, res.responses.get(0, []), 'responses')
    for r, rows in sorted(res.responses.items()):
        if r != 0 and rows:
            respond(scn, names, exp, outs, rows, 'responses on rank %s' % r)
    for r, rows in sorted(res.all.items()):
        respond(scn, names, exp, outs, rows, 'all responses on rank %s' % r)
    rows = [(v, s, m) for v, s, m, _ in res.rows.get(0, [])]
    respond(scn, names, exp * times, outs * times, rows, 'recorder')
    run.count('responses compared', len(exp) * (1 + len(res.all)) + len(rows))


def respond(scn, names, exp, outs, rows, what):
    idx = doe.match(exp, [doe.by_var(scn, names, r) for r, _, _ in rows], what, scn['dv'])
    for j, (row, success, msg) in zip(idx, rows):
        if not success:
            raise Violation('failed-case', '%s: a case is marked as failed: %s' % (what, msg[-300:]))
        for n, v in outs[j].items():
            if n not in row:
                raise Violation('missing-value', '%s: a case has no %s' % (what, n))
            if not H.close(row[n], v, 1e-8, 1e-8):
                raise Violation('wrong-pairing', '%s: case %s has %s = %s, the model gives %s' % (
                    what, {k: x.tolist() for k, x in exp[j].items()}, n, np.ravel(row[n]).tolist(), v.tolist()))
