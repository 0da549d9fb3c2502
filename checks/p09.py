"""P09: a failing case does not disturb the other cases."""
import random

import numpy as np

from checks import doe, p01, p08
from sim import models as M, mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P09'
RULE = ('designs of experiments as in P08 in which random cases raise an AnalysisError or another '
        'exception, before the model runs or inside a component, on whichever process gets them; in some '
        'runs the same problem is run again without failures afterwards; non-trivial: a case failed and '
        'there was another case')
QUICK = (1800, 55)
THOROUGH = (60000, 1500)
COMPONENTS = doe.COMPONENTS
ASSUMPTIONS = doe.ASSUMPTIONS + ['a case that runs on several processes fails on all of them, or in one '
                                 'branch of a parallel group that no other process waits for']
FAULTS = ('slow component', 'queue delay', 'soft failure of a case', 'hard failure of a case',
          'hard2 failure of a case', 'recorder fails', 'case list fails', 'worker process does not start')
PROBES = ('serial', 'static split', 'load balanced', 'worker processes', 'run again', 'every case failed',
          'stopped early')
prepare = H.prepare


def gen(rng, i, tier):
    branch = rng.random() < 0.12
    for _ in range(40):
        scn = doe.gen(rng, tier, kinds=('case', 'case', 'ff', 'uniform'),
                      modes=('mpi', 'mpilb') if branch else doe.MODES)
        if scn['n'] > 0 and (not branch or scn['nproc'] > scn['npar'] and tails(scn['spec'])):
            break
    else:
        scn['n'] = 1
    scn['runs'] = 1
    spec = scn['spec']
    serial = [c for c, path in M.walk(spec) if not any(g['kind'] == 'PG' for g in path)
              and spec['comps'][c]['kind'] not in 'PX']
    hard = rng.random() < 0.4
    frac = rng.choice([0.2, 0.5, 1.0])
    scn['fails'] = {}
    for k in range(64):
        if rng.random() < frac:
            kind = 'soft'
            if hard and rng.random() < 0.4:
                kind = rng.choice(['hard', 'hard', 'hard2'])
            scn['fails'][str(k)] = [kind, rng.choice(serial + [None])]
    tail = tails(spec)
    if scn['mode'].startswith('mpi') and tail and rng.random() < 0.6:
        # only one of the processes that run the case fails
        for k in scn['fails']:
            if rng.random() < 0.7:
                scn['fails'][k][1] = rng.choice(tail)
                if scn['npar'] == 1:
                    scn['fails'][k][0] = 'soft'
    scn['rerun'] = rng.random() < 0.3
    if scn['mode'] in ('serial', 'mp') and rng.random() < 0.3:
        # something other than a case fails
        k = rng.choice(['record', 'record', 'cases', 'fork'] if scn['mode'] == 'mp' else ['record', 'cases'])
        scn['broke'] = [k, rng.randrange(scn['npar'] if k == 'fork' else max(1, scn['n']))]
        scn['fails'] = {a: ['soft', b[1]] for a, b in scn['fails'].items()}
        scn['rerun'] = True
    return scn


def tails(spec):
    """Components in a branch each of a parallel group that comes last: no other process waits for them."""
    last = spec['tree']['subs'][-1]
    if not isinstance(last, dict) or last['kind'] != 'PG':
        return []
    # (OpenMDAO may order what the group does not depend on behind it)
    need = set(c for c, path in M.walk(spec) if last in path)
    while True:
        more = set(i['src'][0] for c in need for i in spec['comps'][c]['ins'] if i.get('src')) - need
        if not more:
            break
        need |= more
    for s in spec['tree']['subs'][:-1]:
        if isinstance(s, dict) or spec['comps'][s]['kind'] != 'P' and s not in need:
            return []
    return [c for c in last['subs'] if not isinstance(c, dict) and spec['comps'][c]['kind'] not in 'PX']


def shrink(scn):
    if scn.get('broke') and scn['broke'][1]:
        yield dict(scn, broke=[scn['broke'][0], scn['broke'][1] - 1])
    if scn['rerun'] and not scn.get('broke'):
        yield dict(scn, rerun=False)
    keep = {k: v for k, v in scn['fails'].items() if int(k) < 16}
    if len(keep) < len(scn['fails']):
        yield dict(scn, fails=keep)
    for k in sorted(scn['fails']):
        yield dict(scn, fails={a: b for a, b in scn['fails'].items() if a != k})
        if scn['fails'][k][1] is not None:
            yield dict(scn, fails=dict(scn['fails'], **{k: [scn['fails'][k][0], None]}))
    for s in doe.shrink(scn):
        cs = s['spec']['comps']
        yield dict(s, runs=1, fails={k: [a, b if b in cs and cs[b]['kind'] not in 'PX' else None]
                                     for k, (a, b) in s['fails'].items()})


def execute(scn, ch, run):
    names = M.Names(scn['spec'])
    dv = scn['dv']
    exp = doe.expected_cases(scn, names)
    outs = doe.outputs(scn, names, exp)

    def kind(vals):
        for j, e in enumerate(exp):
            if all(n in vals and np.allclose(vals[n], e[n], rtol=1e-9, atol=1e-12) for n in vals):
                f = scn['fails'].get(str(j))
                return tuple(f) if f else None
        return None

    def fails(vals):
        # a rank that does not hold every design variable must agree with the others
        if len(vals) < len(dv):
            return None
        return kind(vals)
    spec = scn['spec']
    inpg = [d for d in dv if any(g['kind'] == 'PG' for g in dict(M.walk(spec))[d['c']])]
    if inpg and scn['mode'].startswith('mpi'):
        fails = None
    kinds = [kind(e) if fails is not None else None for e in exp]
    res, kern = doe.play(scn, ch, run, names, fails=fails)
    hard = [j for j, k in enumerate(kinds) if k and k[0] != 'soft']
    soft = [j for j, k in enumerate(kinds) if k and k[0] == 'soft']
    if scn['rerun']:
        # the second run had no failures
        for r, e in sorted(res.raised.items()):
            if r not in res.rows:
                raise Violation('exception', 'rank %s: %r' % (r, e))
        p08.check(scn, names, exp, outs, res, run)
        run.count('probe.run again', int(bool(hard or soft)))
        ex = doe.executed(scn, type('R', (), dict(execs=res.first['execs'], ranks=res.ranks)))
        rows, resp = res.first['rows'], res.first['responses']
    else:
        ex = doe.executed(scn, res)
        rows = res.rows.get(0, [])
        resp = res.responses.get(0)
    rows = [(v, s, m) for v, s, m, _ in rows]
    if scn.get('broke'):
        broken(scn, names, exp, outs, kinds, rows, ex, res, run)
    elif not hard:
        for r, e in sorted(res.raised.items()):
            if e is not None:
                raise Violation('exception', 'rank %s raised %s: %s' % (r, type(e).__name__, e))
        doe.match(exp, [v for _, _, v in ex], 'executed', dv)
        judge(scn, names, exp, outs, kinds, rows, range(len(exp)), 'recorder')
        if resp is not None:
            judge(scn, names, exp, outs, kinds, resp, range(len(exp)), 'responses')
    else:
        raises = scn['mode'] in ('serial', 'mpi')
        bad = [r for r, e in sorted(res.raised.items()) if (e is None) == raises]
        if bad:
            raise Violation('not-raised' if raises else 'exception', 'a case failed with an error: rank %s '
                            '%s (%r)' % (bad[0], 'got no exception' if raises else 'raised',
                                         res.raised[bad[0]]))
        if raises and not any(isinstance(e, (ValueError, UnicodeDecodeError)) for e in res.raised.values()):
            raise Violation('error-lost', 'the error of the case did not reach any caller: %r' % (
                res.raised,))
        idx = part(exp, [v for _, _, v in ex], 'executed', dv)
        done = [j for j in idx if j not in hard]
        if not any(j in hard for j in idx):
            raise Violation('not-failed', 'no failing case ran')
        if scn['mode'] == 'serial':
            if idx != list(range(hard[0] + 1)):
                raise Violation('not-stopped', 'cases %s ran, case %d failed' % (idx, hard[0]))
        run.count('probe.stopped early', int(len(idx) < len(exp)))
        got = judge(scn, names, exp, outs, kinds, rows, None, 'recorder')
        if resp is not None:
            got2 = judge(scn, names, exp, outs, kinds, resp, None, 'responses')
        same_step = scn['mode'] == 'mpi'
        if not set(got) <= set(done) or len(set(got)) < len(got):
            raise Violation('wrong-case', 'recorded %s, ran well %s' % (got, done))
        # cases finished together with the failing one are not recorded when the run is split statically
        if not same_step and sorted(got) != sorted(done):
            raise Violation('lost-case', 'recorded %s, ran to the end %s' % (sorted(got), sorted(done)))
    run.count('cases', len(exp))
    run.count('probe.every case failed', int(bool(exp) and len(hard) + len(soft) == len(exp)))
    run.key = p01.hash_key(scn)
    run.nontrivial = len(exp) > 1 and bool(hard or soft)
    run.sample = {'mode': scn['mode'], 'cases': len(exp), 'soft': soft, 'hard': hard,
                  'par': scn['npar'], 'nproc': scn['nproc']}


def broken(scn, names, exp, outs, kinds, rows, ex, res, run):
    what, k = scn['broke']
    e = res.raised[0]
    if e is None:
        if what != 'fork' and k < len(exp):
            raise Violation('error-lost', 'no exception reached the caller (%s %d)' % (what, k))
        return
    if 'sim-fault' not in str(e):
        raise Violation('exception', '%r instead of the failure (%s %d)' % (e, what, k))
    if res.left:
        raise Violation('worker-left', 'the run failed, worker processes are left: %s' % res.left)
    part(exp, [v for _, _, v in ex], 'executed', scn['dv'])
    idx = judge(scn, names, exp, outs, kinds, rows, None, 'recorder')
    if len(set(idx)) != len(idx):
        raise Violation('wrong-case', 'recorded %s' % idx)
    if what == 'record' and len(idx) != k or what == 'fork' and idx:
        raise Violation('lost-case', 'recorded %s before the failure (%s %d)' % (idx, what, k))
    if what == 'cases' and len(idx) > k:
        raise Violation('wrong-case', 'recorded %s, the list of cases ended with %d' % (idx, k))
    if scn['mode'] == 'serial' and idx != list(range(k)):
        raise Violation('lost-case', 'recorded %s before the failure (%s %d)' % (idx, what, k))


def part(exp, got, what, dv):
    left = list(range(len(exp)))
    idx = []
    for g in got:
        for j in left:
            if doe.close_case(g, exp[j], dv):
                left.remove(j)
                idx.append(j)
                break
        else:
            raise Violation('wrong-case', '%s: a case with %s is not (or no longer) on the list' % (
                what, {n: np.ravel(v).tolist() for n, v in g.items()}))
    return idx


def judge(scn, names, exp, outs, kinds, rows, need, what):
    idx = part(exp, [doe.by_var(scn, names, r) for r, _, _ in rows], what, scn['dv'])
    if need is not None and sorted(idx) != list(need):
        raise Violation('lost-case', '%s: cases %s of %d are there' % (what, sorted(idx), len(exp)))
    for j, (row, success, msg) in zip(idx, rows):
        if kinds[j] is not None:
            if success:
                raise Violation('not-marked', '%s: case %d failed but is marked as successful' % (what, j))
            if 'cannot be evaluated here' not in msg:
                raise Violation('not-marked', '%s: case %d failed, its message is %r' % (what, j, msg[-200:]))
            continue
        if not success:
            raise Violation('failed-case', '%s: case %d is marked as failed: %r' % (what, j, msg[-300:]))
        for n, v in outs[j].items():
            if n not in row or not H.close(row[n], v, 1e-8, 1e-8):
                raise Violation('wrong-value', '%s: case %d has %s = %s, the model gives %s' % (
                    what, j, n, row.get(n), v.tolist()))
    return idx
