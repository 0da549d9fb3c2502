"""P03: numerical derivatives do not depend on parallelism and match the model."""
import copy
import json
import os

import numpy as np

from checks import p01, p02
from sim import models as M, mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P03'
RULE = ('random models whose totals, one group or single components are differentiated numerically '
        '(forward, backward, central, complex step; absolute and relative steps of several sizes, set on '
        'systems or on variables), perturbations divided over 1-6 simulated ranks by ParallelFDGroup with '
        'random colour counts; compared with the same formula on the reference model, with a '
        'one-process run and with the exact derivative; non-trivial: perturbations divided over >= 2 '
        'colours or a model running on >= 2 ranks')
QUICK = (2000, 55)
THOROUGH = (60000, 1500)
COMPONENTS = H.COMPONENTS
ASSUMPTIONS = H.ASSUMPTIONS
FAULTS = ('slow component',)
PROBES = ('parallel fd', 'total fd', 'group fd', 'component fd', 'complex step')
prepare = H.prepare


DIRECTED = json.load(open(os.path.join(os.path.dirname(__file__), 'p03_directed.json')))


def gen(rng, i, tier):
    kind = rng.choice(['root', 'root', 'root', 'sub', 'sub', 'comp'])
    while True:
        spec = M.gen(rng, ncomp=rng.choice([3, 5, 7]), ngroup=rng.choice([1, 2, 3]),
                     pg=rng.choice([0.2, 0.6]), cyc=0, unconn=0.1, implicit=rng.choice([0, 0.2]),
                     units=rng.choice([0.25, 0.6]), vec=rng.choice([0.7, 0.7, 0.3]),
                     deepindep=0.0, fdcomp=0.6 if kind == 'comp' else 0.0)
        spec['tree']['kind'] = 'G'
        resp = responses(spec)
        if not resp:
            continue
        if kind == 'sub':
            # a group with remote variables can't be finite differenced: an error says so
            subs = [s for s in spec['tree']['subs'] if isinstance(s, dict) and s['kind'] == 'G'
                    and not any(g['kind'] == 'PG' for g in M.groups_of({'tree': s}))]
            if not subs:
                continue
            fdg = rng.choice(subs)['g']
        else:
            fdg = 0 if kind == 'root' else None
        dvs = wrt(spec, fdg)
        if dvs:
            break
    scn = {'kind': kind, 'spec': spec, 'fdg': fdg}
    npar = 0
    if kind != 'comp' and rng.random() < (0.7 if kind == 'root' else 0.8):
        npar = rng.randint(1, 6)
    typ = 'fd'
    if kind == 'root' and npar == 0 and rng.random() < 0.7:
        typ = 'cs'
    scn['npar'] = npar
    scn['typ'] = typ
    scn['form'] = rng.choice(['forward', 'backward', 'central'])
    scn['step'] = rng.choice([1e-6, 1e-6, 1e-4, 1e-3, 1e-2])
    scn['calc'] = rng.choice(['absolute', 'relative'])
    if rng.random() < 0.3:
        over(rng, spec)
    mx = maxp(scn)
    lo = max(1, npar) if kind != 'comp' else 1
    scn.update(H.knobs(rng, mx, always_par=True))
    scn['nproc'] = rng.randint(lo, max(lo, min(6, mx)))
    scn['dv'] = p02.pick(rng, dvs, True)
    scn['re'] = p02.pick(rng, resp, True)
    scn['driver'] = True
    scn['ln'] = rng.choice(['lngs', 'lngs', 'petsc'])
    scn['mode'] = rng.choice(['fwd', 'rev'])
    scn['cycnl'] = 'gs'
    scn['nl'] = 'run'
    scn['sub'] = {}
    scn['svrr'], scn['pgrp'] = False, []
    ops = []
    indep = p01.indep_names(spec)
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.35:
            ops.append(['set', {n: [round(rng.uniform(-2, 2), 3) for _ in range(sz)]
                                for n, sz in indep if rng.random() < 0.7}])
        else:
            ops.append([rng.choice(['fwd', 'rev', 'auto', 'fd']) if kind != 'root'
                        else rng.choice(['auto', 'fd', 'rev', 'fwd']), rng.choice(['dict', 'array'])])
    scn['ops'] = ops
    return scn


def wrt(spec, fdg):
    """Variables to differentiate by (not from within a finite differenced group: P03-K1)."""
    inside = [c for c, path in M.walk(spec) if fdg and any(g['g'] == fdg for g in path)]
    return [(c, o) for c, o in p02.consumed(spec) if c not in inside]


def over(rng, spec):
    """Per-variable FD settings, the same for all readers of one source."""
    by = {}
    for c, _ in M.walk(spec):
        for x in spec['comps'][c]['ins']:
            if x.get('src') is None or spec['comps'][c]['kind'] == 'X':
                continue
            by.setdefault(tuple(x['src']), []).append(x)
    for key in sorted(by):
        if any(x.get('src') and tuple(x['src']) == key for c in spec['comps'].values()
               if c['kind'] == 'X' for x in c['ins']):
            continue
        if rng.random() < 0.5:
            s = {'step_size': rng.choice([1e-5, 1e-4, 2e-3])}
            if rng.random() < 0.5:
                s['form'] = rng.choice(['forward', 'backward', 'central'])
            if rng.random() < 0.5:
                s['step_calc'] = rng.choice(['absolute', 'relative'])
            for x in by[key]:
                x.update(s)


def maxp(scn):
    """Most processes the model can use."""
    def rec(node):
        if not isinstance(node, dict):
            return 1
        ms = [rec(s) for s in node['subs']] or [1]
        m = sum(ms) if node['kind'] == 'PG' else max(ms)
        if node['g'] == scn['fdg'] and scn['npar']:
            m *= scn['npar']
        return m
    return rec(scn['spec']['tree'])


def responses(spec):
    """Outputs that are on every process of the model."""
    out = []
    for c, path in M.walk(spec):
        if spec['comps'][c]['kind'] != 'P' and not any(g['kind'] == 'PG' for g in path):
            out.extend((c, o) for o in spec['comps'][c]['outs'])
    return out


def shrink(scn):
    for s in p02.shrink(scn):
        if s['kind'] == 'sub' and not any(g['g'] == s['fdg'] for g in M.groups_of(s['spec'])):
            continue
        r = responses(s['spec'])
        if not all(any(c == d['c'] and o['n'] == d['n'] for c, o in r) for d in s['re']):
            continue
        if s['nproc'] < max(1, s['npar']):
            continue
        if s['nproc'] > maxp(s):
            s = dict(s, nproc=maxp(s))
        yield s
    if scn['npar'] > 1:
        yield dict(scn, npar=scn['npar'] - 1, nproc=min(scn['nproc'], maxp(dict(scn, npar=scn['npar'] - 1))))
    for k, v in (('form', 'forward'), ('calc', 'absolute'), ('step', 1e-6)):
        if scn[k] != v:
            yield dict(scn, **{k: v})
    s = copy.deepcopy(scn['spec'])
    hit = False
    for c in s['comps'].values():
        for x in c['ins']:
            for k in ('step_size', 'form', 'step_calc'):
                if x.pop(k, None) is not None:
                    hit = True
    if hit:
        yield dict(scn, spec=s)


def build(scn, names):
    from openmdao.api import ParallelFDGroup, Group
    base = p02.setup_group(scn)

    def mg(node):
        if node['g'] == scn['fdg'] and scn['npar']:
            return ParallelFDGroup(scn['npar'])

    def sg(g, node):
        base(g, node)
        if node['g'] == scn['fdg']:
            # a string that is equal but not the same object as the literal
            g.deriv_options['type'] = ''.join(list(scn['typ']))
            g.deriv_options['form'] = scn['form']
            g.deriv_options['step_size'] = scn['step']
            g.deriv_options['step_calc'] = scn['calc']
    return M.build_group(scn['spec'], names, sg, make_group=mg)


def settings(scn, spec, dvname):
    st = {'step_size': scn['step'], 'form': scn['form'], 'step_calc': scn['calc']}
    for c, _ in M.walk(spec):
        for x in spec['comps'][c]['ins']:
            if x.get('src') and spec['comps'][x['src'][0]]['outs'][x['src'][1]]['n'] == dvname:
                for k in st:
                    if k in x:
                        st[k] = x[k]
    return st


def ref_fd(scn, ref, dv, re_):
    """The documented formula, on the reference model."""
    st = settings(scn, ref.spec, dv['n'])
    x0 = ref.x[dv['n']].copy()
    y0 = ref.y
    cols = []
    for k in (dv['idx'] if dv['idx'] is not None else range(len(x0))):
        h = st['step_size']
        if st['step_calc'] == 'relative':
            h = max(x0[k] * h, h)

        def f(d):
            x = x0.copy()
            x[k] += d
            ref.x[dv['n']] = x
            y = dict(ref.run())
            v = y[re_['n']]
            return v if re_['idx'] is None else v[re_['idx']]
        b = y0[re_['n']] if re_['idx'] is None else y0[re_['n']][re_['idx']]
        if st['form'] == 'forward':
            cols.append((f(h) - b) / h)
        elif st['form'] == 'backward':
            cols.append((b - f(-h)) / h)
        else:
            cols.append((f(h) - f(-h)) / (2 * h))
    ref.x[dv['n']] = x0
    ref.run()
    return np.array(cols).T, st


def one_job(scn, ch, run, nproc, ncmp, first):
    spec = scn['spec']
    names = M.Names(spec)
    s1 = dict(scn, nproc=nproc)
    dvn = [names.at_root(d['c'], d['n']) for d in scn['dv']]
    ren = [names.at_root(d['c'], d['n']) for d in scn['re']]
    job = H.Job(s1, ch, run)
    res = {}

    def body(rank):
        from openmdao.api import Problem
        from openmdao.core.petsc_impl import PetscImpl
        p = Problem(root=build(dict(s1, npar=min(s1['npar'], nproc)) if not first else s1, names),
                    impl=PetscImpl)
        for d, n in zip(scn['dv'], dvn):
            p.driver.add_desvar(n, indices=d['idx'])
        for k, (d, n) in enumerate(zip(scn['re'], ren)):
            if k == 0 and p02.vsize(spec, d) == 1:
                p.driver.add_objective(n, indices=d['idx'])
            else:
                p.driver.add_constraint(n, upper=0.0, indices=d['idx'])
        p.setup(check=False)
        p.run()
        out = []
        for op in scn['ops']:
            if op[0] == 'set':
                p01.set_indeps(p, spec, names, op[1])
                p.run()
                continue
            J = p.calc_gradient(list(dvn), list(ren), mode=op[0], return_format=op[1])
            out.append((J, p.root.comm.rank))
        res[rank] = out
    job.start(body)
    return res, job


def execute(scn, ch, run):
    spec = scn['spec']
    names = M.Names(spec)
    ncmp = [0]
    res, job = one_job(scn, ch, run, scn['nproc'], ncmp, True)
    if scn['nproc'] > 1:
        ser, _ = one_job(scn, ch, run, 1, ncmp, False)
    else:
        ser = res
    ref = M.Ref(spec)
    ref.run()
    k = 0
    for j, op in enumerate(scn['ops']):
        if op[0] == 'set':
            for n, v in op[1].items():
                ref.set(n, v)
            ref.run()
            continue
        T = ref.totals()
        r0 = 0
        for of in scn['re']:
            on = names.at_root(of['c'], of['n'])
            c0 = 0
            for wrt in scn['dv']:
                wn = names.at_root(wrt['c'], wrt['n'])
                ex = p02.expected(spec, T, of, wrt)
                total = scn['kind'] == 'root' or op[0] == 'fd'
                st = {'form': 'central', 'step_size': 1e-3}
                fd = None
                if total and scn['typ'] == 'fd':
                    sc = scn
                    if scn['kind'] != 'root':
                        sc = dict(scn, step=1e-6, form='forward', calc='absolute')
                    fd, st = ref_fd(sc, ref, wrt, of)
                for rank in sorted(res):
                    g = block(res[rank][k][0], op, on, wn, r0, c0, ex.shape)
                    s = block(ser[0][k][0], op, on, wn, r0, c0, ex.shape)
                    what = 'rank %d, computation %d (%s, %s): d %s / d %s' % (
                        rank, j, op[0], op[1], on, wn)
                    ncmp[0] += 1
                    if g is None or np.shape(g) != ex.shape:
                        raise Violation('wrong-shape', '%s is %s, should have shape %s' % (
                            what, g, ex.shape))
                    if fd is not None and not H.close(g, fd, 1e-6, tol_round(st)):
                        raise Violation('wrong-fd', '%s is %s, the formula gives %s (%s)' % (
                            what, g.tolist(), fd.tolist(), st))
                    if not H.close(g, s, 1e-6, tol_round(st if fd is not None else None)):
                        raise Violation('not-serial', '%s is %s, one process gives %s' % (
                            what, g.tolist(), s.tolist()))
                    if not H.close(g, ex, 1e-4, tol_method(scn, st, fd is not None)):
                        raise Violation('wrong-derivative', '%s is %s, exact is %s' % (
                            what, g.tolist(), ex.tolist()))
                c0 += ex.shape[1]
            r0 += ex.shape[0]
        k += 1
    run.count('derivative blocks compared', ncmp[0])
    run.count('probe.parallel fd', int(scn['npar'] > 1))
    run.count('probe.total fd', int(scn['kind'] == 'root'))
    run.count('probe.group fd', int(scn['kind'] == 'sub'))
    run.count('probe.component fd', int(scn['kind'] == 'comp'))
    run.count('probe.complex step', int(scn['typ'] == 'cs'))
    run.key = p01.hash_key(scn)
    run.nontrivial = k > 0 and scn['nproc'] > 1
    run.sample = {'kind': scn['kind'], 'nproc': scn['nproc'], 'num_par_fds': scn['npar'],
                  'form': scn['form'], 'step': scn['step'], 'ops': scn['ops'],
                  'order': [c for c, _ in M.walk(spec)]}


def tol_round(st):
    h = st['step_size'] if st else 1e-6
    return max(1e-9, 1e-13 / h) * 10 if st else 2e-6


def tol_method(scn, st, exact_known):
    if scn['typ'] == 'cs':
        return 1e-3 * scn['step'] if scn['step'] >= 1e-4 else 1e-7
    h = st['step_size'] if exact_known else max(
        [scn['step']] + [x.get('step_size', 0) for c in scn['spec']['comps'].values() for x in c['ins']])
    return 1e-5 + 10 * h


def block(J, op, on, wn, r0, c0, shape):
    if op[1] == 'dict':
        return J[on][wn]
    return J[r0:r0 + shape[0], c0:c0 + shape[1]]
