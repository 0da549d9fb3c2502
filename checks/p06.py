"""P06: distributed variables are independent of how they are partitioned."""
import copy
import random

import numpy as np

from checks import p01
from sim import mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P06'
RULE = ('random graphs of ordinary and distributed components (distributed inputs, outputs or both; even, '
        'skewed, empty, strided, permuted, repeated and overlapping parts) in serial and parallel groups on '
        '1-6 simulated ranks, run several times with new inputs and setups, with total derivatives in both '
        'modes, compared with the same functions evaluated on the whole vectors; schedule, sends, set '
        'orders and component delays are drawn; non-trivial: >= 2 ranks share a distributed component')
QUICK = (1400, 42)
THOROUGH = (60000, 1200)
COMPONENTS = H.COMPONENTS
ASSUMPTIONS = H.ASSUMPTIONS + [
    'entry k of a distributed output is entry k of the concatenation of the parts in rank order',
    'components whose outputs need communication are not differentiated analytically']
FAULTS = ('slow component',)
PROBES = ('empty part', 'distributed to distributed', 'distributed to ordinary', 'in a parallel group',
          'gathering component', 'fwd totals', 'rev totals', 'fd totals', 'second setup',
          'component inactive on a rank')
prepare = H.prepare


def gen(rng, i, tier):
    N = rng.choice([2, 3, 5, 8, 11])
    comps = []
    n = rng.randint(2, 6)
    k = 0
    tree = []
    npg = 0
    deriv = rng.random() < 0.6

    def comp(visible):
        kind = rng.choice(['F', 'DD', 'DD', 'DG'] if not deriv else ['F', 'DD', 'DD'])
        mn = rng.choice([1, 1, 2, 2, 3])
        c = {'n': 'c%d' % len(comps), 'kind': kind, 'seed': rng.randrange(10 ** 6),
             'src': rng.choice(visible), 'src2': rng.choice(visible + [None, None, None]),
             'part': rng.choice(['even', 'even', 'skew', 'first', 'last', 'stride', 'perm'] +
                                (['overlap', 'repeat'] if kind == 'DG' else [])),
             'part2': rng.choice(['even', 'skew', 'last', 'perm']),
             'req': [mn, rng.choice([mn, mn + 1, None])] if kind != 'F' else [1, 1]}
        comps.append(c)
        return c
    vis = ['x']
    while k < n:
        if rng.random() < 0.35 and n - k >= 2:
            m = rng.randint(2, min(3, n - k))
            new = [comp(vis) for _ in range(m)]
            tree.append({'n': 'pg%d' % npg, 'subs': [c['n'] for c in new]})
            npg += 1
            vis = vis + [c['n'] for c in new]
            k += m
        else:
            c = comp(vis[-3:] if rng.random() < 0.7 else vis)
            tree.append(c['n'])
            vis = vis + [c['n']]
            k += 1
    scn = {'N': N, 'comps': comps, 'tree': tree, 'deriv': deriv,
           'ln': rng.choice(['lngs', 'lngs', 'petsc'])}
    mn, mx = need(scn)
    mx = 6 if mx is None else min(6, mx)
    scn.update(H.knobs(rng, max(mn, mx), 6))
    scn['nproc'] = rng.randint(min(mn, max(mn, mx)), max(mn, mx))
    scn['ops'] = []
    for _ in range(rng.choice([1, 2, 3])):
        r = rng.random()
        if r < 0.5 or not deriv:
            scn['ops'].append(['run', [round(rng.uniform(-2, 2), 3) for _ in range(N)]])
        elif r < 0.9:
            scn['ops'].append(['grad', rng.choice(['fwd', 'rev', 'fwd', 'rev', 'fd']), rng.choice(['dict', 'array'])])
        if rng.random() < 0.1:
            scn['ops'].append(['setup'])
    return scn


def need(scn):
    by = {c['n']: c for c in scn['comps']}

    def one(c):
        return by[c]['req']
    mn, mx = 1, 1
    for t in scn['tree']:
        if isinstance(t, dict):
            a = max(one(c)[0] for c in t['subs'])
            ms = [one(c)[1] for c in t['subs']]
            b = None if None in ms else sum(ms)
        else:
            a, b = one(t)
        mn = max(mn, a)
        mx = None if mx is None or b is None else max(mx, b)
    return mn, mx


def shrink(scn):
    for k in range(len(scn['ops'])):
        yield dict(scn, ops=scn['ops'][:k] + scn['ops'][k + 1:])
    for c in reversed(scn['comps']):
        if len(scn['comps']) == 1:
            break
        new = copy.deepcopy(scn)
        new['comps'] = [x for x in new['comps'] if x['n'] != c['n']]
        for x in new['comps']:
            if x['src'] == c['n']:
                x['src'] = 'x'
            if x['src2'] == c['n']:
                x['src2'] = None
        t2 = []
        for t in new['tree']:
            if isinstance(t, dict):
                t['subs'] = [s for s in t['subs'] if s != c['n']]
                if t['subs']:
                    t2.append(t)
            elif t != c['n']:
                t2.append(t)
        new['tree'] = t2
        if ok(new):
            yield new
    for k, c in enumerate(scn['comps']):
        for key, v in (('src', 'x'), ('src2', None), ('part', 'even'), ('part2', 'even'), ('kind', 'F')):
            if c[key] != v:
                new = copy.deepcopy(scn)
                new['comps'][k][key] = v
                if v == 'F':
                    new['comps'][k]['req'] = [1, 1]
                if ok(new):
                    yield new
    for s in H.shrink_job(scn):
        if ok(s):
            yield s


def ok(scn):
    mn, mx = need(scn)
    return mn <= scn['nproc'] and (mx is None or scn['nproc'] <= mx)


def parts(kind, seed, size, N):
    """The indices of each of size processes."""
    r = random.Random(seed * 31 + size)
    if kind == 'even':
        q, m = divmod(N, size)
        cut, out = 0, []
        for k in range(size):
            e = cut + q + (1 if k < m else 0)
            out.append(list(range(cut, e)))
            cut = e
        return out
    if kind == 'skew':
        cuts = sorted(r.randint(0, N) for _ in range(size - 1))
        b = [0] + cuts + [N]
        return [list(range(b[k], b[k + 1])) for k in range(size)]
    if kind == 'first':
        return [list(range(N))] + [[] for _ in range(size - 1)]
    if kind == 'last':
        return [[] for _ in range(size - 1)] + [list(range(N))]
    if kind == 'stride':
        return [list(range(k, N, size)) for k in range(size)]
    if kind == 'perm':
        p = list(range(N))
        r.shuffle(p)
        cuts = sorted(r.randint(0, N) for _ in range(size - 1))
        b = [0] + cuts + [N]
        return [p[b[k]:b[k + 1]] for k in range(size)]
    if kind == 'overlap':
        return [list(range(r.randint(0, N - 1), N)) if r.random() < 0.5 else
                list(range(0, r.randint(1, N))) for k in range(size)]
    if kind == 'repeat':
        return [[r.randrange(N) for _ in range(r.randint(0, N + 2))] for k in range(size)]
    raise KeyError(kind)


def coef(c, N):
    r = np.random.RandomState(c['seed'])
    return {'A': np.round(r.uniform(-1, 1, (N, N)), 3), 'B': np.round(r.uniform(-1, 1, (N, N)), 3),
            'a': np.round(r.uniform(0.5, 1.5, N), 3), 'b': np.round(r.uniform(-1, 1, N), 3)}


def elem(a, b, x, x2):
    y = a * x + 0.3 * np.sin(x)
    if x2 is not None:
        y = y + b * x2
    return y


class Ref(object):
    """The same functions on the whole vectors; sizes: communicator size of each component."""

    def __init__(self, scn, sizes):
        self.scn, self.sizes = scn, sizes

    def run(self, x):
        N = self.scn['N']
        v, J = {'x': np.array(x)}, {'x': np.eye(N)}
        self.inp = {}
        for c in self.scn['comps']:
            k = coef(c, N)
            x1, x2 = v[c['src']], v[c['src2']] if c['src2'] else None
            J1, J2 = J[c['src']], J[c['src2']] if c['src2'] else None
            s = self.sizes[c['n']]
            if c['kind'] == 'F':
                y = np.tanh(k['A'].dot(x1)) + (k['B'].dot(x2) if x2 is not None else 0.0)
                d = (1 - np.tanh(k['A'].dot(x1)) ** 2)[:, None] * k['A'].dot(J1)
                if x2 is not None:
                    d = d + k['B'].dot(J2)
            elif c['kind'] == 'DD':
                p1 = sum(parts(c['part'], c['seed'], s, N), [])
                y = elem(k['a'], k['b'], x1[p1], None if x2 is None else x2[p1])
                d = (k['a'] + 0.3 * np.cos(x1[p1]))[:, None] * J1[p1]
                if x2 is not None:
                    d = d + k['b'][:, None] * J2[p1]
            else:
                y = np.zeros(N)
                d = np.zeros((N, N))
                for idx in parts(c['part'], c['seed'], s, N):
                    for j in idx:
                        y[j] += k['a'][j] * x1[j]
                        d[j] += k['a'][j] * J1[j]
                if x2 is not None:
                    for idx in parts(c['part2'], c['seed'], s, N):
                        for j in idx:
                            y[j] += k['b'][j] * x2[j]
                            d[j] += k['b'][j] * J2[j]
            v[c['n']], J[c['n']] = y, d
        self.v, self.J = v, J
        return v, J


_cls = {}


def classes():
    if _cls:
        return _cls
    from openmdao.api import Component

    class Base(Component):
        def __init__(self, c, N, hook):
            super(Base, self).__init__()
            self.c, self.N, self.hook = c, N, hook
            self.k = coef(c, N)
            self.two = c['src2'] is not None
            self.add_param('x', np.zeros(N))
            if self.two:
                self.add_param('w', np.zeros(N))
            self.add_output('y', np.zeros(N))

        def get_req_procs(self):
            return tuple(self.c['req'])

    class F(Base):
        def solve_nonlinear(self, p, u, r):
            self.hook(self, 'solve')
            u['y'] = np.tanh(self.k['A'].dot(p['x'])) + (self.k['B'].dot(p['w']) if self.two else 0.0)

        def linearize(self, p, u, r):
            self.hook(self, 'linearize')
            J = {('y', 'x'): (1 - np.tanh(self.k['A'].dot(p['x'])) ** 2)[:, None] * self.k['A']}
            if self.two:
                J['y', 'w'] = self.k['B']
            return J

    class DD(Base):
        sl = slice(None)

        def setup_distrib(self):
            ps = parts(self.c['part'], self.c['seed'], self.comm.size, self.N)
            mine = ps[self.comm.rank]
            start = sum(len(q) for q in ps[:self.comm.rank])
            self.sl = slice(start, start + len(mine))
            for n in ['x'] + (['w'] if self.two else []):
                self.set_var_indices(n, val=np.zeros(len(mine)), src_indices=np.array(mine, dtype=int))
            self.set_var_indices('y', val=np.zeros(len(mine)),
                                 src_indices=np.arange(self.sl.start, self.sl.stop, dtype=int))

        def solve_nonlinear(self, p, u, r):
            self.hook(self, 'solve')
            u['y'] = elem(self.k['a'][self.sl], self.k['b'][self.sl], p['x'], p['w'] if self.two else None)

        def linearize(self, p, u, r):
            self.hook(self, 'linearize')
            J = {('y', 'x'): np.diag(self.k['a'][self.sl] + 0.3 * np.cos(p['x']))}
            if self.two:
                J['y', 'w'] = np.diag(self.k['b'][self.sl])
            return J

    class DG(Base):
        def setup_distrib(self):
            self.p1 = parts(self.c['part'], self.c['seed'], self.comm.size, self.N)[self.comm.rank]
            self.p2 = parts(self.c['part2'], self.c['seed'], self.comm.size, self.N)[self.comm.rank]
            self.set_var_indices('x', val=np.zeros(len(self.p1)), src_indices=np.array(self.p1, dtype=int))
            if self.two:
                self.set_var_indices('w', val=np.zeros(len(self.p2)),
                                     src_indices=np.array(self.p2, dtype=int))

        def solve_nonlinear(self, p, u, r):
            self.hook(self, 'solve')
            y = np.zeros(self.N)
            np.add.at(y, self.p1, self.k['a'][self.p1] * p['x'])
            if self.two:
                np.add.at(y, self.p2, self.k['b'][self.p2] * p['w'])
            u['y'] = sum(self.comm.allgather(y))
    _cls.update(F=F, DD=DD, DG=DG)
    return _cls


def build(scn, hook):
    from openmdao.api import Group, IndepVarComp, LinearGaussSeidel, ParallelGroup
    from openmdao.solvers.petsc_ksp import PetscKSP
    cls = classes()
    by = {c['n']: c for c in scn['comps']}
    root = Group()
    root.ln_solver = PetscKSP() if scn['ln'] == 'petsc' else LinearGaussSeidel()
    root.add('P', IndepVarComp('x', np.zeros(scn['N'])))
    comps, path = {}, {'x': 'P.x'}
    for t in scn['tree']:
        if isinstance(t, dict):
            g = root.add(t['n'], ParallelGroup())
            g.ln_solver = LinearGaussSeidel()
            subs, pre = t['subs'], t['n'] + '.'
        else:
            g, subs, pre = root, [t], ''
        for s in subs:
            c = by[s]
            comps[s] = g.add(s, cls[c['kind']](c, scn['N'], hook))
            path[s] = pre + s + '.y'
    for c in scn['comps']:
        pre = path[c['n']][:-1]
        root.connect(path[c['src']], pre + 'x')
        if c['src2']:
            root.connect(path[c['src2']], pre + 'w')
    return root, comps, path


def execute(scn, ch, run):
    job = H.Job(scn, ch, run)
    ncmp = [0]
    shared = [0]
    N = scn['N']

    def body(rank):
        from openmdao.api import Problem
        from openmdao.core.petsc_impl import PetscImpl
        root, comps, path = build(scn, job.hook)
        p = Problem(root=root, impl=PetscImpl)
        p.setup(check=False)
        ref = setup_ref(p, comps)
        x = [0.1 * (k + 1) for k in range(N)]
        p['P.x'] = np.array(x)
        p.run()
        ref.run(x)
        check(p, comps, path, ref, rank, 'first run')
        for k, op in enumerate(scn['ops']):
            what = 'operation %d' % k
            if op[0] == 'run':
                x = op[1]
                p['P.x'] = np.array(x)
                p.run()
                ref.run(x)
                check(p, comps, path, ref, rank, what)
            elif op[0] == 'setup':
                run.count('probe.second setup')
                p.setup(check=False)
                ref = setup_ref(p, comps)
                p['P.x'] = np.array(x)
                p.run()
                ref.run(x)
                check(p, comps, path, ref, rank, what)
            else:
                gradient(p, path, ref, rank, op, what)
                if op[1] == 'fd':
                    p.run()
        p.cleanup()

    def setup_ref(p, comps):
        mine = {n: c.comm.size for n, c in comps.items() if c.is_active()}
        sizes = {}
        for d in p.root.comm.allgather(mine):
            sizes.update(d)
        if len(mine) < len(comps):
            run.count('probe.component inactive on a rank')
        for c in scn['comps']:
            if c['n'] not in sizes:
                raise Violation('not-allocated', 'no process has component %s' % c['n'])
            if c['kind'] != 'F' and sizes[c['n']] > 1:
                shared[0] += 1
                if any(not q for q in parts(c['part'], c['seed'], sizes[c['n']], N)):
                    run.count('probe.empty part')
        return Ref(scn, sizes)

    def eq(got, exp, what):
        ncmp[0] += 1
        if not H.close(got, exp, 1e-10, 1e-10):
            raise Violation('wrong-value', '%s is %s, on the whole vectors it is %s' % (
                what, np.ravel(got).tolist(), np.ravel(exp).tolist()))

    def check(p, comps, path, ref, rank, what):
        for c in scn['comps']:
            cm = comps[c['n']]
            if not cm.is_active():
                continue
            pre = '%s, rank %d: ' % (what, rank)
            ps = parts(c['part'], c['seed'], cm.comm.size, N)
            y = ref.v[c['n']]
            if c['kind'] == 'DD':
                y = y[cm.sl]
            eq(cm.unknowns['y'], y, pre + 'output of %s (%s)' % (c['n'], c['kind']))
            eq(p[path[c['n']]], y, pre + 'problem value of ' + path[c['n']])
            x1 = ref.v[c['src']]
            if c['kind'] != 'F':
                x1 = x1[ps[cm.comm.rank]]
            eq(cm.params['x'], x1, pre + 'input x of ' + c['n'])
            if c['src2']:
                x2 = ref.v[c['src2']]
                if c['kind'] == 'DD':
                    x2 = x2[ps[cm.comm.rank]]
                elif c['kind'] == 'DG':
                    x2 = x2[cm.p2]
                eq(cm.params['w'], x2, pre + 'input w of ' + c['n'])

    def gradient(p, path, ref, rank, op, what):
        outs = [c['n'] for c in scn['comps'] if c['kind'] == 'F' and
                (op[1] != 'fd' or c['n'] in scn['tree'])]    # remote outputs are refused by fd
        if not outs:
            return
        run.count('probe.%s totals' % op[1])
        J = p.calc_gradient(['P.x'], [path[o] for o in outs], mode=op[1], return_format=op[2])
        for k, o in enumerate(outs):
            j = J[path[o]]['P.x'] if op[2] == 'dict' else J[k * N:(k + 1) * N]
            ncmp[0] += 1
            e = ref.J[o]
            tol = 1e-7 if op[1] != 'fd' else 1e-4
            if j is None or np.shape(j) != e.shape or not H.close(
                    j, e, tol, tol * max(1.0, np.abs(e).max())):
                raise Violation('wrong-derivative', '%s, rank %d (%s): d %s / d x is %s, on the whole '
                                'vectors it is %s' % (what, rank, op[1], path[o], np.asarray(j).tolist(),
                                                      e.tolist()))
    job.start(body)
    run.count('values compared', ncmp[0])
    run.key = p01.hash_key(scn)
    run.nontrivial = shared[0] > 0
    kinds = {c['n']: c['kind'] for c in scn['comps']}
    for c in scn['comps']:
        if kinds.get(c['src']) == 'DD':
            run.count('probe.distributed to ' + ('ordinary' if c['kind'] == 'F' else 'distributed'))
        if c['kind'] == 'DG':
            run.count('probe.gathering component')
    if any(isinstance(t, dict) for t in scn['tree']):
        run.count('probe.in a parallel group')
    run.sample = {'nproc': scn['nproc'], 'N': N, 'kinds': sorted(kinds.values()),
                  'parts': [c['part'] for c in scn['comps']], 'ops': [o[0] for o in scn['ops']]}
