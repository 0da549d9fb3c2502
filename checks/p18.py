"""P18: iterative solvers stop and report convergence truthfully."""
import contextlib
import io
import re
import sys

import numpy as np

from checks import sess
from sim import mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P18'
RULE = ('small cyclic models (explicit rings, implicit states, a group inside another) whose gains make iterations '
        'contract, stall, diverge or overflow, with disturbances of the functions at random evaluations (not a '
        'number, infinite, huge or shifted results, stuck results, exceptions) and of derivatives (wrong, zero, not '
        'a number); solved by NLGaussSeidel (with and without Aitken), Newton (with and without line search, on any '
        'linear solver), Brent, LinearGaussSeidel and ScipyGMRES with random options; residuals are recomputed from '
        "the model's equations; judged for each solve: the number of iterations, the tolerance behind a report of "
        'convergence, that failure is raised when asked for and otherwise reported, the state the model is left '
        'in; non-trivial: a solve that did not converge was judged')
QUICK = (6000, 48)
THOROUGH = (150000, 1500)
COMPONENTS = {'real': 'openmdao: problems, groups, serial vectors, NLGaussSeidel, Newton, BackTracking, Brent, '
                      'LinearGaussSeidel, ScipyGMRES, DirectSolver; scipy',
              'stub': 'user components: linear and mildly nonlinear equations with disturbances'}
ASSUMPTIONS = ['one sweep (maxiter of one) of a Gauss-Seidel solver is not a claim of convergence',
               'a solver that has used up its iterations may call that a failure (an existing test pins it)',
               'a step below utol counts as convergence, as documented',
               'PetscKSP is not judged here: its convergence test is inside PETSc']
FAULTS = ('nan', 'inf', 'huge', 'shift', 'stuck', 'noise', 'raise', 'derivatives wrong', 'derivatives zero',
          'derivatives nan')
PROBES = ('converged', 'not converged', 'raised AnalysisError', 'nan at the end', 'inf at the end', 'diverged',
          'stalled', 'line search shortened', 'line search gave up', 'bounds hit', 'nested solve', 'aitken',
          'linear solve converged', 'linear solve not converged', 'brent converged', 'brent not converged',
          'utol', 'run after a failed one', 'repeated from the same state')
prepare = H.prepare

SOLVERS = ['gs', 'gs', 'aitken', 'newton', 'newton', 'newtonls', 'newtonls']
GAINS = [0.1, 0.3, 0.5, 0.8, 0.95, 1.0, -1.0, -0.4, -0.9, 1.05, 2.0, -3.0, 30.0, 1e60, 1e200]


def gen_solver(rng, kind):
    s = {'kind': kind, 'maxiter': rng.choice([0, 1, 2, 3, 4, 5, 8, 12, 20, 40]),
         'atol': rng.choice([1e-6, 1e-10, 1e-3, 1e-12, 0.0]), 'rtol': rng.choice([1e-6, 1e-10, 1e-2, 1e-12, 0.0]),
         'utol': rng.choice([1e-12, 1e-12, 0.0, 1e-3]), 'err': rng.random() < 0.5,
         'iprint': rng.choice([-1, 0, 0, 1, 1, 2]), 'alpha': rng.choice([1.0, 1.0, 1.0, 0.5, 1.5]),
         'lsiter': rng.choice([1, 2, 5, 10]), 'rho': rng.choice([0.5, 0.1, 0.9]), 'c': rng.choice([0.1, 0.5, 0.9]),
         'lserr': rng.random() < 0.2, 'sub': rng.random() < 0.7}
    return s


def gen_ln(rng, inner):
    s = {'kind': rng.choice(['lngs', 'lngs', 'gmres', 'gmres', 'direct'] if not inner else ['lngs', 'gmres']),
         'maxiter': rng.choice([1, 2, 3, 5, 10, 30, 100]), 'restart': rng.choice([1, 2, 20]),
         'atol': rng.choice([1e-12, 1e-10, 1e-4]), 'rtol': rng.choice([1e-10, 1e-10, 1e-3]),
         'err': rng.random() < 0.4, 'iprint': rng.choice([-1, 0, 1, 2])}
    if s['kind'] == 'lngs':
        s['maxiter'] = max(2, s['maxiter'])         # setup refuses one sweep in a cyclic group
    return s


def gen(rng, i, tier):
    n = rng.choice([1, 1, 2, 3])
    comps = []
    for k in range(rng.choice([2, 2, 3])):
        comps.append({'gain': rng.choice(GAINS) if rng.random() < 0.5 else round(rng.uniform(-0.9, 0.9), 2),
                      'nl': rng.choice([0.0, 0.0, 0.2, 1.0]), 'b': round(rng.uniform(-2, 2), 2),
                      'imp': False})
    if rng.random() < 0.4:
        comps[-1].update(imp=True, relax=rng.choice([0.0, 0.0, 0.5, 1.0]), cube=rng.choice([0.0, 0.0, 0.3]),
                         lo=rng.choice([None, None, -0.5]), up=rng.choice([None, None, 0.5]))
    # a tame ring most of the time
    if rng.random() < 0.5:
        for c in comps[1:]:
            if abs(c['gain']) > 1:
                c['gain'] = round(rng.uniform(-0.9, 0.9), 2)
    kind = rng.choice(SOLVERS)
    brent = comps[-1]['imp'] and n == 1 and rng.random() < 0.35
    outer = None
    if rng.random() < 0.3:
        outer = {'nl': gen_solver(rng, rng.choice(SOLVERS)), 'ln': gen_ln(rng, False),
                 'gain': rng.choice([0.2, -0.5, 0.9, 1.0, 3.0])}
    if brent:
        kind = 'brent'
        comps = [dict(comps[0], nl=0.0, gain=round(rng.uniform(-2, 2), 2)), comps[-1]]
        comps[-1]['relax'] = 0.0
        comps[-1]['lo'] = comps[-1]['up'] = None
    s = gen_solver(rng, kind)
    if brent:
        s['maxiter'] = rng.choice([1, 2, 3, 5, 8, 20, 100])
        s['xtol'] = rng.choice([0.0, 1e-6, 1e-12])
        s['lower'], s['upper'] = rng.choice([-100., -5., 0., 1.]), rng.choice([100., 3., 7.])
        outer = None
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        d = []
        for _ in range(rng.choice([0, 1, 1, 2]) if rng.random() < 0.8 else 0):
            d.append({'kind': rng.choice(['nan', 'inf', 'huge', 'shift', 'stuck', 'noise', 'raise']),
                      'at': rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 15, 20, 30]),
                      'len': rng.choice([1, 1, 2, 5, 1000]), 'exc': rng.choice(sess.EXC),
                      'val': round(rng.uniform(-3, 3), 2)})
        if rng.random() < 0.2:
            d.append({'kind': 'jac', 'how': rng.choice(['wrong', 'zero', 'nan']),
                      'at': rng.choice([0, 0, 1, 2, 4]), 'len': rng.choice([1, 2, 1000]), 'val': 0.0})
        ops.append(['run', round(rng.uniform(-2, 2), 2), d])
        if rng.random() < 0.5:
            ops.append(['grad', rng.choice(['fwd', 'rev'])])
    ln = gen_ln(rng, outer is not None)
    if comps[-1]['imp']:                            # and under a state
        ln['maxiter'] = max(2, ln['maxiter'])
        if outer is not None:
            outer['ln']['maxiter'] = max(2, outer['ln']['maxiter'])
    return {'n': n, 'comps': comps, 'nl': s, 'ln': ln,
            'nln': rng.random() < 0.3, 'outer': outer, 'ops': ops}


def shrink(scn):
    ops = scn['ops']
    for i in reversed(range(len(ops))):
        yield dict(scn, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        if o[0] == 'run':
            for j in range(len(o[2])):
                yield dict(scn, ops=ops[:i] + [[o[0], o[1], o[2][:j] + o[2][j + 1:]]] + ops[i + 1:])
                for k, v in (('len', 1), ('exc', 'RuntimeError')):
                    if k in o[2][j] and o[2][j][k] != v:
                        yield dict(scn, ops=ops[:i] + [[o[0], o[1], o[2][:j] + [dict(o[2][j], **{k: v})] +
                                                        o[2][j + 1:]]] + ops[i + 1:])
    if scn['outer']:
        yield dict(scn, outer=None)
    if scn['n'] > 1:
        yield dict(scn, n=1)
    if len(scn['comps']) > 2:
        yield dict(scn, comps=scn['comps'][:1] + scn['comps'][2:])
    for i, c in enumerate(scn['comps']):
        for k in ('nl', 'cube', 'relax', 'b'):
            if c.get(k):
                yield dict(scn, comps=scn['comps'][:i] + [dict(c, **{k: 0.0})] + scn['comps'][i + 1:])
    if scn['nln']:
        yield dict(scn, nln=False)
    for k, v in (('iprint', 0), ('alpha', 1.0), ('utol', 0.0)):
        if scn['nl'][k] != v:
            yield dict(scn, nl=dict(scn['nl'], **{k: v}))


class World(object):
    """The disturbances of one operation and the solves in progress."""

    def __init__(self, run):
        self.run, self.dist, self.n, self.nj, self.stack, self.fired = run, [], 0, 0, [], None
        self.solves = []

    def arm(self, dist):
        self.dist, self.n, self.nj, self.fired, self.stack, self.solves = dist, 0, 0, None, [], []

    def value(self, comp, v):
        k = comp.tick = self.n
        self.n += 1
        for d in self.dist:
            if d['kind'] == 'jac' or not d['at'] <= k < d['at'] + d['len']:
                continue
            self.run.count('fault.' + d['kind'])
            self.run.event('disturb', d['kind'], k)
            if d['kind'] == 'nan':
                v = v * np.nan
            elif d['kind'] == 'inf':
                v = v + np.inf
            elif d['kind'] == 'huge':
                v = v + 1e12 * (1 + abs(d['val']))
            elif d['kind'] == 'shift':
                v = v + d['val']
            elif d['kind'] == 'noise':
                v = v + d['val'] * (1 + (k * 7919 % 13)) / 13.0
            elif d['kind'] == 'stuck':
                if comp.last is not None:
                    v = np.array(comp.last)
            elif self.fired is None:
                self.fired = sess.make_exc(d['exc'], k)
                raise self.fired
        comp.last = np.array(v)
        return v

    def jac(self, J):
        k = self.nj
        self.nj += 1
        for d in self.dist:
            if d['kind'] == 'jac' and d['at'] <= k < d['at'] + d['len']:
                self.run.count('fault.derivatives ' + d['how'])
                f = {'wrong': -3.0, 'zero': 0.0, 'nan': np.nan}[d['how']]
                J = {a: v * f for a, v in J.items()}
        return J


def classes(world):
    from openmdao.api import Component, Group

    class Exp(Component):
        """y = gain * x + nl * sin(x) + b * p"""

        def __init__(self, c, n):
            super(Exp, self).__init__()
            self.c, self.n, self.last, self.tick = c, n, None, -1
            self.add_param('x', np.zeros(n))
            self.add_param('q', np.zeros(n))
            self.add_param('p', np.zeros(n))
            self.add_output('y', np.zeros(n))

        def solve_nonlinear(self, params, unknowns, resids):
            c = self.c
            x = np.array(params['x'])
            self.seen = {'x': x, 'q': np.array(params['q'])}
            unknowns['y'] = world.value(self, c['gain'] * x + c['nl'] * np.sin(x) + c['b'] * params['p'] +
                                        params['q'])

        def linearize(self, params, unknowns, resids):
            c = self.c
            x = params['x']
            self.J = world.jac({('y', 'x'): np.diag(c['gain'] + c['nl'] * np.cos(x)),
                                ('y', 'p'): np.eye(self.n) * c['b'], ('y', 'q'): np.eye(self.n)})
            return dict(self.J)

        def resid(self, since):
            y = np.array(self.unknowns['y'])
            if self.tick < since and np.array_equal(y, self.last, equal_nan=True):
                # not evaluated again: its output is the value of its function
                return np.zeros(self.n)
            return y - self.last

    class Imp(Component):
        """0 = y + cube * y**3 - gain * x - b * p"""

        def __init__(self, c, n):
            super(Imp, self).__init__()
            self.c, self.n, self.last, self.tick = c, n, None, -1
            self.add_param('x', np.zeros(n))
            self.add_param('p', np.zeros(n))
            kw = {}
            if c['lo'] is not None:
                kw['lower'] = c['lo']
            if c['up'] is not None:
                kw['upper'] = c['up']
            self.add_state('y', np.zeros(n), **kw)

        def calc(self, params, y):
            c = self.c
            return y + c['cube'] * y ** 3 - c['gain'] * params['x'] - c['b'] * params['p']

        def solve_nonlinear(self, params, unknowns, resids):
            if self.c['relax']:
                y = np.array(unknowns['y'])
                unknowns['y'] = y - self.c['relax'] * self.calc(params, y) / (1.0 + 3 * self.c['cube'] * y * y)

        def apply_nonlinear(self, params, unknowns, resids):
            self.seen = {'x': np.array(params['x'])}
            resids['y'] = world.value(self, self.calc(params, np.array(unknowns['y'])))

        def linearize(self, params, unknowns, resids):
            c = self.c
            y = np.array(unknowns['y'])
            self.J = world.jac({('y', 'y'): np.diag(1 + 3 * c['cube'] * y * y),
                                ('y', 'x'): -c['gain'] * np.eye(self.n), ('y', 'p'): -c['b'] * np.eye(self.n)})
            return dict(self.J)

        def resid(self, since):
            return self.last

    class G(Group):
        """A group that writes down what its solvers make it do."""
        spec = None
        leaves = ()

        def solve_nonlinear(self, *a, **kw):
            rec = {'kind': 'nl', 'sys': self, 'ev': []}
            world.stack.append(rec)
            with printed(rec):
                try:
                    super(G, self).solve_nonlinear(*a, **kw)
                except BaseException as e:
                    rec['exc'] = e
                    raise
                finally:
                    world.stack.pop()
            rec['end'] = np.array(self.unknowns.vec)
            world.solves.append(rec)
            judge_nl(world, self, rec)

        def mine(self):
            return world.stack and world.stack[-1]['sys'] is self and world.stack[-1]['kind'] == 'nl' and \
                world.stack[-1]

        def children_solve_nonlinear(self, *a, **kw):
            r = self.mine()
            if r:
                r['ev'].append(('S', np.array(self.unknowns.vec)))
            return super(G, self).children_solve_nonlinear(*a, **kw)

        def apply_nonlinear(self, *a, **kw):
            r = self.mine()
            since = world.n
            super(G, self).apply_nonlinear(*a, **kw)
            if r:
                r['ev'].append(('A', truth(self, since), np.array(self.unknowns.vec)))

        def solve_linear(self, dumat, drmat, vois, mode=None, solver=None, rel_inputs=None):
            r = self.mine()
            if r:
                r['ev'].append(('L', np.array(self.unknowns.vec)))
            s = solver or self.ln_solver
            rec = {'kind': 'ln', 'sys': self, 'solver': s, 'mode': mode}
            rhs = {v: np.array((drmat if mode == 'fwd' else dumat)[v].vec) for v in vois}
            world.stack.append(rec)
            with printed(rec):
                try:
                    super(G, self).solve_linear(dumat, drmat, vois, mode=mode, solver=solver, rel_inputs=rel_inputs)
                except BaseException as e:
                    rec['exc'] = e
                    judge_ln(world, self, rec, rhs, None)
                    raise
                finally:
                    world.stack.pop()
            judge_ln(world, self, rec, rhs, {v: np.array((dumat if mode == 'fwd' else drmat)[v].vec) for v in vois})
    return Exp, Imp, G


@contextlib.contextmanager
def printed(rec):
    old, buf = sys.stdout, io.StringIO()
    sys.stdout = buf
    try:
        yield
    finally:
        sys.stdout = old
        rec['out'] = buf.getvalue()


def truth(g, since):
    """The norm of the residual of the group, from the equations."""
    r = []
    for c, srcs in g.leaves:
        r.append(np.asarray(c.resid(since)).ravel())
        for prm, src in srcs:
            x, y = c.seen[prm], np.array(src.unknowns['y'])
            if not np.array_equal(x, y, equal_nan=True):
                raise Violation('stale-residual', "%s: residuals were evaluated with %s.%s = %s while the output it "
                                'is connected to is %s' % (g.pathname, c.pathname, prm, x, y))
    return float(np.linalg.norm(np.concatenate(r)))


def le(a, b):
    return a <= b * (1 + 1e-9)


def lt(a, b):
    return a < b * (1 - 1e-9)


LINE = re.compile(r'\[(\S+)\] (NL|LS|LN): (\S+)\s+(\d+) \| (Converged|FAILED)[^\n]*?(\d+)?[^\n]*')


def reports(rec, path, what):
    """What the solver of a system has said: [(iteration, Converged or FAILED)]."""
    name = 'root' + ('.' + path if path else '')
    return [(int(m.group(4)), m.group(5)) for m in LINE.finditer(rec.get('out', ''))
            if m.group(1) == name and m.group(2) == what]


def judge_nl(world, g, rec):
    """Called when a nonlinear solve has returned normally."""
    spec, run = g.spec, world.run
    where = '%s of %r' % (spec['kind'], g.pathname)
    ev = rec['ev']
    if spec['kind'] == 'brent':
        return judge_brent(world, g, rec, where, ev)
    it, met, first = progress(spec, ev)
    check_limit(spec, ev, where)
    said = reports(rec, g.pathname, 'NL')
    norms = [e[1] for e in ev if e[0] == 'A']
    if len(world.stack):
        run.count('probe.nested solve')
    if spec['kind'] == 'aitken':
        run.count('probe.aitken')
    if spec['kind'] in ('gs', 'aitken') and spec['maxiter'] <= 1:
        return
    if not norms:
        raise Violation('never-checked', '%s: no residual was ever evaluated' % where)
    verdict = met[-1]
    conv = any(s[1] == 'Converged' for s in said)
    failed = any(s[1] == 'FAILED' for s in said)
    text = 'residual norms %s, iterations %d, options %s' % (norms[-4:], it, {
        k: spec[k] for k in ('maxiter', 'atol', 'rtol', 'utol')})
    run.event('nl', it, conv, failed)
    if conv and failed:
        raise Violation('two-reports', '%s: reports both: %s' % (where, rec['out'][-300:]))
    if verdict is False:
        run.count('probe.not converged')
        run.nontrivial = True
        if conv:
            raise Violation('false-convergence', '%s reports convergence; %s' % (where, text))
        if spec['err']:
            raise Violation('not-raised', '%s has not converged and returned although it was told to raise; %s'
                            % (where, text))
        if spec['iprint'] > -1 and not failed:
            raise Violation('not-reported', '%s has not converged and did not say so; %s' % (where, text))
        r = norms[-1]
        if np.isnan(r):
            run.count('probe.nan at the end')
        elif np.isinf(r):
            run.count('probe.inf at the end')
        elif r > 10 * norms[0]:
            run.count('probe.diverged')
        elif r > 0.999 * norms[0]:
            run.count('probe.stalled')
        if it < spec['maxiter'] and np.isfinite(r) and np.isfinite(norms[0]) and first['ratio'] is not None:
            raise Violation('stopped-early', '%s stopped before its limit without having converged; %s'
                            % (where, text))
    elif verdict is True:
        run.count('probe.converged')
        if first.get('utol'):
            run.count('probe.utol')
        if it < spec['maxiter']:
            if failed:
                raise Violation('false-failure', '%s reports a failure; %s' % (where, text))
            if spec['iprint'] > 0 and not conv:
                raise Violation('not-reported', '%s has converged and did not say so although iprint is %d; %s'
                                % (where, spec['iprint'], text))
        if not np.array_equal(rec['end'], [e for e in ev if e[0] == 'A'][-1][2], equal_nan=True):
            raise Violation('other-iterate', '%s has converged but left the unknowns at %s; the residual it judged '
                            'is that of %s' % (where, rec['end'], [e for e in ev if e[0] == 'A'][-1][2]))
        if any(m is True for m in met[:-1]):
            raise Violation('iterated-on', '%s went on after it had converged; %s' % (where, text))
    if spec['kind'].startswith('newton'):
        judge_steps(world, g, spec, ev, where)
    for n, w in said:
        if n != it:
            raise Violation('wrong-count', '%s reports %d iterations; it made %d' % (where, n, it))


def judge_steps(world, g, spec, ev, where):
    """Line searches end with a sufficient decrease or at their limit; steps stay within bounds."""
    run = world.run
    imp = [c for c, _ in g.leaves if 'relax' in c.c]
    if imp and not imp[0].c['relax']:
        for k, b, sg in (('lo', imp[0].c['lo'], 1), ('up', imp[0].c['up'], -1)):
            if b is not None:
                y = np.array(imp[0].unknowns['y'])
                if (sg * (y - b) < -1e-9 * (1 + abs(b))).any():
                    raise Violation('out-of-bounds', '%s left the state %s at %s; its bound is %s'
                                    % (where, imp[0].pathname, y, b))
                if (np.abs(y - b) < 1e-9).any():
                    run.count('probe.bounds hit')
    if spec['kind'] != 'newtonls':
        return
    groups = []
    for e in ev:
        if e[0] == 'L' or not groups:
            groups.append([])
        if e[0] == 'A':
            groups[-1].append(e[1])
    for prev, cur in zip(groups, groups[1:]):
        if not cur or not prev:
            continue
        steps, base, r = len(cur) - 1, prev[-1], cur[-1]
        if np.isnan(r) and spec['lserr']:
            raise Violation('not-raised', '%s: the line search ended with a norm that is not a number after %d steps '
                            'and returned although it was told to raise' % (where, steps))
        if steps:
            run.count('probe.line search shortened')
        need = spec['c'] * spec['alpha'] * spec['rho'] ** steps * base
        if not base - r < need - 1e-9 * (abs(base) + abs(r)):
            continue
        if steps < spec['lsiter']:
            raise Violation('poor-step', '%s: the line search stopped after %d of %d steps with a norm of %g; it '
                            'started at %g and is to decrease it by %g' % (where, steps, spec['lsiter'], r, base, need))
        run.count('probe.line search gave up')
        if spec['lserr']:
            raise Violation('not-raised', '%s: the line search has used its %d steps without a decrease and '
                            'returned although it was told to raise' % (where, steps))


def progress(spec, ev):
    """Iterations made and, for each residual the solver decides on, whether the tolerance is met (None: unclear)."""
    newton = spec['kind'].startswith('newton')
    groups = []
    for e in ev:
        if e[0] == ('L' if newton else 'S'):
            groups.append([e])
        elif groups:
            groups[-1].append(e)
        elif not groups:
            groups.append([e])
    base, met = None, []
    first = {'ratio': 1.0}
    its = 0
    for gr in groups:
        start = gr[0]
        isit = start[0] == ('L' if newton else 'S')
        if isit:
            its += 1
        A = [e for e in gr if e[0] == 'A']
        if not A:
            continue
        r = A[-1][1]
        if base is None:
            base = r if newton or r > spec['atol'] else 1.0
            first['ratio'] = base if np.isfinite(base) else None
            u = [1e99]
        else:
            u = [float(np.linalg.norm(a[2] - start[1])) for a in (A[0], A[-1])]
        ratio = r / base if base else np.nan
        if np.isnan(r):
            met.append(False)
        elif le(r, spec['atol']) or le(ratio, spec['rtol']) or any(le(x, spec['utol']) for x in u):
            if not (le(r, spec['atol']) or le(ratio, spec['rtol'])):
                first['utol'] = True
            sure = lt(r, spec['atol']) or lt(ratio, spec['rtol']) or all(lt(x, spec['utol']) for x in u) or r == 0 \
                or all(x == 0 for x in u)
            met.append(True if sure else None)
        else:
            met.append(False)
    return its, met, first


def check_limit(spec, ev, where):
    k = {a: sum(1 for e in ev if e[0] == a) for a in 'SAL'}
    m = spec['maxiter']
    if spec['kind'].startswith('newton'):
        ls = spec['lsiter'] if spec['kind'] == 'newtonls' else 0
        if k['L'] > m or k['S'] > 1 + m * (1 + ls) or k['A'] > 1 + m * (1 + ls):
            raise Violation('over-limit', '%s made %d linear solves, %d evaluations; its limit is %d iterations'
                            '%s' % (where, k['L'], k['A'], m, ' of at most %d line search steps' % ls if ls else ''))
    elif spec['kind'] == 'brent':
        # two values at the ends of the interval, the one before the search, one per iteration
        if k['A'] > m + 4:
            raise Violation('over-limit', '%s made %d evaluations; its limit is %d' % (where, k['A'], m))
    elif k['S'] > max(1, m):
        raise Violation('over-limit', '%s ran its subsystems %d times; its limit is %d' % (where, k['S'], m))


def judge_brent(world, g, rec, where, ev):
    spec, run = g.spec, world.run
    check_limit(spec, ev, where)
    conv = any(s[1] == 'Converged' for s in [(0, m.group(1)) for m in
                                             re.finditer(r'BRENT\s+\d+ \| (Converged)', rec['out'])])
    imp = g.leaves[-1][0]
    A = [e for e in ev if e[0] == 'A']
    r = abs(float(imp.last[0]))
    # the function is monotonic in the state, with a slope of at least |slope|: an x tolerance bounds the residual
    y = float(imp.unknowns['y'][0])
    tol = (spec['xtol'] or 2e-12) + 1e-12 + 4.5e-16 * abs(y)
    slope = 1 + 3 * imp.c['cube'] * (abs(y) + 1) ** 2 + abs(imp.c['gain'] * g.leaves[0][0].c['gain'])
    bound = 8 * tol * slope + 1e-9 * slope
    quiet = all(d['kind'] == 'raise' or d['at'] >= world.n for d in world.dist)
    if quiet and r > bound:
        run.count('probe.brent not converged')
        run.nontrivial = True
        if conv:
            raise Violation('false-convergence', '%s reports convergence; the residual of the state is %g after %d '
                            'evaluations' % (where, r, len(A)))
        if spec['err']:
            raise Violation('not-raised', '%s has not converged (residual %g after %d evaluations, limit %d) and '
                            'returned although it was told to raise' % (where, r, len(A), spec['maxiter']))
    elif quiet:
        run.count('probe.brent converged')
        if spec['iprint'] > 0 and len(A) < spec['maxiter'] and not conv:
            raise Violation('not-reported', '%s has converged and did not say so' % where)
        if rec['end'].shape == A[-1][2].shape and not np.array_equal(rec['end'], A[-1][2]):
            raise Violation('other-iterate', '%s left the unknowns at %s; the last residual is that of %s'
                            % (where, rec['end'], A[-1][2]))


def matrix(g):
    """The Jacobian of the residuals of a group of components, from what they returned, in the group's order."""
    pos, n = {}, 0
    for c, _ in g.leaves:
        pos[c] = n
        n += c.n
    M = np.zeros((n, n))
    for c, srcs in g.leaves:
        i = pos[c]
        sl = slice(i, i + c.n)
        # an explicit residual is the new value minus the old one
        M[sl, sl] += c.J['y', 'y'] if ('y', 'y') in c.J else -np.eye(c.n)
        for prm, src in srcs:
            if src in pos:
                M[sl, pos[src]:pos[src] + src.n] += c.J['y', prm]
    return M


def judge_ln(world, g, rec, rhs, sol):
    spec, run = g.lspec(rec['solver']), world.run
    if spec is None or spec['kind'] == 'direct' or not g.flat or spec['kind'] == 'lngs' and spec['maxiter'] == 1:
        return
    where = '%s of %r (%s)' % (spec['kind'], g.pathname, rec['mode'])
    its = getattr(rec['solver'], 'iter_count', 0)
    said = reports(rec, g.pathname, 'LN')
    raised = type(rec.get('exc')).__name__ == 'AnalysisError'
    if sol is None:
        if raised:
            run.count('probe.linear solve not converged')
        return
    if spec['kind'] == 'lngs' and its > spec['maxiter']:
        raise Violation('over-limit', '%s made %d iterations; its limit is %d' % (where, its, spec['maxiter']))
    if all(np.linalg.norm(b) < 1.01e-15 for b in rhs.values()):
        # no solve takes place
        return
    M = matrix(g)
    if rec['mode'] == 'rev':
        M = M.T
    ok, text = True, ''
    for v in rhs:
        b, x = rhs[v], sol[v]
        if len(b) != len(M):
            return
        with np.errstate(all='ignore'):
            r = float(np.linalg.norm(M.dot(x) - b))
            nb = float(np.linalg.norm(b))
            # what cannot be resolved with this arithmetic
            eps = 1e-13 * (np.linalg.norm(np.abs(M)) * np.linalg.norm(x) + nb)
        if spec['kind'] == 'lngs':
            lim = max(spec['atol'], spec['rtol'] * (nb if nb > spec['atol'] else 1.0))
        else:
            lim = max(spec['atol'] * nb, spec['atol'])
        if not np.isfinite(eps):
            return
        if not r <= 1.01 * lim + eps:
            ok = False
            text = 'the residual norm is %g, the right hand side %g, atol %g, rtol %g' % (
                r, nb, spec['atol'], spec['rtol'])
    run.event('ln', ok, its)
    conv = any(s[1] == 'Converged' for s in said)
    failed = any(s[1] == 'FAILED' for s in said)
    if ok:
        run.count('probe.linear solve converged')
        if spec['iprint'] > 0 and not conv and not failed:
            raise Violation('not-reported', '%s did not say how it ended' % where)
        return
    run.count('probe.linear solve not converged')
    run.nontrivial = True
    if conv:
        raise Violation('false-convergence', '%s reports convergence; %s' % (where, text))
    if spec['err']:
        raise Violation('not-raised', '%s has not converged and returned although it was told to raise; %s'
                        % (where, text))
    if spec['iprint'] > -1 and not failed:
        raise Violation('not-reported', '%s has not converged and did not say so; %s' % (where, text))


def make_nl(s):
    from openmdao.api import Brent, Newton, NLGaussSeidel
    from openmdao.solvers.backtracking import BackTracking
    if s['kind'] == 'brent':
        x = Brent()
        x.options['state_var'] = 'c1.y'
        x.options['lower_bound'], x.options['upper_bound'] = s['lower'], s['upper']
        x.options['xtol'] = s['xtol']
        x.options['maxiter'] = s['maxiter']
        x.options['iprint'] = s['iprint']
        x.options['err_on_maxiter'] = s['err']
        return x
    x = Newton() if s['kind'].startswith('newton') else NLGaussSeidel()
    for k in ('maxiter', 'atol', 'rtol', 'utol', 'iprint'):
        x.options[k] = s[k]
    x.options['err_on_maxiter'] = s['err']
    if s['kind'] == 'aitken':
        x.options['use_aitken'] = True
    if s['kind'].startswith('newton'):
        x.options['alpha'] = s['alpha']
        x.options['solve_subsystems'] = s['sub']
    if s['kind'] == 'newtonls':
        x.line_search = BackTracking()
        for k, v in (('maxiter', s['lsiter']), ('rho', s['rho']), ('c', s['c']), ('err_on_maxiter', s['lserr']),
                     ('solve_subsystems', s['sub'])):
            x.line_search.options[k] = v
        x.line_search.options['iprint'] = s['iprint']
    return x


def make_ln(s):
    from openmdao.api import DirectSolver, LinearGaussSeidel, ScipyGMRES
    if s['kind'] == 'direct':
        return DirectSolver()
    x = LinearGaussSeidel() if s['kind'] == 'lngs' else ScipyGMRES()
    for k in ('maxiter', 'atol', 'iprint'):
        x.options[k] = s[k]
    if s['kind'] == 'lngs':
        x.options['rtol'] = s['rtol']
    else:
        x.options['restart'] = s['restart']
    x.options['err_on_maxiter'] = s['err']
    return x


def build(scn, world):
    from openmdao.api import Group, IndepVarComp, Problem
    Exp, Imp, G = classes(world)
    n = scn['n']
    g = G()
    g.spec, g.flat = scn['nl'], True
    cs = []
    for k, c in enumerate(scn['comps']):
        x = (Imp if c['imp'] else Exp)(c, n)
        cs.append(x)
        g.add('c%d' % k, x)
    for k in range(len(cs)):
        g.connect('c%d.y' % ((k - 1) % len(cs)), 'c%d.x' % k)
    g.leaves = [(x, [('x', cs[k - 1])]) for k, x in enumerate(cs)]
    g.nl_solver = make_nl(scn['nl'])
    g.ln_solver = make_ln(scn['ln'])
    g.lspec = lambda s: {id(g.ln_solver): scn['ln']}.get(id(s))
    own = None
    if scn['nln'] and scn['nl']['kind'].startswith('newton'):
        own = make_ln(scn['ln'])
        g.nl_solver.ln_solver = own
        g.lspec = lambda s: {id(g.ln_solver): scn['ln'], id(own): scn['ln']}.get(id(s))
    p = Problem(root=Group())
    p.root.add('p', IndepVarComp('p', np.zeros(n)))
    if scn['outer']:
        o = scn['outer']
        h = G()
        e = Exp({'gain': o['gain'], 'nl': 0.0, 'b': 1.0}, n)
        h.add('g', g)
        h.add('e', e)
        h.connect('g.c0.y', 'e.x')
        h.connect('e.y', 'g.c0.q')
        h.spec, h.flat = o['nl'], False
        h.leaves = [(x, [('x', cs[k - 1])] + ([('q', e)] if k == 0 else [])) for k, x in enumerate(cs)] + \
                   [(e, [('x', cs[0])])]
        h.nl_solver, h.ln_solver = make_nl(o['nl']), make_ln(o['ln'])
        h.lspec = lambda s: o['ln'] if s is h.ln_solver else None
        p.root.add('h', h)
        for x, path in [(cs[k], 'h.g.c%d' % k) for k in range(len(cs))] + [(e, 'h.e')]:
            p.root.connect('p.p', path + '.p')
        out = 'h.g.c0.y'
        groups = [g, h]
    else:
        p.root.add('g', g)
        for k in range(len(cs)):
            p.root.connect('p.p', 'g.c%d.p' % k)
        out = 'g.c0.y'
        groups = [g]
    p.setup(check=False)
    return p, groups, out


def execute(scn, ch, run):
    def body(play):
        with np.errstate(all='ignore'):
            session(scn, run)
    sess.start(dict(scn, nproc=1, stall=0, sticky=0, send=0), ch, run, body)


def session(scn, run):
    world = World(run)
    p, groups, out = build(scn, world)
    ran = failed = False
    hist = []
    for op in scn['ops']:
        hist.append(op[0])
        if op[0] == 'run':
            before = state(p) if len(hist) > 1 else None
            world.arm(op[2])
            p['p.p'] = np.full(scn['n'], op[1])
            try:
                p.run()
                e = None
            except Violation:
                raise
            except BaseException as x:
                if type(x).__name__ in ('CpuLimit', 'Crashed', 'SimStop'):
                    raise
                e = x
            run.event('run', type(e).__name__)
            ran = e is None
            judge_raise(world, scn, e, run)
            if before is not None:
                history(scn, op, before, p, groups, e, run)
            if ran and failed:
                run.count('probe.run after a failed one')
            failed = e is not None
        elif ran:
            world.arm([])
            try:
                with np.errstate(all='ignore'):
                    p.calc_gradient(['p.p'], [out], mode=op[1])
            except Violation:
                raise
            except Exception as x:
                if type(x).__name__ not in ('AnalysisError', 'LinAlgError', 'ValueError'):
                    raise Violation('grad-raises', 'derivatives: %r' % x)
    run.key = '%s %s %s' % (scn['nl']['kind'], scn['ln']['kind'], (scn['outer'] or {}).get('nl', {}).get('kind'))
    run.sample = '%s, %s' % (run.key, ' '.join(hist))


class Quiet(object):
    def count(self, *a):
        pass
    event = count


def state(p):
    """Everything a solve starts from."""
    subs = list(p.root.subsystems(recurse=True, include_self=True))
    return [[a.val.copy() for v in (s.unknowns, s.params, s.resids) for a in v._dat.values() if not a.pbo]
            for s in subs], \
        [getattr(s, 'last', None) for s in subs]


def history(scn, op, before, p, groups, e, run):
    """What was solved before changes nothing but the starting point."""
    w = World(Quiet())
    q, qgroups, _ = build(scn, w)
    for s, vals, last in zip(q.root.subsystems(recurse=True, include_self=True), *before):
        for a, v in zip([a for v in (s.unknowns, s.params, s.resids) for a in v._dat.values() if not a.pbo], vals):
            a.val[:] = v
        if last is not None:
            s.last = last
    w.arm(op[2])
    q['p.p'] = np.full(scn['n'], op[1])
    try:
        q.run()
        f = None
    except Violation:
        raise
    except BaseException as x:
        if type(x).__name__ in ('CpuLimit', 'Crashed', 'SimStop'):
            raise
        f = x
    if type(f) is not type(e):
        raise Violation('history', 'a run raised %r; from the same state a new problem raises %r' % (e, f))
    for g, h in zip(groups, qgroups):
        if e is None and g.nl_solver.iter_count != h.nl_solver.iter_count:
            raise Violation('history', '%s took %d iterations, from the same state a new one %d' % (
                g.pathname, g.nl_solver.iter_count, h.nl_solver.iter_count))
    a, b = p.root.unknowns.vec, q.root.unknowns.vec
    if not np.array_equal(a, b, equal_nan=True):
        raise Violation('history', 'a run ends at %s, from the same state one of a new problem at %s' % (
            a.tolist(), b.tolist()))
    run.count('probe.repeated from the same state')


def judge_raise(world, scn, e, run):
    """A run that raised: for a reason, and the reason is told."""
    if world.fired is not None:
        if e is None:
            raise Violation('failure-lost', '%r was raised inside the model; the run returned normally' % world.fired)
        if type(e) is not type(world.fired) or str(world.fired) not in str(e):
            raise Violation('failure-changed', '%r was raised inside the model; the run raised %r' % (world.fired, e))
        return
    if e is None:
        return
    name = type(e).__name__
    if name == 'AnalysisError':
        run.count('probe.raised AnalysisError')
        specs = [scn['nl'], scn['ln']] + ([scn['outer']['nl'], scn['outer']['ln']] if scn['outer'] else [])
        if not any(s['err'] or s.get('lserr') for s in specs):
            raise Violation('raised-unasked', 'the run raised %r although no solver was told to raise' % e)
    elif name in ('ValueError', 'LinAlgError', 'OverflowError'):
        # not finite numbers met by numpy and scipy; ends of the interval of Brent without a change of sign
        return
    else:
        raise Violation('run-raises', 'the run raised %r' % e)
