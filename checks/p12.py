"""P12: drivers see the same design, objective and constraints on every process."""
import json
import os
import sys
import types

import numpy as np

from checks import p01, p02
from sim import models as M, mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P12'
RULE = ('random models on 1-6 simulated ranks driven by the scipy optimizer driver, the pyOptSparse driver or '
        'a scripted driver, with random design variables, objectives and constraints (indices, scalers, '
        'adders, bounds, equality, double-sided, linear); the optimization algorithm is replaced by one that '
        'asks for values and gradients at random designs; every bound, value and gradient it is given on '
        'every rank, and the state of the model afterwards, is compared with the reference model; '
        'non-trivial: >= 2 ranks, or scalers or indices in use')
QUICK = (2400, 55)
THOROUGH = (60000, 1500)
COMPONENTS = {'real': H.COMPONENTS['real'],
              'stub': H.COMPONENTS['stub'] + ['scipy.optimize.minimize and pyoptsparse: an optimizer that visits '
                                              'scripted designs (a part of the runs uses the real minimize)']}
ASSUMPTIONS = H.ASSUMPTIONS + [
    'scalers of design variables and constraints are positive',
    'constraints are evaluated at the design of the last objective evaluation, as the optimizers do']
FAULTS = ('slow component',)
PROBES = ('scipy driver', 'pyoptsparse driver', 'scripted driver', 'real minimize', 'index selection',
          'array scaler', 'array adder', 'double-sided constraint', 'equality constraint', 'linear constraint',
          'finite difference', 'fwd', 'rev', 'single index set', 'inactive constraint',
          'index connection')
GRAD_OPT = ('BFGS', 'CG', 'L-BFGS-B', 'TNC', 'SLSQP', 'Newton-CG')
CON_OPT = ('COBYLA', 'SLSQP')
BND_OPT = ('L-BFGS-B', 'TNC', 'SLSQP')
DIRECTED = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'p12_directed.json')))



def prepare():
    H.prepare()
    import contextlib
    import io
    mod = types.ModuleType('pyoptsparse')
    mod.Optimization = Optimization
    mod.Solution = object
    mod.SLSQP = Algorithm
    sys.modules['pyoptsparse'] = mod
    with contextlib.redirect_stdout(io.StringIO()):
        import openmdao.drivers.pyoptsparse_driver   # noqa


# -- scenario

def quantity(rng, spec, lst, role):
    c, o = lst
    sz = M.size(o['s'])
    d = {'c': c, 'n': o['n'], 's': o['s'], 'idx': None}
    flat = o['s'] == 0 or len(o['s']) == 1
    if isinstance(o['s'], list) and sz > 1 and (flat or role != 'dv') and rng.random() < 0.4:
        d['idx'] = rng.sample(range(sz), rng.randint(1, sz))
    n = len(d['idx']) if d['idx'] else sz
    d['size'] = n
    sg = [1, 1, -1] if role == 'obj' else [1]
    r = rng.random()
    if r < 0.25:
        d['sc'] = round(rng.choice(sg) * rng.uniform(0.2, 4), 2)
    elif r < 0.5 and o['s'] != 0:
        d['sc'] = [round(rng.choice(sg) * rng.uniform(0.2, 4), 2) for _ in range(n)]
    r = rng.random()
    if r < 0.25:
        d['ad'] = round(rng.uniform(-3, 3), 2)
    elif r < 0.5 and o['s'] != 0:
        d['ad'] = [round(rng.uniform(-3, 3), 2) for _ in range(n)]

    def bound(base):
        if o['s'] != 0 and rng.random() < 0.5:
            return [round(base + rng.uniform(0, 1), 2) for _ in range(n)]
        return round(base, 2)
    if role == 'dv':
        for k, b in (('lo', -3), ('hi', 2)):
            if rng.random() < 0.6:
                d[k] = bound(b)
    elif role == 'con':
        r = rng.random()
        if r < 0.25:
            d['eq'] = bound(0)
        else:
            if r < 0.75:
                d['lo'] = bound(-4)
            if r > 0.5:
                d['hi'] = bound(3)
        d['lin'] = rng.random() < 0.2
    return d


def gen(rng, i, tier):
    while True:
        par = rng.random() < 0.7
        spec = M.gen(rng, ncomp=rng.choice([2, 3, 5, 7]), ngroup=rng.choice([0, 1, 2, 3]),
                     pg=0.6 if par else 0, cyc=0, unconn=0.05, implicit=rng.choice([0, 0.2]), vec=0.6)
        if spec['tree']['kind'] != 'G':
            continue
        mx = H.maxprocs(spec)
        if p02.consumed(spec) and p02.responses(spec) and (mx > 1 or not par):
            break
    scn = H.knobs(rng, mx, always_par=True)
    scn['spec'] = spec
    kind = scn['kind'] = rng.choice(['script', 'script', 'scipy', 'scipy', 'pyopt', 'pyopt', 'real'])
    dvs, res = p02.consumed(spec), p02.responses(spec)
    scn['dv'] = [quantity(rng, spec, x, 'dv') for x in rng.sample(dvs, rng.randint(1, min(3, len(dvs))))]
    res = rng.sample(res, min(len(res), rng.randint(1, 4)))
    nobj = 1 if kind != 'script' else rng.choice([1, 1, 2])
    scn['obj'] = [quantity(rng, spec, x, 'obj') for x in res[:nobj]]
    if kind != 'script':
        for d in scn['obj']:
            # the objective of an optimizer is one number
            if d['size'] > 1:
                d['idx'] = [rng.randrange(M.size(d['s']))]
                d['size'] = 1
                for k in ('sc', 'ad'):
                    if isinstance(d.get(k), list):
                        d[k] = d[k][:1]
    scn['con'] = [quantity(rng, spec, x, 'con') for x in res[nobj:]]
    scn['ln'] = rng.choice(['petsc', 'lngs', 'lngs'])
    scn['sub'] = {str(g['g']): rng.choice(['lngs', 'lngs', 'petsc']) for g in M.groups_of(spec)}
    scn['mode'] = rng.choice(['fwd', 'rev'])
    scn['tol'] = rng.random() < 0.2
    opt = ['SLSQP', 'SLSQP', 'COBYLA', 'L-BFGS-B', 'BFGS', 'Nelder-Mead', 'TNC', 'CG']
    scn['opt'] = rng.choice(opt)
    if scn['con'] and rng.random() < 0.7:
        scn['opt'] = rng.choice(CON_OPT)
    if kind == 'real':
        # keep the real algorithm where the model is well behaved
        scn['opt'] = rng.choice(BND_OPT)
        for d in scn['dv']:
            d.setdefault('lo', -2.0)
            d.setdefault('hi', 2.5)
        for d in scn['con']:
            # more equalities than variables crash the real algorithm
            if 'eq' in d:
                d['lo'] = d.pop('eq')
    pts = []
    for _ in range(rng.randint(1, 4)):
        pts.append([[round(rng.uniform(-2, 2), 3) for _ in range(d['size'])] for d in scn['dv']])
    scn['pts'] = pts
    scn['ask'] = [rng.choice(['none', 'fwd', 'rev', 'auto', 'auto', 'fd' if mx == 1 else 'auto']) for _ in pts]
    scn['fmt'] = [rng.choice(['dict', 'array']) for _ in pts]
    # array scalers are right on one side only (known finding P12-K1): keep to that side
    if kind == 'script' and rng.random() < 0.5:
        scn['ask'] = [a if a == 'none' else rng.choice(['auto', scn['mode']]) for a in scn['ask']]
    modes = set(scn['ask']) - {'none', 'auto'} if kind == 'script' else set()
    if kind != 'script' or 'auto' in scn['ask']:
        modes.add(scn['mode'])
    for bad, key in (('fwd' in modes, 'dv'), (modes & {'rev', 'fd'}, 'obj'), (modes & {'rev', 'fd'}, 'con')):
        for d in scn[key]:
            if bad and isinstance(d.get('sc'), list) and d['size'] > 1:
                d['sc'] = d['sc'][0]
    scn['one'] = [None if rng.random() < 0.7 else rng.randrange(100) for _ in pts]
    return scn


def shrink(scn):
    for k in range(len(scn['pts'])):
        if len(scn['pts']) > 1:
            yield dict(scn, **{a: scn[a][:k] + scn[a][k + 1:] for a in ('pts', 'ask', 'fmt', 'one')})
    for k, v in enumerate(scn['one']):
        if v is not None:
            yield dict(scn, one=scn['one'][:k] + [None] + scn['one'][k + 1:])
    for key in ('con', 'obj', 'dv'):
        for k in range(len(scn[key])):
            if len(scn[key]) > (0 if key == 'con' else 1):
                s = dict(scn, **{key: scn[key][:k] + scn[key][k + 1:]})
                if key == 'dv':
                    s['pts'] = [p[:k] + p[k + 1:] for p in scn['pts']]
                yield s
            for a in ('sc', 'ad', 'lo', 'hi'):
                if a in scn[key][k] and not (key == 'con' and a in ('lo', 'hi')):
                    d = dict(scn[key][k])
                    del d[a]
                    yield dict(scn, **{key: scn[key][:k] + [d] + scn[key][k + 1:]})
    for k, v in (('ln', 'lngs'), ('tol', False), ('kind', 'script')):
        if scn[k] != v:
            yield dict(scn, **{k: v})
    if any(v != 'lngs' for v in scn['sub'].values()):
        yield dict(scn, sub={k: 'lngs' for k in scn['sub']})
    for s in H.shrink_job(scn):
        yield s
    for s in M.shrinks(scn['spec']):
        cons = [(c, o['n'], o['s']) for c, o in p02.consumed(s)]
        resp = [(c, o['n'], o['s']) for c, o in p02.responses(s)]
        if all((d['c'], d['n'], d['s']) in cons for d in scn['dv']) and \
                all((d['c'], d['n'], d['s']) in resp for d in scn['obj'] + scn['con']):
            yield dict(scn, spec=s, nproc=min(scn['nproc'], H.maxprocs(s)))


# -- the stand-ins for the optimization packages

class Stop(Exception):
    pass


class Con(object):
    pass


class Optimization(object):
    current = {}

    def __init__(self, title, objfun, *a, **kw):
        self.objfun = objfun
        self.vars, self.objs, self.constraints = {}, [], {}

    def addVarGroup(self, name, nVars, type='c', value=None, lower=None, upper=None, **kw):
        self.vars[name] = dict(size=nVars, value=np.array(value, float, copy=True), lower=lower, upper=upper,
                               type=type)

    def addObj(self, name, **kw):
        self.objs.append(name)

    def finalizeDesignVariables(self):
        pass

    def addConGroup(self, name, nCon, lower=None, upper=None, linear=False, wrt=None, jac=None, **kw):
        c = Con()
        c.size, c.linear, c.wrt, c.jac = nCon, linear, wrt, jac
        c.lo, c.hi = lower, upper
        c.lower = list(np.zeros(nCon) + lower) if lower is not None else [None] * nCon
        c.upper = list(np.zeros(nCon) + upper) if upper is not None else [None] * nCon
        c.value = np.zeros(nCon)
        self.constraints[name] = c


class Algorithm(object):
    def setOption(self, name, value):
        pass

    def __call__(self, prob, sens=None, **kw):
        from mpi4py import MPI
        return Optimization.current[MPI.COMM_WORLD.rank](prob, sens)


class Solution(object):
    def __init__(self, dvs):
        self.dvs = dvs
        self.optInform = {'value': 0}

    def getDVs(self):
        return self.dvs

    def __str__(self):
        return 'solution'


# -- expectations

class Oracle(object):
    def __init__(self, scn, names):
        self.scn, self.names = scn, names
        self.ref = M.Ref(scn['spec'])
        self.ref.run()
        self.at = {d['n']: names.at_root(d['c'], d['n']) for d in scn['dv'] + scn['obj'] + scn['con']}
        self.T = None

    def value(self, d):
        v = np.ravel(np.array(self.ref.y[d['n']], float))
        if d['idx'] is not None:
            v = v[d['idx']]
        return scale(d, v)

    def set(self, pts):
        for d, v in zip(self.scn['dv'], pts):
            cur = np.ravel(np.array(self.ref.y[d['n']], float)).copy()
            if d['idx'] is not None:
                cur[d['idx']] = v
            else:
                cur[:] = v
            self.ref.set(d['n'], list(cur))
        self.T = None

    def run(self):
        self.ref.run()
        self.T = None

    def grad(self, of, wrt):
        if self.T is None:
            self.T = self.ref.totals()
        m = np.array(p02.expected(self.scn['spec'], self.T, of, wrt), float)
        return m * factor(of)[:, None] / factor(wrt)[None, :]


def factor(d):
    return np.ones(d['size']) * np.array(d.get('sc', 1.0))


def scale(d, v):
    return (np.array(v, float) + np.array(d.get('ad', 0.0))) * np.array(d.get('sc', 1.0))


def bound(d, key):
    v = d.get(key)
    return None if v is None else np.ones(d['size']) * scale(d, v)


def differ(what, got, want, tol=1e-7):
    try:
        g = np.ravel(np.array(got, float))
    except (TypeError, ValueError):
        raise Violation('wrong-' + what.split()[0], '%s is %r, should be %s' % (what, got, want.tolist()))
    w = np.ravel(want)
    if g.shape != w.shape or not np.allclose(g, w, rtol=tol, atol=tol * max(1.0, np.abs(w).max() if w.size else 1)):
        raise Violation('wrong-' + what.split()[0], '%s is %s, should be %s' % (what, g.tolist(), w.tolist()))


def whole(what, got, want):
    """A bound that may be given as one number."""
    if want is None:
        if got is not None and not (np.abs(np.array(got, float)) > 1e15).all():
            raise Violation('wrong-bound', '%s is %s, there is none' % (what, got))
        return
    g = np.array(got, float) * np.ones(want.shape)
    differ('bound ' + what, g, want)


# -- runs

def execute(scn, ch, run):
    spec = scn['spec']
    names = M.Names(spec)
    job = H.Job(scn, ch, run)
    seen = {}
    cnt = {'n': 0, 'inactive': 0}

    def body(rank):
        from openmdao.api import Problem, ScipyOptimizer
        from openmdao.core.driver import Driver
        from openmdao.util.record_util import create_local_meta
        from openmdao.core.petsc_impl import PetscImpl
        orc = Oracle(scn, names)
        me = 'rank %d: ' % rank
        scn2 = dict(scn, ln=scn['ln'], svrr=False, pgrp=[], nl='run', cycnl='gs')
        p = Problem(root=M.build_group(spec, names, p02.setup_group(scn2)), impl=PetscImpl)
        kind = scn['kind']

        class Script(Driver):
            def run(self, problem):
                self._problem = problem
                self.metadata = create_local_meta(None, 'Script')
                problem.root.solve_nonlinear()
                read(self, 'before')
                for k, pts in enumerate(scn['pts']):
                    one = scn['one'][k]
                    if one is not None and k > 0:
                        # one entry of one variable
                        j = one % len(scn['dv'])
                        d = scn['dv'][j]
                        sz = M.size(d['s'])
                        if sz > 1 and isinstance(d['s'], list) and len(d['s']) == 1 and d['idx'] is None:
                            i = one % sz
                            new = [list(x) for x in now]
                            new[j][i] = pts[j][i]
                            val = scale(d, new[j])[i]
                            self.set_desvar(orc.at[d['n']], val, index=i)
                            run.count('probe.single index set')
                            pts = new
                        else:
                            set_all(self, pts)
                    else:
                        set_all(self, pts)
                    now = pts
                    orc.set(pts)
                    problem.root.solve_nonlinear()
                    orc.run()
                    read(self, 'design %d' % k)
                    if scn['ask'][k] != 'none':
                        mode = scn['ask'][k]
                        run.count('probe.' + {'fd': 'finite difference', 'auto': scn['mode']}.get(mode, mode))
                        wrt = [orc.at[d['n']] for d in scn['dv']]
                        of = [orc.at[d['n']] for d in scn['obj'] + scn['con']]
                        J = self.calc_gradient(wrt, of, mode=mode, return_format=scn['fmt'][k])
                        blocks(J, scn['fmt'][k], 'design %d (%s)' % (k, mode), 1e-3 if mode == 'fd' else 1e-6)

        def set_all(drv, pts):
            for d, v in zip(scn['dv'], pts):
                x = scale(d, v)
                keep = np.array(x, copy=True)
                drv.set_desvar(orc.at[d['n']], x)
                if not np.array_equal(keep, x):
                    raise Violation('wrong-value', 'set_desvar changed its argument')

        def read(drv, when):
            cnt['n'] += 1
            g = drv.get_desvars()
            if list(g) != [orc.at[d['n']] for d in scn['dv']]:
                raise Violation('wrong-names', me + 'design variables are %s' % list(g))
            for d in scn['dv']:
                differ('value ' + me + when + ', design variable ' + d['n'], g[orc.at[d['n']]], orc.value(d))
            g = drv.get_objectives()
            if list(g) != [orc.at[d['n']] for d in scn['obj']]:
                raise Violation('wrong-names', me + 'objectives are %s' % list(g))
            for d in scn['obj']:
                differ('value ' + me + when + ', objective ' + d['n'], g[orc.at[d['n']]], orc.value(d))
            for ct in ('all', 'eq', 'ineq'):
                for lt in ('all', 'linear', 'nonlinear'):
                    g = drv.get_constraints(ctype=ct, lintype=lt)
                    want = [d for d in scn['con'] if (ct == 'all' or ('eq' in d) == (ct == 'eq')) and
                            (lt == 'all' or d['lin'] == (lt == 'linear'))]
                    if list(g) != [orc.at[d['n']] for d in want]:
                        raise Violation('wrong-names', me + '%s %s constraints are %s, should be %s' % (
                            ct, lt, list(g), [d['n'] for d in want]))
                    for d in want:
                        differ('value ' + me + when + ', constraint ' + d['n'], g[orc.at[d['n']]], orc.value(d))

        def blocks(J, fmt, when, tol=1e-6, sparse=False, skip={}):
            r0 = 0
            for of in scn['obj'] + scn['con']:
                if sparse and of.get('lin'):
                    continue
                c0 = 0
                for wrt in scn['dv']:
                    e = orc.grad(of, wrt)
                    on, wn = orc.at[of['n']], orc.at[wrt['n']]
                    if fmt == 'dict':
                        j = J[on].get(wn) if sparse else J[on][wn]
                        if j is None and sparse:
                            j = np.zeros(e.shape)
                        elif isinstance(j, dict):
                            m = np.zeros(j['shape'])
                            m[j['coo'][0], j['coo'][1]] = j['coo'][2]
                            j = m
                            run.count('probe.index connection')
                    else:
                        j = J[r0:r0 + e.shape[0], c0:c0 + e.shape[1]]
                    if np.shape(j) != e.shape:
                        raise Violation('wrong-gradient', '%s%s: d %s / d %s is %r, should be %s' % (
                            me, when, on, wn, j, e.tolist()))
                    j = np.array(j, copy=True)
                    for row in skip.get(on, ()):
                        if not j[row].any():
                            j[row] = e[row]
                    differ('gradient ' + me + when + ': d %s / d %s' % (on, wn), j, e, tol)
                    c0 += e.shape[1]
                r0 += e.shape[0]

        def design(k):
            return np.concatenate([np.ravel(scale(d, v)) for d, v in zip(scn['dv'], scn['pts'][k])])

        def minimize(fun, x0, method=None, jac=None, bounds=None, constraints=(), tol=None, options=None):
            if method != scn['opt']:
                raise Violation('wrong-options', 'method %r' % (method,))
            differ('value ' + me + 'initial design', x0, np.concatenate([orc.value(d) for d in scn['dv']]))
            if method in BND_OPT:
                j = 0
                for d in scn['dv']:
                    b = np.array(bounds[j:j + d['size']], float)
                    for col, key in ((0, 'lo'), (1, 'hi')):
                        whole('%s%s of %s' % (me, key, d['n']), b[:, col], bound(d, key))
                    j += d['size']
                if len(bounds) != j:
                    raise Violation('wrong-bound', me + '%d bounds, %d variables' % (len(bounds), j))
            want = []
            for d in scn['con'] if method in CON_OPT else ():
                for i in range(d['size']):
                    if 'eq' in d:
                        want.append(('eq', d, i, 'eq'))
                    for key in ('lo', 'hi'):
                        if key in d:
                            want.append(('ineq', d, i, key))
            if len(want) != len(constraints):
                raise Violation('wrong-constraints', me + '%d constraint functions, should be %d' % (
                    len(constraints), len(want)))

            def margin(w):
                typ, d, i, key = w
                c, b = orc.value(d)[i], bound(d, key)[i]
                return b - c if key == 'hi' else c - b
            which = [None] * len(constraints)

            def cons(x, grads):
                left = list(want)
                for n, c in enumerate(constraints):
                    v = c['fun'](x, *c['args'])
                    for w in ([which[n]] if which[n] is not None else left):
                        m = margin(w)
                        if w not in left or c['type'] != w[0]:
                            continue
                        sgn = 0
                        t = 1e-7 * max(1.0, abs(m))
                        if abs(v - m) < t:
                            sgn = 1
                        elif w[0] == 'eq' and abs(v + m) < t:
                            sgn = -1
                        if sgn and not ambiguous(w, m, v, left):
                            which[n] = w
                        if sgn:
                            left.remove(w)
                            break
                    else:
                        raise Violation('wrong-constraints', me + 'constraint function %d (%s %s) gives %r, not '
                                        'among %s' % (n, c['type'], c['args'], v, [
                                            (w[1]['n'], w[2], w[3], margin(w)) for w in left]))
                    if grads and 'jac' in c and which[n] is not None:
                        typ, d, i, key = which[n]
                        e = np.concatenate([orc.grad(d, wrt)[i] for wrt in scn['dv']])
                        if key == 'hi':
                            e = -e
                        if typ == 'eq':
                            e = e * sgn
                        differ('gradient ' + me + 'constraint %s[%d]' % (d['n'], i), c['jac'](x, *c['args']), e, 1e-6)

            def ambiguous(w, m, v, left):
                return any(u is not w and u[0] == w[0] and abs(abs(margin(u)) - abs(m)) < 1e-6 for u in want)
            # the initial run of the model fills the constraints
            cons(x0, False)
            x = x0
            for k in range(len(scn['pts'])):
                x = design(k)
                orc.set(scn['pts'][k])
                orc.run()
                f = fun(x)
                differ('value ' + me + 'objective at design %d' % k, f, orc.value(scn['obj'][0]))
                g = False
                if jac is not None and scn['ask'][k] != 'none':
                    e = np.concatenate([orc.grad(scn['obj'][0], d)[0] for d in scn['dv']])
                    differ('gradient ' + me + 'objective at design %d' % k, jac(x), e, 1e-6)
                    g = True
                cons(x, g)
            if (jac is None) != (method not in GRAD_OPT):
                raise Violation('wrong-options', me + 'gradient function given: %s' % (jac is not None))

            class R(object):
                success = len(scn['pts']) % 2 == 0
            R.x = x
            return R

        def pyopt(prob, sens):
            for d in scn['dv']:
                v = prob.vars.get(orc.at[d['n']])
                if v is None or v['size'] != d['size']:
                    raise Violation('wrong-names', me + 'variable %s: %s' % (d['n'], v))
                differ('value ' + me + 'initial ' + d['n'], v['value'], orc.value(d))
                whole(me + 'lower of ' + d['n'], v['lower'], bound(d, 'lo'))
                whole(me + 'upper of ' + d['n'], v['upper'], bound(d, 'hi'))
            if prob.objs != [orc.at[d['n']] for d in scn['obj']]:
                raise Violation('wrong-names', me + 'objectives %s' % prob.objs)
            if sorted(prob.constraints) != sorted(orc.at[d['n']] for d in scn['con']):
                raise Violation('wrong-names', me + 'constraints %s' % sorted(prob.constraints))
            for d in scn['con']:
                c = prob.constraints[orc.at[d['n']]]
                for key, v in (('lo', c.lo), ('hi', c.hi)):
                    whole('%s%s of %s' % (me, key, d['n']), v, bound(d, 'eq' if 'eq' in d else key))
                if bool(c.linear) != d['lin'] or c.size != d['size']:
                    raise Violation('wrong-constraints', me + '%s: linear %s, size %s' % (d['n'], c.linear, c.size))
                if c.linear:
                    for wrt in scn['dv']:
                        e = orc.grad(d, wrt)
                        differ('gradient ' + me + 'linear d %s / d %s' % (d['n'], wrt['n']),
                               c.jac[orc.at[wrt['n']]], e, 1e-6)
                for wrt in scn['dv']:
                    if orc.at[wrt['n']] not in c.wrt and orc.grad(d, wrt).any():
                        raise Violation('wrong-gradient', me + '%s is said not to depend on %s' % (
                            d['n'], wrt['n']))
            for k in range(len(scn['pts'])):
                orc.set(scn['pts'][k])
                orc.run()
                x = {orc.at[d['n']]: scale(d, v) for d, v in zip(scn['dv'], scn['pts'][k])}
                f, fail = prob.objfun(x)
                if fail:
                    raise Violation('exception', me + 'the model failed at design %d' % k)
                for d in scn['obj'] + scn['con']:
                    if orc.at[d['n']] not in f:
                        raise Violation('wrong-names', me + '%s missing in %s' % (d['n'], sorted(f)))
                    differ('value ' + me + 'design %d, %s' % (k, d['n']), f[orc.at[d['n']]], orc.value(d))
                skip = {}
                for d in scn['con']:
                    c = prob.constraints[orc.at[d['n']]]
                    c.value = np.array(f[orc.at[d['n']]], float)
                    if scn['tol'] and 'eq' not in d:
                        t = 0.5
                        lo, hi = bound(d, 'lo'), bound(d, 'hi')
                        skip[orc.at[d['n']]] = s = [
                            i for i in range(d['size'])
                            if (lo is None or c.value[i] > lo[i] + t - 1e-9) or
                            (hi is None or c.value[i] < hi[i] - t + 1e-9)]
                        cnt['inactive'] += len(s)
                if scn['ask'][k] != 'none':
                    J, fail = sens(x, f)
                    if fail or not J:
                        raise Violation('exception', me + 'no gradient at design %d' % k)
                    blocks(J, 'dict', 'design %d' % k, sparse=True, skip=skip)
            # the solution is the first design
            orc.set(scn['pts'][0])
            orc.run()
            return Solution({orc.at[d['n']]: scale(d, v) for d, v in zip(scn['dv'], scn['pts'][0])})

        if kind == 'script':
            drv = Script()
        elif kind == 'pyopt':
            from openmdao.drivers.pyoptsparse_driver import pyOptSparseDriver
            drv = pyOptSparseDriver()
            drv.options['optimizer'] = 'SLSQP'
            drv.options['print_results'] = False
            Optimization.current[rank] = pyopt
        else:
            drv = ScipyOptimizer()
            drv.options['optimizer'] = scn['opt']
            drv.options['disp'] = False
            drv.options['maxiter'] = 4
            if kind == 'scipy':
                rigged[rank] = minimize
        p.driver = drv
        p.root.ln_solver.options['mode'] = scn['mode'] if 'mode' in p.root.ln_solver.options._options else 'fwd'

        def arr(v):
            return np.array(v) if isinstance(v, list) else v
        for d in scn['dv']:
            drv.add_desvar(orc.at[d['n']], **kw(d, arr, lower='lo', upper='hi'))
        for d in scn['obj']:
            drv.add_objective(orc.at[d['n']], **kw(d, arr))
        for d in scn['con']:
            k = kw(d, arr, lower='lo', upper='hi', equals='eq')
            if kind == 'pyopt' and scn['tol'] and 'eq' not in d:
                k['active_tol'] = 0.5
            drv.add_constraint(orc.at[d['n']], linear=d['lin'], **k)
        p.setup(check=False)
        p.run()
        if kind == 'scipy' and bool(drv.exit_flag) != (len(scn['pts']) % 2 == 0):
            raise Violation('wrong-flag', me + 'exit flag %r' % (drv.exit_flag,))
        if kind == 'real':
            x = [np.ravel(np.array(v)) for v in drv.get_desvars().values()]
            orc.set([np.array(v) / np.array(d.get('sc', 1.0)) - np.array(d.get('ad', 0.0))
                     for d, v in zip(scn['dv'], x)])
            orc.run()
            seen[rank] = np.concatenate(x)
        # the model is left at the last design, on every process
        read(drv, 'after the run')
        if 'fd' not in scn['ask'] or kind != 'script':
            p01.check_values(p, spec, names, orc.ref, rank, 1e-7, 'after the run')
        p.cleanup()

    rigged = {}
    from openmdao.drivers import scipy_optimizer as so
    saved = so.minimize

    def dispatch(*a, **kw):
        from mpi4py import MPI
        f = rigged.get(MPI.COMM_WORLD.rank)
        return f(*a, **kw) if f is not None else saved(*a, **kw)
    so.minimize = dispatch
    try:
        job.start(body)
    finally:
        so.minimize = saved
        Optimization.current.clear()
    if seen:
        vals = [seen[r] for r in sorted(seen)]
        for r, v in enumerate(vals):
            if not np.array_equal(v, vals[0]):
                raise Violation('diverged', 'rank %d ends at %s, rank 0 at %s' % (r, v, vals[0]))
    allq = scn['dv'] + scn['obj'] + scn['con']
    run.count('driver reads compared', cnt['n'])
    run.count('probe.inactive constraint', cnt['inactive'])
    run.count('probe.' + {'script': 'scripted driver', 'scipy': 'scipy driver', 'pyopt': 'pyoptsparse driver',
                          'real': 'real minimize'}[scn['kind']])
    run.count('probe.index selection', sum(d['idx'] is not None for d in allq))
    run.count('probe.array scaler', sum(isinstance(d.get('sc'), list) for d in allq))
    run.count('probe.array adder', sum(isinstance(d.get('ad'), list) for d in allq))
    run.count('probe.double-sided constraint', sum('lo' in d and 'hi' in d for d in scn['con']))
    run.count('probe.equality constraint', sum('eq' in d for d in scn['con']))
    run.count('probe.linear constraint', sum(d['lin'] for d in scn['con']))
    run.key = p01.hash_key(scn)
    run.nontrivial = scn['nproc'] > 1 or any('sc' in d or d['idx'] is not None for d in allq)
    run.sample = {'nproc': scn['nproc'], 'driver': scn['kind'], 'designs': len(scn['pts']),
                  'dv': [d['n'] for d in scn['dv']], 'obj': [d['n'] for d in scn['obj']],
                  'con': [d['n'] for d in scn['con']]}


def kw(d, arr, **bounds):
    out = {}
    if d['idx'] is not None:
        out['indices'] = list(d['idx'])
    if 'sc' in d:
        out['scaler'] = arr(d['sc'])
    if 'ad' in d:
        out['adder'] = arr(d['ad'])
    for a, k in bounds.items():
        if k in d:
            out[a] = arr(d[k])
    return out
