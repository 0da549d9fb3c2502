"""Sessions: sequences of operations on one or several problems of one program, with injected failures.

A problem spec is {'spec': models spec, 'ln': {gid: kind}, 'nl': {gid: kind}, 'root': 'user'|'fd'|'cs',
'gfd': gid or None, 'sub': [component ids that are nested problems], 'dirs': {gid or cid: directory},
'dv': [...], 're': [...], 'rec': bool}.  Operations are lists [name, problem, ...]; a dict at the end of an
operation is the fault {'at': number of the user-code call that fails, 'exc': kind}."""
import copy
import os
import sys
import threading

import numpy as np

from checks import p01, p02, p03
from sim import models as M, mpiharness as H
from sim.kernel import Violation


class Token(Exception):
    """A user exception whose type can't be made from a message."""

    def __init__(self, code, reason):
        super(Token, self).__init__(code, reason)
        self.code = code


class KwOnly(RuntimeError):
    def __init__(self, **kw):
        super(KwOnly, self).__init__(kw['what'])


EXC = ['RuntimeError', 'ValueError', 'KeyError', 'ZeroDivisionError', 'FloatingPointError', 'OSError',
       'MemoryError', 'AnalysisError', 'KeyboardInterrupt', 'Token', 'KwOnly', 'SystemExit']


def make_exc(kind, n):
    msg = 'sim-fault-%d' % n
    if kind == 'AnalysisError':
        from openmdao.api import AnalysisError
        return AnalysisError(msg)
    if kind == 'Token':
        return Token(7, msg)
    if kind == 'KwOnly':
        return KwOnly(what=msg)
    if kind == 'OSError':
        return OSError(28, msg)
    import six.moves.builtins as b
    return getattr(b, kind)(msg)


# ------------------------------------------------------------------ generator
def gen_problem(rng, fd=0.3, cyc=0.35, sub=0.4, dirs=0.4, size=None, newt=0.0):
    while True:
        spec = M.gen(rng, ncomp=size or rng.choice([3, 4, 6, 8]), ngroup=rng.choice([0, 1, 2, 3]),
                     pg=rng.choice([0, 0.3]), cyc=rng.choice([0, cyc]), unconn=0.05,
                     implicit=rng.choice([0, 0.25, 0.5]), deepindep=rng.choice([0, 0.15]),
                     fdcomp=rng.choice([0, 0, fd]))
        if p02.consumed(spec) and p02.responses(spec):
            break
    ps = {'spec': spec, 'root': 'user', 'gfd': None, 'sub': [], 'dirs': {}}
    if rng.random() < fd:
        ps['root'] = rng.choice(['fd', 'fd', 'cs'])
        if any(g['cyc'] for g in M.groups_of(spec)) or any(
                c.get('dt') for c in spec['comps'].values()):
            ps['root'] = 'user'
    if ps['root'] == 'user' and rng.random() < fd:
        gs = [g['g'] for g in M.groups_of(spec) if g['g'] and not g['cyc'] and g['kind'] == 'G' and
              not any(x['kind'] == 'PG' or x['cyc'] for x in M.groups_of({'tree': g}))]
        if gs:
            ps['gfd'] = rng.choice(gs)
    ps['ln'] = {str(g['g']): rng.choice(['lngs', 'gmres', 'gmres', 'direct', 'gmrespre'])
                for g in M.groups_of(spec)}
    # scipy's gmres can't run inside of itself, as below a preconditioner
    for g in M.groups_of(spec):
        if ps['ln'][str(g['g'])] == 'gmrespre' and any(
                ps['ln'][str(x['g'])].startswith('gmres') for x in M.groups_of({'tree': g}) if x is not g):
            ps['ln'][str(g['g'])] = 'gmres'
    ps['nl'] = {str(g['g']): rng.choice(['gs', 'aitken', 'newton', 'newtonls', 'newtonln'])
                for g in M.groups_of(spec)}
    # Newton uses the residuals, a finite differenced group within is seen as explicit by it
    for g in M.groups_of(spec):
        if ps['gfd'] in [x['g'] for x in M.groups_of({'tree': g})] and ps['nl'][str(g['g'])][:2] == 'ne':
            ps['nl'][str(g['g'])] = 'gs'
    ps['usegs'] = rng.random() < 0.2
    # Newton in a part of the model that is finite differenced as a whole
    ps['newt'] = None
    if (ps['root'] == 'fd' or ps['gfd'] is not None) and newt and rng.random() < newt and \
            not any(g['kind'] == 'PG' for g in M.groups_of(spec)):
        ps['newt'] = ps['gfd'] or 0
    for c, d in sorted(spec['comps'].items()):
        if rng.random() < sub and eligible(d):
            ps['sub'].append(c)
            if len(ps['sub']) == 2:
                break
    if ps['root'] == 'cs':
        ps['sub'] = []
    if rng.random() < dirs:
        for g in M.groups_of(spec):
            if rng.random() < 0.4:
                ps['dirs']['g%d' % g['g']] = 'd%d' % rng.randrange(3)
        for c in sorted(spec['comps']):
            if rng.random() < 0.3:
                ps['dirs'][c] = 'd%d' % rng.randrange(3)
    dvs = p03.wrt(spec, ps['gfd']) if ps['gfd'] is not None else p02.consumed(spec)
    if not dvs:
        ps['gfd'] = None
        dvs = p02.consumed(spec)
    ps['dv'] = p02.pick(rng, dvs, True)
    ps['re'] = p02.pick(rng, p02.responses(spec), True)
    return ps


def eligible(c):
    """Can this component be wrapped into a nested problem?"""
    return c['kind'] == 'F' and c['ins'] and not c.get('dt') and all(
        (i.get('idx') is None or i.get('idxc')) and 'step_size' not in i for i in c['ins'])


def rand_set(rng, ps):
    return {n: [round(rng.uniform(-2, 2), 3) for _ in range(sz)]
            for n, sz in p01.indep_names(ps['spec']) if rng.random() < 0.7}


def fault(rng, p=0.5, exc=None):
    if rng.random() >= p:
        return None
    return {'at': rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 25, 40]), 'exc': rng.choice(exc or EXC)}


def gen_op(rng, k, ps, w, fp, exc=None):
    """One operation on problem k; w: weights by name."""
    name = rng.choices(sorted(w), [w[x] for x in sorted(w)])[0]
    f = fault(rng, fp, exc)
    if name == 'set':
        return ['set', k, rand_set(rng, ps)]
    if name == 'run':
        op = ['run', k]
    elif name == 'grad':
        modes = ['fwd', 'rev', 'auto', 'fd']
        op = ['grad', k, rng.choice(modes), rng.choice(['dict', 'array'])]
    elif name == 'cpart':
        if ps['root'] != 'user':
            op = ['grad', k, 'auto', 'dict']
        else:
            op = ['cpart', k, rng.choice(['fd', 'fd', 'cs']), rng.choice(['forward', 'central'])]
    elif name == 'ctot':
        op = ['ctot', k]
    elif name == 'setup':
        return ['setup', k]
    elif name == 'opt':
        op = ['opt', k, rng.randrange(1000), rng.choice(['run', 'grad'])]
    else:
        raise KeyError(name)
    if f:
        op.append(f)
    return op


def shrink(scn):
    ops = scn['ops']
    for k in range(len(ops)):
        yield dict(scn, ops=ops[:k] + ops[k + 1:])
    if len(scn['probs']) > 1:
        for k in range(len(scn['probs'])):
            yield dict(scn, probs=scn['probs'][:k] + scn['probs'][k + 1:],
                       ops=[[o[0], o[1] - (1 if o[1] > k else 0)] + o[2:] for o in ops if o[1] != k])
    for k, o in enumerate(ops):
        if isinstance(o[-1], dict) and 'at' in o[-1]:
            yield dict(scn, ops=ops[:k] + [o[:-1]] + ops[k + 1:])
            if o[-1]['exc'] != 'RuntimeError':
                yield dict(scn, ops=ops[:k] + [o[:-1] + [dict(o[-1], exc='RuntimeError')]] + ops[k + 1:])
    for k, ps in enumerate(scn['probs']):
        for q in shrink_problem(ps):
            new = dict(scn, probs=scn['probs'][:k] + [q] + scn['probs'][k + 1:])
            ok = dict(p01.indep_names(q['spec']))
            new['ops'] = [[o[0], o[1], {n: v for n, v in o[2].items() if ok.get(n) == len(v)}]
                          if o[0] == 'set' and o[1] == k else o for o in ops]
            yield new
    for key in ('salts',):
        if scn.get(key) is not None:
            yield dict(scn, **{key: None})


def shrink_problem(ps):
    for key, v in (('newt', None), ('root', 'user'), ('gfd', None), ('sub', []), ('dirs', {}), ('usegs', False)):
        if ps.get(key) != v:
            yield dict(ps, **{key: v})
    for k in range(len(ps['sub'])):
        yield dict(ps, sub=ps['sub'][:k] + ps['sub'][k + 1:])
    for k in sorted(ps['dirs']):
        d = dict(ps['dirs'])
        del d[k]
        yield dict(ps, dirs=d)
    for key, base in (('ln', 'lngs'), ('nl', 'gs')):
        if any(v != base for v in ps[key].values()):
            yield dict(ps, **{key: {k: base for k in ps[key]}})
    for key in ('dv', 're'):
        for k in range(len(ps[key])):
            if len(ps[key]) > 1:
                yield dict(ps, **{key: ps[key][:k] + ps[key][k + 1:]})
            if ps[key][k]['idx'] is not None:
                l = copy.deepcopy(ps[key])
                l[k]['idx'] = None
                yield dict(ps, **{key: l})
    for s in M.shrinks(ps['spec']):
        if not p02.valid(s, ps):
            continue
        q = dict(ps, spec=s, sub=[c for c in ps['sub'] if c in s['comps'] and eligible(s['comps'][c])])
        gids = [g['g'] for g in M.groups_of(s)]
        if q['gfd'] is not None:
            if q['gfd'] not in gids:
                continue
            ok = [(c, o['n']) for c, o in p03.wrt(s, q['gfd'])]
            if not all((d['c'], d['n']) in ok for d in q['dv']):
                continue
        yield q


# ------------------------------------------------------------------ building
def build(ps, hookdirs=True):
    """A problem from its spec, not set up."""
    from openmdao.api import (DirectSolver, Group, IndepVarComp, LinearGaussSeidel, Newton, NLGaussSeidel,
                              Problem, ScipyGMRES)
    from openmdao.solvers.backtracking import BackTracking
    from openmdao.components.subproblem import SubProblem
    spec = ps['spec']
    names = M.Names(spec)

    def linear(kind, cyc):
        if kind == 'lngs':
            s = LinearGaussSeidel()
            if cyc:
                s.options['maxiter'] = 200
                s.options['atol'] = 1e-13
                s.options['rtol'] = 1e-14
        elif kind == 'direct':
            s = DirectSolver()
        else:
            s = ScipyGMRES()
            # scipy's gmres breaks down (NaN) when told to do better than rounding allows
            s.options['atol'] = 1e-10
            if kind == 'gmrespre':
                s.preconditioner = LinearGaussSeidel()
        return s

    def sg(g, node):
        gid = str(node['g'])
        kind = ps['ln'].get(gid, 'lngs')
        if node['g'] == ps['gfd']:
            g.deriv_options['type'] = ''.join(['f', 'd'])
        if node['g'] == 0 and ps['root'] != 'user':
            g.deriv_options['type'] = ''.join(list(ps['root']))
        g.ln_solver = linear(kind, node['cyc'])
        if node['cyc']:
            nl = ps['nl'].get(gid, 'gs')
            if nl in ('gs', 'aitken'):
                g.nl_solver = NLGaussSeidel()
                g.nl_solver.options['use_aitken'] = nl == 'aitken'
                g.nl_solver.options['maxiter'] = 200
            else:
                g.nl_solver = Newton()
                if nl == 'newtonls':
                    g.nl_solver.line_search = BackTracking()
                if nl == 'newtonln':
                    g.nl_solver.ln_solver = linear('gmres', True)
                g.nl_solver.options['maxiter'] = 30
            g.nl_solver.options['atol'] = 1e-12
            g.nl_solver.options['rtol'] = 1e-14
            g.nl_solver.options['iprint'] = -1
        elif ps.get('newt') == node['g']:
            g.nl_solver = Newton()
            g.nl_solver.options['maxiter'] = 30
            g.nl_solver.options['atol'] = 1e-12
            g.nl_solver.options['rtol'] = 1e-14
            g.nl_solver.options['iprint'] = -1
        elif ps['usegs'] and node['g'] == 0:
            g.nl_solver = NLGaussSeidel()
            g.nl_solver.options['iprint'] = -1
            g.nl_solver.options['maxiter'] = 5
        g.ln_solver.options['iprint'] = -1
        if hookdirs and 'g' + gid in ps['dirs']:
            g.directory = ps['dirs']['g' + gid]
            g.create_dirs = True

    def mc(cid, c):
        if cid in ps['sub']:
            K = M.classes()
            inner = Problem(root=Group())
            for i in c['ins']:
                kw = {'units': i['u']} if i.get('u') else {}
                inner.root.add('P' + i['n'], IndepVarComp(i['n'], K['val'](i['s'], i.get('v')), **kw),
                               promotes=['*'])
            inner.root.add('F', K['F'](cid, c, spec['comps']), promotes=['*'])
            comp = SubProblem(inner, params=[i['n'] for i in c['ins']],
                              unknowns=[o['n'] for o in c['outs']])
            comp.nsolve = 0
        else:
            comp = M.classes()[c['kind']](cid, c, spec['comps'])
        if hookdirs and cid in ps['dirs']:
            comp.directory = ps['dirs'][cid]
            comp.create_dirs = True
        return comp
    p = Problem(root=M.build_group(spec, names, sg, make_comp=mc))
    for d in ps['dv']:
        p.driver.add_desvar(names.at_root(d['c'], d['n']), indices=d['idx'])
    for k, d in enumerate(ps['re']):
        n = names.at_root(d['c'], d['n'])
        if k == 0 and p02.vsize(spec, d) == 1:
            p.driver.add_objective(n, indices=d['idx'])
        else:
            p.driver.add_constraint(n, upper=0.0, indices=d['idx'])
    return p, names


def systems(p):
    """All systems of a problem and of the problems nested in it."""
    out = []
    for s in p.root.subsystems(recurse=True, include_self=True):
        out.append((s.pathname, s))
        q = getattr(s, '_problem', None)
        if q is not None:
            out.extend((s.pathname + '/' + n, t) for n, t in systems(q))
    return out


def solver_options(s, path, out, depth=0):
    from openmdao.solvers.solver_base import SolverBase
    for nm in sorted(s.__dict__):
        v = s.__dict__[nm]
        if isinstance(v, SolverBase) and depth < 3:
            out[path + '.' + nm] = sorted((k, repr(x)) for k, x in v.options.items())
            solver_options(v, path + '.' + nm, out, depth + 1)


def options(p):
    out = {}
    for n, s in systems(p):
        out[n + '.deriv_options'] = sorted((k, repr(v)) for k, v in s.deriv_options.items())
        solver_options(s, n, out)
    out['driver'] = sorted((k, repr(v)) for k, v in p.driver.options.items())
    return out


def values(p):
    """(unknowns, params, residuals) of all systems as copies."""
    un, pa, re_ = {}, {}, {}
    for n, s in systems(p):
        for vec, out in ((s.unknowns, un), (s.params, pa), (s.resids, re_)):
            for v in vec._dat:
                acc = vec._dat[v]
                if acc.remote:
                    continue
                x = acc.val
                out[n, v] = copy.deepcopy(x.val if hasattr(x, 'val') and acc.pbo else x)
    return un, pa, re_


def process_state():
    from openmdao.core.mpi_wrap import MPI
    st = {'directory': os.getcwd(), 'environment': dict(os.environ), 'floating point modes': np.geterr(),
          'stdout': id(sys.stdout), 'stderr': id(sys.stderr), 'sys.path': list(sys.path),
          'recursion limit': sys.getrecursionlimit(), 'excepthook': id(sys.excepthook),
          'MPI': id(MPI), 'umask': _umask(), 'open files': _fds(),
          'random state': repr(np.random.get_state()[1][:3].tolist()) + str(np.random.get_state()[2])}
    return st


def _umask():
    m = os.umask(0)
    os.umask(m)
    return m


def _fds():
    try:
        return sorted(os.readlink('/proc/self/fd/' + f) for f in os.listdir('/proc/self/fd')
                      if not _link(f).startswith('/proc'))
    except OSError:
        return None


def _link(f):
    try:
        return os.readlink('/proc/self/fd/' + f)
    except OSError:
        return '/proc'


def diff_state(a, b):
    return ['%s was %s, is %s' % (k, _short(a[k]), _short(b[k])) for k in sorted(a) if a[k] != b[k]]


def _short(x):
    s = str(x)
    return s if len(s) < 200 else s[:200] + '...'


def cmp_values(a, b, rtol=0.0, atol=0.0):
    """First difference of two value dicts, or None."""
    if sorted(a) != sorted(b):
        return 'other variables: %s' % sorted(set(a) ^ set(b))[:3]
    for k in sorted(a):
        x, y = a[k], b[k]
        try:
            same = np.shape(x) == np.shape(y) and (
                np.array_equal(x, y) if not (rtol or atol) else
                bool(np.allclose(x, y, rtol=rtol, atol=atol)))
        except TypeError:
            same = x == y
        if not same:
            return '%s of system "%s" was %s, is %s' % (k[1], k[0], np.ravel(x).tolist(), np.ravel(y).tolist())
    return None


# ------------------------------------------------------------------ running
class Play(object):
    """One session.  judge: set of judgements to make."""

    def __init__(self, scn, run, job):
        self.scn, self.run, self.job = scn, run, job
        self.calls = 0
        self.armed = None
        self.fired = None
        self.nfault = 0
        self.ncmp = 0
        self.probs = []
        self.quiet = False
        self.depth = 0

    def hook(self, comp, what):
        self.job.kern.event(0, what, comp.pathname)
        if self.quiet:
            return
        self.calls += 1
        if self.armed is not None and self.calls > self.armed['at']:
            f = self.armed
            self.armed = None
            self.nfault += 1
            e = make_exc(f['exc'], self.nfault)
            self.fired = (e, 'sim-fault-%d' % self.nfault, comp.pathname, what)
            self.run.count('fault.user code raises in ' + what)
            self.run.count('fault.raised ' + f['exc'])
            raise e

    def fresh(self, st):
        """What a freshly built problem with these inputs gives."""
        self.quiet = True
        try:
            q, names = build(st['ps'])
            q.setup(check=False)
            for n, v in sorted(st['in'].items()):
                p01.set_indeps(q, st['ps']['spec'], names, {n: v})
            q.run()
            return q
        finally:
            self.quiet = False

    def add(self, ps):
        p, names = build(ps)
        st = {'ps': ps, 'p': p, 'names': names, 'in': {}, 'ref': M.Ref(ps['spec']), 'ran': False,
              'grads_ok': False, 'up': False}
        sp = ps['spec']
        st['exact'] = not p01.iterates(sp) and not ps['usegs'] and ps.get('newt') is None
        st['tol'] = 1e-10 if st['exact'] else 2e-8
        self.probs.append(st)
        return st

    def setup(self, st):
        st['p'].setup(check=False)
        st['up'] = True
        st['ran'] = False
        # initial values come back with a setup
        self.reapply(st)

    def reapply(self, st):
        for n, v in sorted(st['in'].items()):
            p01.set_indeps(st['p'], st['ps']['spec'], st['names'], {n: v})

    def attempt(self, op, fn, tag):
        """Perform an operation with its fault; returns (result, exception)."""
        f = op[-1] if isinstance(op[-1], dict) and 'at' in op[-1] else None
        self.armed, self.calls, self.fired = f, 0, None
        before = process_state()
        err = None
        res = None
        try:
            res = fn()
        except Violation:
            raise
        except BaseException as e:
            if type(e).__name__ in ('SimKilled', 'SimCrash'):
                raise
            err = e
        finally:
            self.armed = None
        after = process_state()
        d = diff_state(before, after)
        if d:
            raise Violation('process-state', '%s %s: %s' % (
                tag, 'failed' if err is not None else 'done', '; '.join(d)))
        if self.fired is None:
            if err is not None:
                import traceback
                tb = ''.join(traceback.format_exception(type(err), err, err.__traceback__))
                raise Violation('exception', '%s raised %s: %s although no fault was injected\n%s' % (
                    tag, type(err).__name__, err, tb[-1500:]))
            return res, None
        inj, token, where, what = self.fired
        at = '%s injected in %s of %s' % (type(inj).__name__, what, where)
        if err is None:
            raise Violation('swallowed', '%s: %s did not reach the caller' % (tag, at))
        if type(err) is not type(inj):
            raise Violation('other-exception', '%s: %s, the caller got %s: %s' % (
                tag, at, type(err).__name__, err))
        if token not in str(err) and token not in repr(err.args):
            raise Violation('other-exception', '%s: %s, the caller got one that says %r' % (
                tag, at, str(err)))
        return None, err

    # -------------------------------------------------------------- judging
    def verify_values(self, st, tag):
        """The values are those of the reference and of a fresh problem."""
        p, ps = st['p'], st['ps']
        ref = st['ref']
        for n, v in st['in'].items():
            ref.set(n, v)
        ref.run()
        self.ncmp += p01.check_values(p, ps['spec'], st['names'], ref, 0, st['tol'], tag)
        q = self.fresh(st)
        a, b = values(q), values(p)
        tol = 0.0 if st['exact'] else st['tol']
        for x, y, what in ((a[0], b[0], 'output'), (a[1], b[1], 'input')):
            d = cmp_values(x, y, tol, tol)
            self.ncmp += len(x)
            if d:
                raise Violation('not-fresh', '%s: a freshly built problem (was) and this one (is) differ in '
                                '%s %s' % (tag, what, d))

    def names_of(self, st):
        return ([st['names'].at_root(d['c'], d['n']) for d in st['ps']['dv']],
                [st['names'].at_root(d['c'], d['n']) for d in st['ps']['re']])

    def grad(self, st, mode, fmt, p=None):
        dv, re_ = self.names_of(st)
        return (p or st['p']).calc_gradient(list(dv), list(re_), mode=mode, return_format=fmt)

    def numeric(self, st, mode):
        ps = st['ps']
        return mode == 'fd' or ps['root'] != 'user' or ps['gfd'] is not None or any(
            c.get('dt') for c in ps['spec']['comps'].values())

    def verify_grad(self, st, J, mode, fmt, tag):
        """The totals are the exact ones and those of a fresh problem."""
        q = self.fresh(st)
        self.quiet = True
        try:
            Jq = self.grad(st, mode, fmt, q)
        finally:
            self.quiet = False
        T = st['ref'].totals()
        num = self.numeric(st, mode)
        r0 = 0
        for of in st['ps']['re']:
            on = st['names'].at_root(of['c'], of['n'])
            c0 = 0
            for wrt in st['ps']['dv']:
                wn = st['names'].at_root(wrt['c'], wrt['n'])
                e = p02.expected(st['ps']['spec'], T, of, wrt)
                g, h = [p03.block(x, ['', fmt], on, wn, r0, c0, e.shape) for x in (J, Jq)]
                self.ncmp += 1
                sc = max(1.0, np.abs(e).max())
                what = '%s: d %s / d %s is %s' % (tag, on, wn, np.asarray(g).tolist())
                if g is None or np.shape(g) != e.shape:
                    raise Violation('wrong-shape', '%s, should have shape %s' % (what, e.shape))
                # numerical derivatives of iterated models are noisy
                ex = 1e-7 if not num else (1e-3 if st['exact'] else 5e-2)
                if not H.close(g, e, ex, ex * sc):
                    raise Violation('wrong-derivative', '%s, exact is %s' % (what, e.tolist()))
                tw = 1e-9 if st['exact'] else (1e-7 if not num else 5e-2)
                if not H.close(g, h, tw, tw * sc):
                    raise Violation('not-fresh', '%s, a freshly built problem gives %s' % (what, h.tolist()))
                c0 += e.shape[1]
            r0 += e.shape[0]


def start(scn, ch, run, body):
    """Run body(play) as one simulated program without MPI in a scratch directory."""
    job = H.Job(dict(scn, nproc=1), ch, run, max_steps=400000)
    play = Play(scn, run, job)
    job.user_hook = play.hook
    top = run.tmp

    def main(rank):
        with H.no_mpi():
            old = os.getcwd()
            os.chdir(top)
            try:
                body(play)
            finally:
                os.chdir(old)
    job.start(main)
    return play, job
