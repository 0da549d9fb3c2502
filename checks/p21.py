"""P21: metamodels under failures and repeated training."""
import os

import numpy as np

from checks import sess
from sim import mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P21'
RULE = ('random metamodels (single and multi-fidelity, scalar and array parameters and outputs, default and own '
        'surrogates, stub and real ones) in random histories: training data in several formats, warm restarts, '
        'runs, set-ups, derivatives, inconsistent data, and exceptions raised before or after any call of any '
        "surrogate's train, predict or linearize; a small reference accumulates the data; judged: the data every "
        'train call gets, how often each surrogate is trained, predictions and derivatives against surrogates '
        'trained once on the reference data, and that an injected failure reaches the caller; non-trivial: a run '
        'was judged after a failed one')
QUICK = (6000, 40)
THOROUGH = (150000, 1500)
COMPONENTS = {'real': 'openmdao.components MetaModel and MultiFiMetaModel in real Problems, surrogate models '
                      '(ResponseSurface, NearestNeighbor, KrigingSurrogate) where drawn, serial vectors and solvers',
              'stub': 'surrogates with a closed form (inverse-distance weights) that record what they are trained '
                      'with; all surrogates sit behind a wrapper that raises when told to'}
ASSUMPTIONS = ['surrogates are deterministic functions of their training data',
               'training happens when the train flag is set, as documented: initially, after set-up, or by the user',
               'every training in warm-restart mode adds the current training data']
FAULTS = tuple('raised ' + e for e in sess.EXC) + (
    'train raises before', 'train raises after', 'predict raises before', 'predict raises after',
    'linearize raises before', 'linearize raises after', 'inconsistent sample counts')
PROBES = ('run after failed training', 'run after failed prediction', 'warm restart', 'multi-fidelity',
          'derivatives', 'real surrogate', 'data changed in place', 'setup after training', 'no retraining',
          'warm restart after failed training', 'empty training data', 'several array params', 'surrogate refuses data',
          'default surrogate of two metamodels')
prepare = H.prepare

FMTS = ['list', 'array', 'arrays', 'ints']
REAL = ['rs', 'nn', 'nnw', 'krig']
CALLS = ['train', 'predict', 'linearize']


def gen(rng, i, tier):
    multi = rng.random() < 0.45
    nfi = rng.choice([1, 2, 2, 3, 4]) if multi else 1
    pars = [['x%d' % k, rng.choice([1, 1, 2, 3, 4])] for k in range(rng.choice([1, 2, 2, 3]))]
    outs = []
    for k in range(rng.choice([1, 2, 2, 3])):
        sz = rng.choice([1, 1, 2, 3, 4])
        kind = rng.choice(REAL) if rng.random() < 0.25 else 'stub'
        if multi and nfi > 1:
            kind = 'stub'
        if kind != 'stub' and kind != 'rs':
            sz = rng.choice([1, 1, 2])
        if kind == 'rs':
            sz = 1
        own = rng.random() < 0.5
        outs.append(['y%d' % k, sz, kind, own])
    # outputs without their own surrogate share the default's kind
    dk = [o[2] for o in outs if not o[3]]
    if dk:
        for o in outs:
            if not o[3]:
                o[2] = 'stub' if any(x[1] > 1 for x in outs if not x[3]) else dk[0]
    ops = []
    if rng.random() < 0.9:
        ops.append(['warm', rng.random() < 0.5])
    ops.append(gen_data(rng, nfi, pars, outs, None))
    for _ in range(rng.randint(3, 10)):
        w = {'data': 3, 'run': 5, 'train': 1, 'warm': 0.6, 'setup': 0.6, 'grad': 1.2, 'bad': 0.7, 'mutate': 0.5, 'other': 0.5}
        k = rng.choices(sorted(w), [w[x] for x in sorted(w)])[0]
        if k == 'data':
            ops.append(gen_data(rng, nfi, pars, outs, rng.randrange(nfi)))
        elif k == 'run':
            ops.append(gen_run(rng, pars, 0.45))
        elif k == 'warm':
            ops.append(['warm', rng.random() < 0.6])
        elif k == 'setup':
            ops.append(['setup'])
            if rng.random() < 0.8:
                ops.append(gen_data(rng, nfi, pars, outs, None))
        elif k == 'grad':
            ops.append(['grad', rng.choice(['fwd', 'rev']), gen_fault(rng, 0.3)])
        elif k == 'bad':
            ops.append(['bad', rng.randrange(len(pars) + len(outs)), rng.randrange(nfi), rng.choice([-1, 1, 2])])
            ops.append(gen_run(rng, pars, 0.1))
            if rng.random() < 0.8:
                ops.append(gen_data(rng, nfi, pars, outs, None))
        elif k == 'mutate':
            ops.append(['mutate', rng.randrange(len(pars) + len(outs))])
        elif k == 'other':
            ops.append(['other', rng.randrange(10 ** 6)])
            if rng.random() < 0.8:
                ops.append(gen_run(rng, pars, 0))
        else:
            ops.append(['train'])
    ops.append(gen_run(rng, pars, 0))
    ops.append(['train'])
    ops.append(gen_run(rng, pars, 0))
    return {'multi': multi, 'nfi': nfi, 'pars': pars, 'outs': outs, 'ops': ops, 'init': rng.random() < 0.3,
            'seed': rng.randrange(10 ** 6)}


def gen_data(rng, nfi, pars, outs, fi):
    """Training data for one level (or all): sample count, format per variable, a seed for the values."""
    fis = range(nfi) if fi is None else [fi]
    return ['data', [[f, rng.choice([1, 2, 3, 4, 5]), [rng.choice(FMTS) for _ in range(len(pars) + len(outs))],
                      rng.randrange(10 ** 6)] for f in fis], rng.random() < 0.9]


def gen_run(rng, pars, fp):
    return ['run', [[round(rng.uniform(-2, 2), 3) for _ in range(sz)] for _, sz in pars], gen_fault(rng, fp)]


def gen_fault(rng, p):
    if rng.random() >= p:
        return None
    return {'call': rng.choice([0, 0, 1, 1, 2, 3, 4, 5]), 'when': rng.choice(['before', 'after']),
            'exc': rng.choice(sess.EXC)}


def shrink(scn):
    ops = scn['ops']
    for i in reversed(range(len(ops))):
        yield dict(scn, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        if o[0] in ('run', 'grad') and o[2]:
            yield dict(scn, ops=ops[:i] + [o[:2] + [None]] + ops[i + 1:])
            if o[2]['exc'] != 'RuntimeError':
                yield dict(scn, ops=ops[:i] + [o[:2] + [dict(o[2], exc='RuntimeError')]] + ops[i + 1:])
        if o[0] == 'data':
            for j, d in enumerate(o[1]):
                if d[1] > 1:
                    yield dict(scn, ops=ops[:i] + [['data', o[1][:j] + [[d[0], d[1] - 1] + d[2:]] + o[1][j + 1:],
                                                    o[2]]] + ops[i + 1:])
    if scn['init']:
        yield dict(scn, init=False)
    if len(scn['outs']) > 1:
        yield dict(scn, outs=scn['outs'][:-1])
    for i, o in enumerate(scn['outs']):
        if o[1] > 1:
            yield dict(scn, outs=scn['outs'][:i] + [[o[0], 1] + o[2:]] + scn['outs'][i + 1:])


class World(object):
    """Where the surrogates of a run report their calls."""

    def __init__(self, run):
        self.run, self.calls, self.fault, self.n, self.fired = run, [], None, 0, None
        self.quiet = False

    def __deepcopy__(self, memo):
        return self

    def arm(self, f):
        self.calls, self.fault, self.n, self.fired = [], f, 0, None

    def enter(self, what):
        k = self.n
        self.n += 1
        if self.fault and self.fault['call'] == k and self.fault['when'] == 'before':
            self.boom(what, 'before')
        return k

    def leave(self, k, what):
        if self.fault and self.fault['call'] == k and self.fault['when'] == 'after':
            self.boom(what, 'after')

    def boom(self, what, when):
        self.run.count('fault.%s raises %s' % (what, when))
        self.run.count('fault.raised ' + self.fault['exc'])
        self.fired = (what, sess.make_exc(self.fault['exc'], self.n))
        self.run.event('fault', what, when, self.fault['exc'])
        raise self.fired[1]


class Idw(object):
    """A surrogate with a closed form: smooth inverse-distance weights, each sample with its own factor."""

    def train_multifi(self, xs, ys):
        self.xs = [np.array(x, dtype=float) for x in xs]
        self.ys = [np.array(y, dtype=float) for y in ys]

    def _eval(self, x):
        x = np.asarray(x, dtype=float).ravel()
        m = self.ys[0].shape[1]
        val, jac = np.zeros(m), np.zeros((m, len(x)))
        for fi, (X, Y) in enumerate(zip(self.xs, self.ys)):
            if not len(X):
                continue
            d = x - X
            w = 1.0 / (1.0 + (d * d).sum(axis=1))
            dw = -2.0 * d * (w * w)[:, None]
            f = 0.5 ** fi * (1.0 + 0.1 * np.arange(len(X)))
            val += (w * f).dot(Y)
            jac += Y.T.dot(dw * f[:, None])
        return val, jac

    def predict(self, x):
        return self._eval(x)[0]

    def linearize(self, x):
        return self._eval(x)[1]


def make_inner(kind):
    from openmdao.surrogate_models.response_surface import ResponseSurface
    from openmdao.surrogate_models.nearest_neighbor import NearestNeighbor
    from openmdao.surrogate_models.kriging import KrigingSurrogate
    if kind == 'stub':
        return Idw()
    if kind == 'rs':
        return ResponseSurface()
    if kind == 'nn':
        return NearestNeighbor(interpolant_type='linear')
    if kind == 'nnw':
        return NearestNeighbor(interpolant_type='weighted')
    return KrigingSurrogate()


def train_inner(inner, xs, ys):
    if hasattr(inner, 'train_multifi'):
        inner.train_multifi(xs, ys)
    else:
        inner.train(xs[0], ys[0])


def make_surrogate(kind, world, multi):
    from openmdao.surrogate_models.surrogate_model import MultiFiSurrogateModel, SurrogateModel

    class Base(object):
        def setup(self):
            self.kind, self.world, self.inner = kind, world, make_inner(kind)

        def do_train(self, xs, ys):
            k = self.world.enter('train')
            self.world.calls.append((kind, [np.array(x, dtype=float) for x in xs],
                                     [np.array(y, dtype=float) for y in ys]))
            self.inner = make_inner(kind)
            train_inner(self.inner, xs, ys)
            self.world.leave(k, 'train')

        def predict(self, x):
            k = self.world.enter('predict')
            r = self.inner.predict(x)
            self.world.leave(k, 'predict')
            return r

        def linearize(self, x):
            k = self.world.enter('linearize')
            r = self.inner.linearize(x)
            self.world.leave(k, 'linearize')
            return r

    if multi:
        class Sur(Base, MultiFiSurrogateModel):
            def __init__(self):
                MultiFiSurrogateModel.__init__(self)
                self.setup()

            def train_multifi(self, xs, ys):
                self.do_train(xs, ys)
    else:
        class Sur(Base, SurrogateModel):
            def __init__(self):
                SurrogateModel.__init__(self)
                self.setup()

            def train(self, x, y):
                self.do_train([x], [y])
    return Sur()


def key(name, fi):
    return 'train:' + name + ('_fi%d' % (fi + 1) if fi else '')


def values(seed, name, n, sz, ints):
    r = np.random.RandomState((seed * 1009 + sum(ord(c) * 31 ** k for k, c in enumerate(name))) % (2 ** 31))
    if ints:
        return r.randint(-6, 7, size=(n, sz)).astype(float)
    return np.round(r.uniform(-2, 2, size=(n, sz)), 3)


def form(val, sz, fmt):
    """The user's training data in one of the accepted formats."""
    if sz == 1:
        if fmt == 'list':
            return [float(v) for v in val[:, 0]]
        if fmt == 'ints':
            return [int(v) for v in val[:, 0]]
        if fmt == 'array':
            return np.array(val[:, 0])
        return [np.array([v]) for v in val[:, 0]]
    if sz == 4:
        # a variable of shape (2, 2)
        val = val.reshape((-1, 2, 2))
    if fmt == 'list':
        return [[float(v) for v in row] if sz < 4 else row.tolist() for row in val]
    if fmt == 'ints':
        return [row.astype(int).tolist() for row in val]
    if fmt == 'array':
        return np.array(val)
    return [np.array(row) for row in val]


def zero(sz):
    return 0.0 if sz == 1 else np.zeros((2, 2) if sz == 4 else sz)


def first(scn, name, sz):
    """Training data given when the variable was declared."""
    if scn['init']:
        v = values(scn['seed'], name, 1 + scn['seed'] % 3, sz, False)
        return v, form(v, sz, FMTS[scn['seed'] % 3])
    return np.zeros((0, sz)), None


class Ref(object):
    """What the metamodel has been told."""

    def __init__(self, scn):
        self.scn = scn
        self.names = [tuple(p[:2]) for p in scn['pars']] + [tuple(o[:2]) for o in scn['outs']]
        self.cur = {}
        self.acc = None
        self.train = True
        self.warm = False
        self.blank()

    def blank(self):
        for n, sz in self.names:
            for fi in range(self.scn['nfi']):
                self.cur[n, fi] = np.zeros((0, sz)) if fi else first(self.scn, n, sz)[0]

    def consistent(self):
        return all(len(set(len(self.cur[n, fi]) for n, _ in self.names)) == 1 for fi in range(self.scn['nfi']))

    def next(self):
        """The data a training now would use: {name: [per level]}."""
        d = {}
        for n, sz in self.names:
            d[n] = []
            for fi in range(self.scn['nfi']):
                new = self.cur[n, fi]
                if self.warm and self.acc is not None:
                    new = np.vstack([self.acc[n][fi], new])
                d[n].append(new)
        return d

    def xs(self, d):
        return [np.hstack([d[n][fi] for n, _ in self.scn['pars']]) for fi in range(self.scn['nfi'])]


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


def close(a, b, tol):
    a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)


def brief(xs):
    return [x.tolist() for x in xs]


def execute(scn, ch, run):
    def body(play):
        session(scn, run)
    sess.start(dict(scn, nproc=1, stall=0, sticky=0, send=0), ch, run, body)


def build(scn, world):
    from openmdao.api import ExecComp, Group, IndepVarComp, MetaModel, MultiFiMetaModel, Problem
    p = Problem(root=Group())
    mm = MultiFiMetaModel(nfi=scn['nfi']) if scn['multi'] else MetaModel()
    dk = None
    for n, sz in scn['pars']:
        mm.add_param(n, val=zero(sz), training_data=first(scn, n, sz)[1])
    for n, sz, kind, own in scn['outs']:
        if own:
            mm.add_output(n, zero(sz), training_data=first(scn, n, sz)[1],
                          surrogate=make_surrogate(kind, world, scn['multi']))
        else:
            dk = kind
            mm.add_output(n, zero(sz), training_data=first(scn, n, sz)[1])
    if dk is not None:
        mm.default_surrogate = make_surrogate(dk, world, scn['multi'])
    for n, sz in scn['pars']:
        p.root.add('p_' + n, IndepVarComp(n, zero(sz)))
        p.root.connect('p_%s.%s' % (n, n), 'mm.' + n)
    p.root.add('mm', mm)
    p.setup(check=False)
    return p, mm


def another(scn, surrogate, seed):
    from openmdao.api import Group, IndepVarComp, MetaModel, MultiFiMetaModel, Problem
    p = Problem(root=Group())
    mm = p.root.add('mm', MultiFiMetaModel(nfi=scn['nfi']) if scn['multi'] else MetaModel())
    mm.default_surrogate = surrogate
    mm.add_param('a', 0.0)
    mm.add_output('b', 0.0)
    p.root.add('i', IndepVarComp('a', 0.3))
    p.root.connect('i.a', 'mm.a')
    p.setup(check=False)
    for n in 'ab':
        for fi in range(scn['nfi']):
            p['mm.' + key(n, fi)] = values(seed + fi, n, 5, 1, False)[:, 0]
    p.run()


def session(scn, run):
    world = World(run)
    p, mm = build(scn, world)
    ref = Ref(scn)
    trained = None
    x = None
    ok = False
    state = {'failed': None, 'judged': 0, 'clean': 0}
    user = {}
    hist = []

    def setinputs(xin):
        for (n, sz), v in zip(scn['pars'], xin):
            p['p_%s.%s' % (n, n)] = v[0] if sz == 1 else np.array(v).reshape(np.shape(zero(sz)))

    def fresh():
        """Surrogates trained once on the reference data: {output: (object or None, exception)}."""
        r = {}
        for n, sz, kind, own in scn['outs']:
            s = make_inner(kind)
            try:
                train_inner(s, ref.xs(ref.acc), ref.acc[n])
                r[n] = (s, None)
            except Exception as e:
                r[n] = (None, e)
        return r

    def refuses(d):
        for n, sz, kind, own in scn['outs']:
            if kind != 'stub':
                try:
                    train_inner(make_inner(kind), ref.xs(d), d[n])
                except Exception as e:
                    return e

    def check_trains(expect, complete, where):
        """expect: the data of a training that has taken place, or None; complete: every output."""
        if expect is None:
            if world.calls:
                raise Violation('extra-training', '%s: surrogates were trained although no training was due' % where)
            return
        X = ref.xs(expect)
        left = [n for n, _, _, _ in scn['outs']]
        for kind, xs, ys in world.calls:
            if not same(xs, X):
                raise Violation('training-input', '%s: a surrogate was trained with inputs %s; the metamodel was '
                                'given %s' % (where, brief(xs), brief(X)))
            for n in left:
                if same(ys, expect[n]):
                    left.remove(n)
                    break
            else:
                raise Violation('training-output', '%s: a surrogate was trained with outputs %s; the data not yet '
                                'used are %s' % (where, brief(ys), {n: brief(expect[n]) for n in left}))
        if complete and left:
            raise Violation('not-trained', '%s: no surrogate was trained for %s' % (where, left))

    def attempt(fn):
        try:
            fn()
            return None
        except Violation:
            raise
        except BaseException as e:
            if type(e).__name__ in ('CpuLimit', 'Crashed', 'SimStop'):
                raise
            return e

    for op in scn['ops']:
        hist.append(op[0])
        where = 'after ' + ' '.join(hist)
        if op[0] == 'warm':
            mm.warm_restart = ref.warm = op[1]
        elif op[0] == 'train':
            mm.train = True
            ref.train = True
        elif op[0] == 'data':
            for fi, n, fmts, seed in op[1]:
                for (name, sz), fmt in zip(ref.names, fmts):
                    v = values(seed, name, n, sz, fmt == 'ints')
                    u = form(v, sz, fmt)
                    p['mm.' + key(name, fi)] = u
                    user[name, fi] = u
                    ref.cur[name, fi] = v
            if op[2]:
                mm.train = True
                ref.train = True
        elif op[0] == 'bad':
            name, sz = ref.names[op[1] % len(ref.names)]
            n = max(0, len(ref.cur[name, op[2]]) + op[3])
            v = values(7, name, n, sz, False)
            p['mm.' + key(name, op[2])] = form(v, sz, 'list')
            user.pop((name, op[2]), None)
            ref.cur[name, op[2]] = v
            mm.train = True
            ref.train = True
        elif op[0] == 'setup':
            p.setup(check=False)
            if trained is not None:
                run.count('probe.setup after training')
            ref.blank()
            ref.train = True
            ok = False
            user.clear()
        elif op[0] == 'other':
            # another metamodel of the program is given the same default surrogate and trained with other data
            if mm.default_surrogate is not None:
                world.arm(None)
                e = attempt(lambda: another(scn, mm.default_surrogate, op[1]))
                if e is not None:
                    raise Violation('run-raises', '%s: another metamodel raised %r' % (where, e))
                run.count('probe.default surrogate of two metamodels')
        elif op[0] == 'mutate':
            # the caller's training data change in place between two runs and change back: no training is due,
            # so predictions may not move
            if not ok or ref.train or x is None:
                continue
            name, sz = ref.names[op[1] % len(ref.names)]
            u = user.get((name, 0))
            if not isinstance(u, (list, np.ndarray)) or not len(u):
                continue
            before = {o[0]: np.array(p['mm.' + o[0]]) for o in scn['outs']}
            old = np.array(u[0], copy=True) if isinstance(u[0], np.ndarray) else u[0]
            inner = isinstance(u[0], np.ndarray)
            if inner:
                u[0][...] = 99.0
            elif isinstance(u[0], list):
                old = list(u[0])
                u[0][:] = [99.0] * sz if sz < 4 else [[99.0] * 2] * 2
            else:
                u[0] = 99.0
            world.arm(None)
            e = attempt(p.run)
            if inner:
                u[0][...] = old
            elif isinstance(u[0], list):
                u[0][:] = old
            else:
                u[0] = old
            if e is not None:
                raise Violation('run-raises', '%s: a run without a fault raised %r' % (where, e))
            run.count('probe.data changed in place')
            check_trains(None, True, where)
            for n, v in before.items():
                if not close(p['mm.' + n], v, 0):
                    raise Violation('prediction-aliased', '%s: the prediction %s changed from %s to %s when the '
                                    'caller changed the array it had passed as training data, without a training'
                                    % (where, n, v, p['mm.' + n]))
        elif op[0] == 'run':
            x = op[1]
            setinputs(x)
            world.arm(op[2])
            due = ref.train
            nxt = ref.next() if due and ref.consistent() else None
            refuse = refuses(nxt) if nxt is not None else None
            e = attempt(p.run)
            ok = False
            run.event('run', due, type(e).__name__)
            if due and nxt is None:
                if e is None:
                    raise Violation('inconsistent-accepted', '%s: training data with differing sample counts %s '
                                    'were accepted' % (where, {n: len(v) for n, v in sorted(ref.cur.items())}))
                if world.calls and world.fired is None:
                    raise Violation('inconsistent-trained', '%s: surrogates were trained with data of differing '
                                    'sample counts' % where)
                run.count('fault.inconsistent sample counts')
                if not isinstance(e, RuntimeError) or 'number of training points' not in str(e):
                    raise Violation('inconsistent-message', '%s: inconsistent training data are reported as %r'
                                    % (where, e))
                state['failed'] = 'training'
                continue
            if world.fired is not None:
                what, exc = world.fired
                if e is None:
                    raise Violation('failure-lost', '%s: %s raised %r, but the run returned normally'
                                    % (where, what, exc))
                if type(e) is not type(exc) or str(exc) not in str(e):
                    raise Violation('failure-changed', '%s: %s raised %r, but the run raised %r'
                                    % (where, what, exc, e))
                if what == 'train':
                    check_trains(nxt, False, where)
                    state['failed'] = 'training'
                else:
                    check_trains(nxt, True, where)
                    if due:
                        ref.acc, ref.train, trained = nxt, False, True
                    state['failed'] = 'prediction'
                continue
            if refuse is not None:
                run.count('probe.surrogate refuses data')
                if e is None:
                    raise Violation('refusal-lost', '%s: a surrogate refuses the training data (%r), but the run '
                                    'returned normally' % (where, refuse))
                if type(e) is not type(refuse):
                    raise Violation('refusal-changed', '%s: a surrogate refuses the training data with %r, but the '
                                    'run raised %r' % (where, refuse, e))
                state['failed'] = 'training'
                continue
            if due:
                if e is None:
                    check_trains(nxt, True, where)
                ref_acc = nxt
            else:
                if e is None:
                    check_trains(None, True, where)
                ref_acc = ref.acc
            keep, ref.acc = ref.acc, ref_acc
            want, bad = {}, None
            if ref_acc is not None:
                f = fresh()
                xv = np.array([a for v in x for a in v])
                for n, sz, kind, own in scn['outs']:
                    try:
                        want[n] = f[n][0].predict(np.array(xv))
                    except Exception as ee:
                        bad = bad or ee
            if bad is not None:
                if e is None or type(e) is not type(bad):
                    raise Violation('refusal-changed', '%s: a surrogate trained on the accumulated data raises %r, '
                                    'but the run gave %r' % (where, bad, e))
                run.count('probe.surrogate refuses data')
                if due:
                    ref.train, trained = False, True
                state['failed'] = 'prediction'
                continue
            if e is not None:
                raise Violation('run-raises', '%s: a run without a fault raised %r' % (where, e))
            if due:
                ref.train, trained = False, True
            else:
                run.count('probe.no retraining')
            for n, sz, kind, own in scn['outs']:
                if kind != 'stub':
                    run.count('probe.real surrogate')
                if not close(p['mm.' + n], want[n], 1e-10 if kind == 'stub' else 1e-6):
                    raise Violation('prediction', '%s: %s = %s; a surrogate trained once on the accumulated data '
                                    'predicts %s' % (where, n, p['mm.' + n], want[n]))
            ok = True
            state['clean'] += 1
            if state['failed']:
                run.count('probe.run after failed ' + state['failed'])
                if ref.warm and state['failed'] == 'training':
                    run.count('probe.warm restart after failed training')
                run.nontrivial = True
                state['failed'] = None
            if due and ref.warm and keep is not None:
                run.count('probe.warm restart')
            if due and not sum(len(a) for a in ref.xs(ref.acc)):
                run.count('probe.empty training data')
            if scn['nfi'] > 1:
                run.count('probe.multi-fidelity')
            if sum(1 for q in scn['pars'] if q[1] > 1) > 1:
                run.count('probe.several array params')
        elif op[0] == 'grad':
            if not ok or ref.train:
                continue
            kinds = set(o[2] for o in scn['outs'])
            if kinds - {'stub', 'rs', 'krig'}:
                continue
            world.arm(op[2])
            res = {}

            def go():
                res['J'] = p.calc_gradient(['p_%s.%s' % (n, n) for n, _ in scn['pars']],
                                           ['mm.' + o[0] for o in scn['outs']], mode=op[1], return_format='dict')
            f = fresh()
            xv = np.array([a for v in x for a in v])
            want, bad = {}, None
            for n, sz, kind, own in scn['outs']:
                try:
                    want[n] = np.asarray(f[n][0].linearize(np.array(xv))).reshape(sz, len(xv))
                except Exception as ee:
                    bad = bad or ee
            e = attempt(go)
            check_trains(None, True, where)
            if world.fired is not None:
                what, exc = world.fired
                if e is None:
                    raise Violation('failure-lost', '%s: %s raised %r, but the derivatives returned normally'
                                    % (where, what, exc))
                state['failed'] = 'prediction'
                continue
            if bad is not None:
                continue
            if e is not None:
                raise Violation('grad-raises', '%s: derivatives without a fault raised %r' % (where, e))
            run.count('probe.derivatives')
            for n, sz, kind, own in scn['outs']:
                i = 0
                for q, qs in scn['pars']:
                    J = res['J']['mm.' + n]['p_%s.%s' % (q, q)]
                    if not close(J, want[n][:, i:i + qs], 1e-8 if kind == 'stub' else 1e-5):
                        raise Violation('derivative', '%s: d%s/d%s = %s; a surrogate trained once on the '
                                        'accumulated data has %s' % (where, n, q, J, want[n][:, i:i + qs]))
                    i += qs
    run.key = '%d %d %d %s' % (scn['nfi'], len(scn['pars']), len(scn['outs']), ' '.join(hist))
    run.sample = 'history: ' + ' '.join(hist)
