"""P22: problems are isolated and their results independent of history."""
import contextlib
import io

from checks import p01, p02, sess
from sim import models as M, mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P22'
RULE = ('two or three random problems of one program (groups, cycles, numerical derivatives, nested '
        'problems, directories) in interleaved sessions: inputs, runs, totals, derivative checks, set-ups, '
        'options changed for an operation and changed back, operations that fail by injected exceptions, a '
        'problem run from inside user code of another one, and problems run at once by disjoint groups of '
        'simulated MPI ranks under scheduler control; judged: results equal the reference and those of a '
        'freshly built problem, and no operation changes any value or option of another problem; '
        'non-trivial: operations on two problems alternated')
QUICK = (1700, 45)
THOROUGH = (50000, 1500)
COMPONENTS = H.COMPONENTS
ASSUMPTIONS = ['user components do not share state with each other',
               'models have one solution, so the result does not depend on where an iteration starts',
               'a problem is set up before the next one is built: known finding P22-K1']
FAULTS = tuple('raised ' + e for e in sess.EXC) + (
    'user code raises in solve_nonlinear', 'user code raises in solve_nonlinear.end',
    'user code raises in linearize', 'user code raises in apply_nonlinear',
    'user code raises in solve_linear', 'slow component')
PROBES = ('other problems unchanged', 'option changed and undone', 'run inside another problem',
          'setup after use', 'failed operation', 'disjoint communicators', 'run after another problem failed',
          'linear history compared')
prepare = H.prepare
DIRECTED = [{'directed': 'P22-K1', 'salts': None}]

W = {'set': 2, 'run': 4, 'grad': 3, 'cpart': 0.7, 'ctot': 0.5, 'setup': 1, 'opt': 1.2, 'nest': 1}


def gen(rng, i, tier):
    if rng.random() < 0.2:
        return gen_mpi(rng)
    probs = [sess.gen_problem(rng, size=rng.choice([3, 3, 4, 5, 7]), newt=0.5) for _ in range(rng.choice([2, 2, 3]))]
    if rng.random() < 0.3:
        # two instances of the same model
        probs[1] = probs[0]
    ops = []
    if rng.random() < 0.5:
        # each problem runs once before the others exist
        order = 'lazy'
    else:
        order = 'first'
    n = rng.randint(4, 9)
    for _ in range(n):
        k = rng.randrange(len(probs))
        if rng.random() < W['nest'] / sum(W.values()):
            m = rng.choice([x for x in range(len(probs)) if x != k])
            op = ['nest', k, m, rng.choice([0, 1, 2, 3, 5, 8, 13])]
        else:
            w = {a: b for a, b in W.items() if a != 'nest'}
            op = sess.gen_op(rng, k, probs[k], w, 0.25)
        ops.append(op)
    for k in range(len(probs)):
        ops.append(['run', k])
    ops.append(['grad', rng.randrange(len(probs)), rng.choice(['fwd', 'rev']), 'dict'])
    return {'probs': probs, 'ops': ops, 'order': order, 'salts': rng.randrange(1, 10 ** 6)}


def gen_mpi(rng):
    parts = []
    tot = 0
    for _ in range(2):
        while True:
            spec = M.gen(rng, ncomp=rng.choice([3, 5, 7]), ngroup=rng.choice([0, 1, 2]),
                         pg=rng.choice([0, 0.4]), cyc=rng.choice([0, 0.2]), implicit=rng.choice([0, 0.3]))
            if p02.consumed(spec) and p02.responses(spec):
                break
        mx = H.maxprocs(spec)
        n = rng.randint(1, min(3, mx))
        tot += n
        dv = p02.pick(rng, p02.consumed(spec), True)
        re_ = p02.pick(rng, p02.responses(spec), True)
        ops = [rng.choice(['run', 'run', 'grad', 'setup']) for _ in range(rng.randint(1, 4))]
        parts.append({'spec': spec, 'n': n, 'ops': ops, 'dv': dv, 're': re_,
                      'nl': rng.choice(['once', 'gs']), 'cycnl': rng.choice(['gs', 'aitken', 'newton']),
                      'ln': 'lngs', 'ins': [
                          {a: [round(rng.uniform(-2, 2), 3) for _ in range(sz)]
                           for a, sz in p01.indep_names(spec)} for _ in ops]})
    scn = dict(H.knobs(rng, tot), parts=parts)
    scn['nproc'] = tot
    scn['color'] = [k for k, x in enumerate(parts) for _ in range(x['n'])]
    rng.shuffle(scn['color'])
    return scn


def shrink(scn):
    if 'parts' not in scn:
        for s in sess.shrink(scn):
            for o in s['ops']:
                if o[0] == 'nest' and (o[2] >= len(s['probs']) or o[1] == o[2]):
                    break
            else:
                yield s
        return
    for key in ('salts', 'stall', 'sticky', 'send'):
        if scn.get(key):
            yield dict(scn, **{key: 0 if key != 'salts' else None})
    for k, x in enumerate(scn['parts']):
        def put(y):
            return dict(scn, parts=scn['parts'][:k] + [y] + scn['parts'][k + 1:])
        if x['n'] > 1:
            s = put(dict(x, n=x['n'] - 1))
            c = list(s['color'])
            c.remove(k)
            yield dict(s, color=c, nproc=s['nproc'] - 1)
        for j in range(len(x['ops'])):
            yield put(dict(x, ops=x['ops'][:j] + x['ops'][j + 1:], ins=x['ins'][:j] + x['ins'][j + 1:]))
        for s in M.shrinks(x['spec']):
            if p02.valid(s, x) and H.maxprocs(s) >= x['n']:
                ok = dict(p01.indep_names(s))
                yield put(dict(x, spec=s, ins=[{a: v for a, v in i.items() if ok.get(a) == len(v)}
                                               for i in x['ins']]))


def locking(scn, ch, run):
    """Setting up one problem must not change what may be done with another."""
    from checks.p17 import _PS

    def body(play):
        a, _ = sess.build(_PS)
        b, names = sess.build(_PS)
        a.setup(check=False)
        try:
            b.root.deriv_options['type'] = 'fd'
        except RuntimeError as e:
            raise Violation('locked-by-other', 'the set-up of one problem keeps another one, which is not '
                            'set up, from being configured: %s' % e)
        b.setup(check=False)
        b.run()
    sess.start(scn, ch, run, body)


def execute(scn, ch, run):
    if scn.get('directed') == 'P22-K1':
        return locking(scn, ch, run)
    if 'parts' in scn:
        return execute_mpi(scn, ch, run)
    rec = {'others': 0, 'alt': 0}

    def snap(st):
        return sess.values(st['p']) + (sess.options(st['p']),)

    def same(st, before, tag):
        after = snap(st)
        for a, b, what in zip(before, after, ('output', 'input', 'residual')):
            d = sess.cmp_values(a, b)
            rec['others'] += len(a)
            if d:
                raise Violation('other-problem', '%s changed %s %s' % (tag, what, d))
        for k in sorted(before[3]):
            if before[3][k] != after[3].get(k):
                raise Violation('other-problem', '%s changed options %s from %s to %s' % (
                    tag, k, before[3][k], after[3].get(k)))

    def body(play):
        sts = [None] * len(scn['probs'])

        def make(k):
            if sts[k] is None:
                st = sts[k] = play.add(scn['probs'][k])
                play.setup(st)
                st['dirty'] = True
                st['used'] = st['failed'] = False
        if scn['order'] == 'first':
            for k in range(len(sts)):
                make(k)
        last = None
        anyfail = False
        for j, op in enumerate(scn['ops']):
            make(op[1])
            if op[0] == 'nest':
                make(op[2])
            st = sts[op[1]]
            tag = 'operation %d (%s of problem %d)' % (j, op[0], op[1])
            touched = [op[1]] + ([op[2]] if op[0] == 'nest' else [])
            others = [(k, s, snap(s)) for k, s in enumerate(sts) if s is not None and k not in touched]
            mine = [(k, sts[k]['p'], sess.options(sts[k]['p'])) for k in touched if op[0] not in ('set', 'setup')]
            one(play, sts, st, op, tag, anyfail)
            for k, q, b in mine:
                a = sess.options(q)
                for x in sorted(b):
                    if b[x] != a.get(x):
                        raise Violation('option-changed', '%s: %s of problem %d was %s, is %s' % (
                            tag, x, k, b[x], a.get(x)))
                rec['others'] += len(b)
            anyfail = anyfail or st['failed']
            for k, s, b in others:
                same(s, b, '%s, on problem %d:' % (tag, k))
                run.count('probe.other problems unchanged')
            if last is not None and last != op[1]:
                rec['alt'] += 1
            last = op[1]
        for st in sts:
            if st is not None:
                st['p'].cleanup()

    def torun(play, st, tag):
        if st['dirty']:
            play.reapply(st)
            st['p'].run()
            play.verify_values(st, tag + ' with a run before it')
            st['dirty'] = False

    def one(play, sts, st, op, tag, anyfail):
        ps, p = st['ps'], st['p']
        if op[0] == 'set':
            st['in'].update(op[2])
            play.reapply(st)
            st['dirty'] = True
        elif op[0] == 'setup':
            play.setup(st)
            st['dirty'] = True
            if st['used']:
                run.count('probe.setup after use')
        elif op[0] == 'run':
            play.reapply(st)
            _, err = play.attempt(op, p.run, tag)
            st['dirty'] = st['failed'] = err is not None
            if err is None:
                play.verify_values(st, tag)
                st['used'] = True
                if anyfail:
                    run.count('probe.run after another problem failed')
        elif op[0] == 'nest':
            inner = sts[op[2]]
            play.reapply(st)
            done = []
            kh = play.hook

            def hook(comp, what):
                kh(comp, what)
                if not done and play.calls > op[3] and not play.quiet:
                    done.append(1)
                    play.quiet = True
                    try:
                        play.reapply(inner)
                        inner['p'].run()
                        play.verify_values(inner, tag + ', the problem inside')
                    finally:
                        play.quiet = False
            M.HOOK[0] = hook
            try:
                play.attempt(op, p.run, tag)
            finally:
                M.HOOK[0] = play.hook
            play.verify_values(st, tag)
            st['dirty'] = st['failed'] = False
            if done:
                inner['dirty'] = False
                run.count('probe.run inside another problem')
        elif op[0] == 'opt':
            torun(play, st, tag)
            undo = change(p, op[2])
            # an operation with other options, whatever it gives
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    if op[3] == 'run':
                        play.attempt(op, p.run, tag)
                    else:
                        play.attempt(op, lambda: play.grad(st, 'auto' if ps['root'] != 'user' else 'fwd',
                                                           'dict'), tag)
                finally:
                    undo()
            st['dirty'] = True
            run.count('probe.option changed and undone')
        else:
            torun(play, st, tag)
            total = True
            if op[0] == 'grad':
                mode = op[2] if ps['root'] == 'user' or op[2] == 'fd' else 'auto'
                total = mode == 'fd' or ps['root'] != 'user'
                J, err = play.attempt(op, lambda: play.grad(st, mode, op[3]), tag)
                if err is None:
                    play.verify_grad(st, J, mode, op[3], tag)
                    run.count('probe.linear history compared', int(not total))
            elif op[0] == 'cpart':
                total = False
                comps = [s.pathname for s in p.root.components(recurse=True)
                         if op[2] == 'fd' or not hasattr(s, '_problem')]
                _, err = play.attempt(op, lambda: p.check_partial_derivatives(
                    out_stream=None, comps=comps,
                    global_options={'check_form': op[3], 'check_type': op[2]}), tag)
            else:
                if ps['root'] != 'user':
                    fn = lambda: play.grad(st, 'auto', 'dict')
                else:
                    fn = lambda: p.check_total_derivatives(out_stream=None)
                _, err = play.attempt(op, fn, tag)
            if total or err is not None:
                st['dirty'] = True
            st['failed'] = err is not None
        if st['failed']:
            run.count('probe.failed operation')

    play, job = sess.start(scn, ch, run, body)
    run.count('values compared', play.ncmp + rec['others'])
    run.key = p01.hash_key(scn)
    run.nontrivial = rec['alt'] > 0 and rec['others'] > 0
    run.sample = {'problems': [[c for c, _ in M.walk(ps['spec'])] for ps in scn['probs']],
                  'nested': [ps['sub'] for ps in scn['probs']], 'ops': scn['ops']}


def change(p, n):
    """Change some solver option that may be changed at any time; returns what undoes it."""
    from openmdao.solvers.solver_base import SolverBase
    found = []

    def rec(owner, path, depth):
        for nm in sorted(owner.__dict__):
            s = owner.__dict__[nm]
            if isinstance(s, SolverBase) and depth < 3:
                found.append(s)
                rec(s, path + '.' + nm, depth + 1)
    for n_, s in sess.systems(p):
        rec(s, n_, 0)
    s = found[n % len(found)]
    new = [('maxiter', 1), ('iprint', 2), ('atol', 1e-2), ('rtol', 1e-2), ('use_aitken', True),
           ('aitken_alpha_min', 0.2), ('alpha', 0.5), ('utol', 1e-3)]
    new = [(k, v) for k, v in new if k in s.options._options]
    k, v = new[(n // len(found)) % len(new)]
    old = s.options[k]
    s.options[k] = v

    def undo():
        s.options[k] = old
    return undo


def execute_mpi(scn, ch, run):
    job = H.Job(scn, ch, run)
    n = [0]

    def body(rank):
        from mpi4py import MPI
        from openmdao.api import Problem
        from openmdao.core.petsc_impl import PetscImpl
        k = scn['color'][rank]
        comm = MPI.COMM_WORLD.Split(k, rank)
        x = scn['parts'][k]
        spec = x['spec']
        names = M.Names(spec)
        ref = M.Ref(spec)
        tol = 2e-8 if p01.iterates(spec) else 1e-10
        p = Problem(root=M.build_group(spec, names, p01.setup_group(x)), impl=PetscImpl, comm=comm)
        dv = [names.at_root(d['c'], d['n']) for d in x['dv']]
        re_ = [names.at_root(d['c'], d['n']) for d in x['re']]
        for d, nm in zip(x['dv'], dv):
            p.driver.add_desvar(nm, indices=d['idx'])
        for d, nm in zip(x['re'], re_):
            p.driver.add_constraint(nm, upper=0.0, indices=d['idx'])
        p.setup(check=False)
        p.run()
        ref.run()
        n[0] += p01.check_values(p, spec, names, ref, rank, tol, 'problem %d, first run' % k)
        for j, (op, ins) in enumerate(zip(x['ops'], x['ins'])):
            tag = 'problem %d, operation %d (%s)' % (k, j, op)
            if op == 'setup':
                p.setup(check=False)
            p01.set_indeps(p, spec, names, ins, ref)
            for a, v in ins.items():
                ref.set(a, v)
            p.run()
            ref.run()
            n[0] += p01.check_values(p, spec, names, ref, rank, tol, tag)
            if op == 'grad':
                J = p.calc_gradient(list(dv), list(re_), mode='fwd', return_format='dict')
                T = ref.totals()
                for of, on in zip(x['re'], re_):
                    for wrt, wn in zip(x['dv'], dv):
                        e = p02.expected(spec, T, of, wrt)
                        g = J[on][wn]
                        n[0] += 1
                        if not H.close(g, e, 1e-6, 1e-6 * max(1.0, abs(e).max())):
                            raise Violation('wrong-derivative', '%s: d %s / d %s is %s, exact is %s' % (
                                tag, on, wn, g, e.tolist()))
        p.cleanup()
    job.start(body)
    run.count('values compared', n[0])
    run.count('probe.disjoint communicators')
    run.key = p01.hash_key(scn)
    run.nontrivial = len(set(scn['color'])) > 1
    run.sample = {'ranks': scn['color'], 'ops': [x['ops'] for x in scn['parts']]}
