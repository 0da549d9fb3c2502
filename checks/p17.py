"""P17: computing derivatives leaves the model as it was."""
from checks import p01, sess
from sim import mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P17'
RULE = ('random models (groups, parallel groups, implicit components, cycles, numerical derivatives at '
        'components, groups and the root, nested problems, directories) in sessions of runs and derivative '
        'computations of all kinds (totals in four modes, partial and total checks), with user code raising '
        'one of twelve exception types at a chosen call; judged: all values, option settings and modes after '
        'a derivative computation against those before it, and later runs and derivatives against the '
        'reference and a freshly built problem; non-trivial: a derivative computation was compared and '
        'something ran after it')
QUICK = (2000, 45)
THOROUGH = (50000, 1500)
COMPONENTS = {'real': ['openmdao (all of it, from /repo)', 'numpy', 'scipy', 'networkx'],
              'stub': ['set iteration order: sim/hashorder.py', 'user components: sim/models.py']}
ASSUMPTIONS = ['user code raises; it does not damage its own objects',
               'values are compared with a tolerance of 1e-12, as a step that is added and subtracted rounds']
FAULTS = tuple('raised ' + e for e in sess.EXC) + (
    'user code raises in solve_nonlinear', 'user code raises in solve_nonlinear.end',
    'user code raises in linearize', 'user code raises in apply_nonlinear',
    'user code raises in solve_linear')
PROBES = ('fd totals', 'analytic totals', 'partials checked', 'totals checked', 'failed and unchanged',
          'run after derivatives', 'derivatives after a failed computation', 'model finite differenced inside')
NOTE = ('after a finite difference of the whole model the inputs of components are left perturbed: known '
        'finding P17-K1, so these are compared only in the directed scenario')
prepare = H.prepare
_PS = {'spec': {'tree': {'g': 0, 'kind': 'G', 'subs': ['c1', 'c2'], 'cyc': False}, 'comps': {
    'c1': {'kind': 'P', 'ins': [], 'outs': [{'n': 'y1', 's': [2], 'u': None, 'v': [0.5, 1.25]}], 'seed': 1},
    'c2': {'kind': 'F', 'ins': [{'n': 'x1', 's': [2], 'u': None, 'src': ['c1', 0], 'idx': None, 'how': 'c'}],
           'outs': [{'n': 'y2', 's': [1], 'u': None}], 'seed': 2}}},
    'root': 'user', 'gfd': None, 'sub': [], 'dirs': {}, 'ln': {'0': 'lngs'}, 'nl': {'0': 'gs'},
    'usegs': False, 'dv': [{'c': 'c1', 'n': 'y1', 'idx': None}],
    're': [{'c': 'c2', 'n': 'y2', 'idx': None}]}
DIRECTED = [{'probs': [_PS], 'salts': None, 'ops': [['grad', 0, 'fd', 'dict']], 'directed': 'P17-K1'}]


def gen(rng, i, tier):
    ps = sess.gen_problem(rng, fd=0.5)
    scn = {'probs': [ps], 'salts': rng.randrange(1, 10 ** 6)}
    ops = []
    if rng.random() < 0.3:
        ops.append(['set', 0, sess.rand_set(rng, ps)])
    for _ in range(rng.randint(2, 6)):
        ops.append(sess.gen_op(rng, 0, ps, {'set': 1, 'run': 1, 'grad': 6, 'cpart': 2, 'ctot': 1.5}, 0.4))
    ops += [['grad', 0, rng.choice(['fwd', 'rev', 'auto']), rng.choice(['dict', 'array'])], ['run', 0]]
    scn['ops'] = ops
    return scn


shrink = sess.shrink
TOL = 1e-12


def modes(p):
    out = {}
    for n, s in sess.systems(p):
        d = getattr(s, '_probdata', None)
        if d is not None:
            out[n] = (d.in_complex_step, d.precon_level)
    return out


def state(st):
    un, pa, re_ = sess.values(st['p'])
    # what a nested problem holds follows from the inputs of its component
    un, pa = [{k: v for k, v in x.items() if '/' not in k[0]} for x in (un, pa)]
    re_ = {k: v for k, v in re_.items() if '/' not in k[0]}
    return (un, pa, re_), sess.options(st['p']), modes(st['p'])


def compare(before, after, tag, params):
    (un, pa, re_), op, mo = before
    (un2, pa2, re2), op2, mo2 = after
    d = sess.cmp_values(un, un2, TOL, TOL)
    if d:
        raise Violation('output-changed', '%s: %s' % (tag, d))
    if params:
        d = sess.cmp_values(pa, pa2, TOL, TOL)
        if d:
            raise Violation('input-changed', '%s: %s' % (tag, d))
        d = sess.cmp_values(re_, re2, TOL, TOL)
        if d:
            raise Violation('residual-changed', '%s: %s' % (tag, d))
    for a, b, what in ((op, op2, 'option'), (mo, mo2, 'mode')):
        for k in sorted(a):
            if a[k] != b.get(k):
                raise Violation(what + '-changed', '%s: %s was %s, is %s' % (tag, k, a[k], b.get(k)))
    return len(un) + len(pa) + len(op) + len(mo)


def execute(scn, ch, run):
    rec = {'cmp': 0, 'after': 0}

    def body(play):
        st = play.add(scn['probs'][0])
        ps = st['ps']
        play.setup(st)
        st['dirty'] = True       # inputs set or left perturbed: run before anything else
        failed = False

        def torun(tag):
            if st['dirty']:
                play.reapply(st)
                st['p'].run()
                play.verify_values(st, tag + ' with a run before it')
                st['dirty'] = False
        for j, op in enumerate(scn['ops']):
            tag = 'operation %d (%s)' % (j, op[0])
            if op[0] == 'set':
                st['in'].update(op[2])
                play.reapply(st)
                st['dirty'] = True
                continue
            if op[0] == 'run':
                # no inputs are set again: they must still be there
                _, err = play.attempt(op, st['p'].run, tag)
                st['dirty'] = err is not None
                if err is None:
                    play.verify_values(st, tag)
                    if rec['cmp']:
                        rec['after'] += 1
                        run.count('probe.run after derivatives')
                continue
            torun(tag)
            before = state(st)
            total = False
            if op[0] == 'grad':
                mode = op[2] if ps['root'] == 'user' or op[2] == 'fd' else 'auto'
                total = mode == 'fd' or ps['root'] != 'user'
                J, err = play.attempt(op, lambda: play.grad(st, mode, op[3]), tag)
                if err is None:
                    play.verify_grad(st, J, mode, op[3], tag)
                run.count('probe.fd totals' if total else 'probe.analytic totals')
            elif op[0] == 'cpart':
                glob = {'check_form': op[3], 'check_type': op[2]}
                # nested problems can't be complex stepped
                comps = [s.pathname for s in st['p'].root.components(recurse=True)
                         if op[2] == 'fd' or not hasattr(s, '_problem')]
                res, err = play.attempt(op, lambda: st['p'].check_partial_derivatives(
                    out_stream=None, global_options=glob, comps=comps), tag)
                if err is None:
                    verify_partials(st, res, tag)
                run.count('probe.partials checked')
            else:
                total = True
                if ps['root'] != 'user':
                    fn = lambda: play.grad(st, 'auto', 'dict')
                else:
                    fn = lambda: st['p'].check_total_derivatives(out_stream=None)
                res, err = play.attempt(op, fn, tag)
                run.count('probe.totals checked')
            strict = not total or scn.get('directed') == 'P17-K1'
            rec['cmp'] += compare(before, state(st), tag + (' failed' if err is not None else ''), strict)
            run.count('probe.model finite differenced inside', int(ps['gfd'] is not None))
            if err is not None:
                run.count('probe.failed and unchanged')
                failed = True
            elif failed:
                run.count('probe.derivatives after a failed computation')
            if total:
                st['dirty'] = True
                if err is None and j + 1 < len(scn['ops']) and scn['ops'][j + 1][0] == 'run':
                    st['dirty'] = False
        st['p'].cleanup()
    play, job = sess.start(scn, ch, run, body)
    run.count('values compared', play.ncmp + rec['cmp'])
    run.key = p01.hash_key(scn)
    run.nontrivial = rec['cmp'] > 0 and rec['after'] > 0
    ps = scn['probs'][0]
    run.sample = {'order': [c for c, _ in sess.M.walk(ps['spec'])], 'root': ps['root'], 'nested': ps['sub'],
                  'fd group': ps['gfd'], 'ops': scn['ops']}


def verify_partials(st, res, tag):
    """The jacobians of the user code that the check found agree with each other."""
    import numpy as np
    from sim import models as M
    inside = set()
    for g in M.groups_of(st['ps']['spec']):
        if g['g'] == st['ps']['gfd']:
            inside = set(c for c, _ in M.walk({'tree': g}))
    for c in sorted(res):
        # these are not linearized
        if c.split('.')[-1] in inside:
            continue
        for k in sorted(res[c]):
            d = res[c][k]
            a = d.get('J_fwd')
            for other in ('J_rev', 'J_fd'):
                b = d.get(other)
                if a is None or b is None:
                    continue
                tol = 1e-9 if other == 'J_rev' else 1e-3
                if np.shape(a) != np.shape(b) or not H.close(a, b, tol, tol * max(1.0, np.abs(b).max() if np.size(b) else 1)):
                    raise Violation('wrong-partials', '%s: J_fwd of %s %s is %s, %s is %s' % (
                        tag, c, k, np.asarray(a).tolist(), other, np.asarray(b).tolist()))
