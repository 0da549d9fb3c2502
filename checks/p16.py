"""P16: a failed run leaves the problem able to run as if new."""
from checks import p01, sess
from sim import mpiharness as H

PROPERTY = 'P16'
RULE = ('random models (groups, parallel groups, implicit components, cycles with Gauss-Seidel, Aitken, '
        'Newton and line search, numerical derivatives, nested problems, system directories) run in '
        'sessions in which user code raises one of twelve exception types at a chosen call; judged: the '
        'exception at the caller, process-wide state, and the next run against the reference and against a '
        'freshly built problem; non-trivial: a fault fired and a later run was compared')
QUICK = (2200, 42)
THOROUGH = (50000, 1500)
COMPONENTS = {'real': ['openmdao (all of it, from /repo)', 'numpy', 'scipy', 'networkx'],
              'stub': ['set iteration order: sim/hashorder.py', 'user components: sim/models.py']}
ASSUMPTIONS = ['user code raises; it does not damage its own objects',
               'models have one solution, so the result does not depend on where an iteration starts']
FAULTS = tuple('raised ' + e for e in sess.EXC) + (
    'user code raises in solve_nonlinear', 'user code raises in solve_nonlinear.end',
    'user code raises in linearize', 'user code raises in apply_nonlinear',
    'user code raises in solve_linear')
PROBES = ('recovered run', 'fault in nested problem', 'fault with directories', 'fault under newton',
          'second fault before recovery', 'recovery after setup')
prepare = H.prepare


def gen(rng, i, tier):
    ps = sess.gen_problem(rng, newt=0.4)
    scn = {'probs': [ps], 'salts': rng.randrange(1, 10 ** 6)}
    ops = []
    for _ in range(rng.randint(2, 7)):
        ops.append(sess.gen_op(rng, 0, ps, {'set': 2, 'run': 6, 'grad': 1, 'setup': 0.5}, 0.6))
    ops.append(['run', 0])
    if rng.random() < 0.5:
        ops.append(['grad', 0, rng.choice(['fwd', 'rev', 'auto']), rng.choice(['dict', 'array'])])
    scn['ops'] = ops
    return scn


shrink = sess.shrink


def execute(scn, ch, run):
    rec = [0, 0]

    def body(play):
        for ps in scn['probs']:
            play.setup(play.add(ps))
        failed = False
        for j, op in enumerate(scn['ops']):
            st = play.probs[op[1]]
            tag = 'operation %d (%s)' % (j, op[0])
            if op[0] == 'set':
                st['in'].update(op[2])
                play.reapply(st)
                st['ran'] = False
            elif op[0] == 'setup':
                play.setup(st)
                if failed:
                    run.count('probe.recovery after setup')
            elif op[0] == 'run':
                # the inputs are set before every run
                play.reapply(st)
                _, err = play.attempt(op, st['p'].run, tag)
                st['ran'] = err is None
                if err is not None:
                    where = play.fired[2]
                    run.count('probe.fault in nested problem', int(where in ('F',)))
                    run.count('probe.fault with directories', int(bool(st['ps']['dirs'])))
                    run.count('probe.fault under newton', int(any(
                        g['cyc'] and st['ps']['nl'][str(g['g'])].startswith('newton')
                        for g in sess.M.groups_of(st['ps']['spec']))))
                    if failed:
                        run.count('probe.second fault before recovery')
                    failed = True
                    rec[0] += 1
                else:
                    play.verify_values(st, tag + (' after a failed run' if failed else ''))
                    if failed:
                        run.count('probe.recovered run')
                        rec[1] += 1
                    failed = False
            elif op[0] == 'grad':
                if not st['ran']:
                    play.reapply(st)
                    st['p'].run()
                    st['ran'] = True
                    play.verify_values(st, tag + ' with a run before it')
                    if failed:
                        rec[1] += 1
                    failed = False
                mode = op[2] if st['ps']['root'] == 'user' or op[2] == 'fd' else 'auto'
                J, err = play.attempt(op, lambda: play.grad(st, mode, op[3]), tag)
                if err is None:
                    play.verify_grad(st, J, mode, op[3], tag)
                    # total finite differences leave the inputs perturbed (P17-K1)
                    if mode == 'fd':
                        st['ran'] = False
                else:
                    failed = True
                    st['ran'] = False
                    rec[0] += 1
        for st in play.probs:
            st['p'].cleanup()
    play, job = sess.start(scn, ch, run, body)
    run.count('values compared', play.ncmp)
    run.key = p01.hash_key(scn)
    run.nontrivial = rec[0] > 0 and rec[1] > 0
    ps = scn['probs'][0]
    run.sample = {'order': [c for c, _ in sess.M.walk(ps['spec'])], 'root': ps['root'], 'nested': ps['sub'],
                  'directories': ps['dirs'], 'ops': scn['ops']}
