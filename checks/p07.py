"""P07: processes are allocated as requested and none is lost."""
import copy

from checks import p01
from sim import models as M, mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P07'
RULE = ('random trees of serial, parallel and parallel-FD groups whose components ask for 1-3 processes at '
        'least and that many, more or any number at most, optionally under a parallel design of '
        'experiments (with or without load balancing), on 1-14 simulated ranks whose splits interleave '
        'freely; non-trivial: >= 2 ranks and a parallel part in the model')
QUICK = (3000, 50)
THOROUGH = (80000, 1200)
COMPONENTS = H.COMPONENTS
ASSUMPTIONS = H.ASSUMPTIONS
FAULTS = ('slow component',)
PROBES = ('refused', 'allocated', 'a rank idles', 'fewer processes than subsystems ask for',
          'parallel fd', 'parallel doe')
prepare = H.prepare


def gen(rng, i, tier):
    spec = M.gen(rng, ncomp=rng.choice([3, 5, 8]), ngroup=rng.choice([1, 2, 3, 4]), pg=0.7, cyc=0,
                 unconn=0.1, execcomp=0, deepindep=0.1)
    scn = {'spec': spec, 'req': {}, 'pfd': {}}
    hi = rng.choice([1, 2, 2, 3])
    some = rng.choice([0.2, 0.6])
    for c in spec['comps']:
        if rng.random() < some:
            mn = rng.randint(1, hi)
            scn['req'][c] = [mn, rng.choice([mn, mn, mn + 1, mn + 3, None])]
    for g in M.groups_of(spec):
        if g['kind'] == 'G' and rng.random() < 0.15:
            scn['pfd'][str(g['g'])] = rng.randint(1, 3)
    scn['doe'] = rng.choice([0, 0, 0, 1, 2, 3])
    scn['lb'] = rng.random() < 0.4
    mn, mx = limits(scn)
    top = min(14, mx if mx is not None else mn + 5)
    scn.update(H.knobs(rng, max(2, top), procs=14, always_par=True))
    r = rng.random()
    if r < 0.15:
        scn['nproc'] = rng.randint(1, top + 2)
    else:
        scn['nproc'] = rng.randint(min(mn, 14), max(mn, top))
    scn['nproc'] = min(14, scn['nproc'])
    scn['cases'] = rng.randint(1, 5)
    return scn


def limits(scn):
    """(least, most) processes the model can use, from the documented rules."""
    mn, mx = need(scn, scn['spec']['tree'])
    if scn['doe'] > 1:
        mn, mx = mn * scn['doe'], mx and mx * scn['doe']
    return mn, mx


def need(scn, node):
    if not isinstance(node, dict):
        a, b = scn['req'].get(node, (1, 1))
        return a, b
    subs = [need(scn, s) for s in node['subs']]
    mn = max([1] + [a for a, _ in subs])
    if any(b is None for _, b in subs):
        mx = None
    elif node['kind'] == 'PG':
        mx = sum(b for _, b in subs)
    else:
        mx = max([1] + [b for _, b in subs])
    k = scn['pfd'].get(str(node['g']))
    if k:
        mn, mx = mn * k, mx and mx * k
    return mn, mx


def shrink(scn):
    if scn['doe']:
        yield dict(scn, doe=0)
        if scn['lb']:
            yield dict(scn, lb=False)
    if scn['cases'] > 1:
        yield dict(scn, cases=1)
    for g in scn['pfd']:
        yield dict(scn, pfd={k: v for k, v in scn['pfd'].items() if k != g})
    for c in scn['req']:
        yield dict(scn, req={k: v for k, v in scn['req'].items() if k != c})
    for s in H.shrink_job(scn):
        yield s
    for s in M.shrinks(scn['spec']):
        gs = set(str(g['g']) for g in M.groups_of(s) if g['kind'] == 'G')
        yield dict(scn, spec=s, req={k: v for k, v in scn['req'].items() if k in s['comps']},
                   pfd={k: v for k, v in scn['pfd'].items() if k in gs})


def make_driver(scn, desvar):
    from openmdao.drivers.predeterminedruns_driver import PredeterminedRunsDriver

    class Cases(PredeterminedRunsDriver):
        def _build_runlist(self):
            for k in range(scn['cases']):
                yield [(desvar, 0.25 * k)]
    return Cases(num_par_doe=scn['doe'], load_balance=scn['lb'])


def execute(scn, ch, run):
    spec = copy.deepcopy(scn['spec'])
    if scn['doe']:
        # a scalar that every case sets
        spec['comps']['p0'] = {'kind': 'P', 'ins': [], 'outs': [{'n': 'caseno', 's': 0, 'u': None, 'v': [0.5]}], 'seed': 1}
        t = spec['tree']
        if t['kind'] == 'PG':
            spec['tree'] = {'g': 99, 'kind': 'G', 'subs': ['p0', t], 'cyc': False}
        else:
            t['subs'].insert(0, 'p0')
    names = M.Names(spec)
    scn2 = dict(scn, spec=spec, ln='lngs', nl='run', cycnl='gs')
    mn, mx = limits(scn2)
    n = scn['nproc']
    ok = mn <= n and (mx is None or n <= mx)
    lb = scn['doe'] > 1 and scn['lb']
    if lb and mn > scn['doe']:
        ok = False       # the master has a model of one process
    job = H.Job(scn, ch, run)
    got, ncmp, use = {}, [0], {}

    def mg(node):
        k = scn['pfd'].get(str(node['g']))
        if k:
            from openmdao.api import ParallelFDGroup
            return ParallelFDGroup(k)

    def body(rank):
        from openmdao.api import Problem
        from openmdao.core.petsc_impl import PetscImpl
        p = Problem(root=M.build_group(spec, names, p01.setup_group(scn2), make_group=mg), impl=PetscImpl)
        for c, _ in M.walk(spec):
            if c in scn['req']:
                r = tuple(scn['req'][c])
                p01.sub(p.root, names, c).get_req_procs = lambda r=r: r
        if scn['doe']:
            p.driver = make_driver(scn, names.at_root('p0', 'caseno'))
            p.driver.add_desvar(names.at_root('p0', 'caseno'))
        p.setup(check=False)
        mine = {}
        for node in M.groups_of(spec):
            g = group(p.root, names, node, spec)
            if node['kind'] == 'PG':
                if g.is_active():
                    use.setdefault(node['g'], {})[rank] = (g.comm.size, bool(g._local_subsystems))
                for s in node['subs']:
                    sy = g._subsystems[s if not isinstance(s, dict) else names.gname(s)]
                    if g.is_active() and sy.is_active():
                        top = [need(scn2, t)[1] for t in node['subs'] if g._subsystems[
                            t if not isinstance(t, dict) else names.gname(t)].is_active()]
                        k = (scn['pfd'].get(str(s['g'])) if isinstance(s, dict) else None) or 1
                        # (a parallel FD group shows the part of one of its tasks)
                        # subsystems that share processes: one of them can use them all
                        top = None if None in top else max(top)
                        mine[sy.pathname] = (sy.comm.size, (need(scn2, s)[0] // k, top), True)
        for c, _ in M.walk(spec):
            sy = p01.sub(p.root, names, c)
            if sy.is_active():
                mine.setdefault(sy.pathname, (sy.comm.size, need(scn2, c), False))
        got[rank] = mine
        p.run()
        if not scn['doe']:
            ref = M.Ref(spec)
            ref.run()
            ncmp[0] += p01.check_values(p, spec, names, ref, rank, 1e-9, 'run')
        p.cleanup()
    tasks = job.start(body, allow=(RuntimeError,))
    raised = [t for t in tasks if t.exc is not None]
    run.count('probe.refused', int(bool(raised)))
    if raised:
        msg = '%s: %s' % (raised[0].name, raised[0].exc)
        if len(raised) < n:
            raise Violation('uneven-refusal', '%d of %d ranks refused (%s)' % (len(raised), n, msg))
        if ok:
            raise Violation('refused', 'the model can run on %s to %s processes but was refused %d: %s' % (
                mn, mx, n, msg))
        for t in raised:
            if 'process' not in str(t.exc):
                raise Violation('unexplained', '%s raised %r' % (t.name, str(t.exc)))
    else:
        if not ok:
            raise Violation('not-refused', 'ran on %d processes, needs %s to %s' % (n, mn, mx))
        seen = set()
        for r in sorted(got):
            for path, (size, (a, b), inpar) in sorted(got[r].items()):
                seen.add(path)
                idle = lb and r == 0
                if size < a and not idle:
                    raise Violation('too-few', '%s needs %d processes at least, has %d' % (path, a, size))
                if inpar and b is not None and size > b:
                    raise Violation('too-many', '%s can use %d processes, has %d' % (path, b, size))
        for node in M.groups_of(spec):
            u = use.get(node['g'])
            if not u:
                continue
            subs = [need(scn2, s) for s in node['subs']]
            lo, top = sum(a for a, _ in subs), None if None in [b for _, b in subs] else sum(b for _, b in subs)
            if any(size < lo for size, _ in u.values()):
                continue
            want = sum((size if top is None else min(size, top)) / float(size) for size, _ in u.values())
            have = sum(a for _, a in u.values())
            if abs(want - have) > 1e-6:
                raise Violation('lost-process', 'group g%d uses %d processes, could use %g' % (
                    node['g'], have, want))
            run.count('groups with all processes accounted for')
        for c, _ in M.walk(spec):
            path = '.'.join([names.gname(g) for g in names.paths[c][1:]] + [c])
            if path not in seen:
                raise Violation('not-run', '%s runs nowhere' % path)
        run.count('allocations checked', sum(len(v) for v in got.values()))
        run.count('probe.a rank idles', int(any(len(v) < len(got[0]) for v in got.values())))
    pgs = [g for g in M.groups_of(spec) if g['kind'] == 'PG']
    for g in pgs:
        if sum(need(scn2, s)[0] for s in g['subs']) > n:
            run.count('probe.fewer processes than subsystems ask for')
            break
    run.count('probe.allocated', int(not raised))
    run.count('probe.parallel fd', int(bool(scn['pfd'])))
    run.count('probe.parallel doe', int(scn['doe'] > 1))
    run.key = p01.hash_key(scn)
    run.nontrivial = n > 1 and bool(pgs or scn['pfd'] or scn['doe'] > 1)
    run.sample = {'nproc': n, 'limits': [mn, mx], 'requirements': scn['req'], 'refused': bool(raised)}


def group(root, names, node, spec):
    if node['g'] == spec['tree']['g']:
        return root

    def rec(n, g):
        for s in n['subs']:
            if isinstance(s, dict):
                x = g._subsystems[names.gname(s)]
                if s['g'] == node['g']:
                    return x
                y = rec(s, x)
                if y is not None:
                    return y
    return rec(spec['tree'], root)
