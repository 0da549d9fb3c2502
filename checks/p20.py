"""P20: each part of a model works in its own directory.

Sessions of one program (runs, derivatives, checks, setups after a change, failures inside, directories that vanish or
can't be entered) and parallel runs on several simulated ranks that share one file system, every test for and creation
of a directory being a point at which another rank may go on."""
import errno
import os
import shutil

from checks import p01, sess
from sim import models as M, mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P20'
RULE = ('the current directory in every call of user code is the one the settings ask for, and after every operation '
        'it is the one it was before; a setup creates the directories it was asked to create and no others')
QUICK = (3000, 45)
THOROUGH = (200000, 800)
COMPONENTS = dict(H.COMPONENTS)
ASSUMPTIONS = ['the ranks of a job share one file system that shows every change at once',
               'the directory of a problem is the one in which it was set up for the first time']
FAULTS = ('directory removed', 'directory not enterable', 'mkdir fails', 'slow component') + tuple(
    'user code raises in ' + x for x in ('solve_nonlinear', 'apply_nonlinear', 'linearize', 'solve_linear', 'apply_linear'))
PROBES = ('directory created', 'another rank created it meanwhile', 'missing directory told', 'setup after a change',
          'nested problem', 'run from elsewhere', 'calls with a directory of their own')
prepare = H.prepare
DIRECTED = []
DIRS = ['d0', 'd0', 'd1', 'd1', 'd2', 'd1/e', 'd3/f/g', '.', '@x', '@y/z', '%w', 'd1/%w']


# ------------------------------------------------------------------ generator
def gen_dir(rng, create=0.85):
    return {'d': rng.choice(DIRS), 'c': rng.random() < create}


def gen_dirs(rng, spec, subs=(), create=0.85):
    out = {}
    p = rng.choice([0.15, 0.4, 0.7])
    for g in M.groups_of(spec):
        if rng.random() < p:
            out['g%d' % g['g']] = gen_dir(rng, create)
    for c in sorted(spec['comps']):
        if rng.random() < p:
            out[c] = gen_dir(rng, create)
    for c in subs:
        for k in (c + '/', c + '/F'):
            if rng.random() < 0.5:
                out[k] = gen_dir(rng, create)
    return out


def gen(rng, i, tier):
    if rng.random() < 0.35:
        scn = p01.gen(rng, i, tier)
        scn.update(mode='mpi', dirs=gen_dirs(rng, scn['spec'], create=1.0))
        return scn
    ps = sess.gen_problem(rng, fd=0.3, dirs=0.0, size=rng.choice([2, 3, 4, 6]))
    create = rng.choice([1.0, 1.0, 0.9, 0.6])
    scn = {'mode': 'serial', 'probs': [ps], 'salts': rng.randrange(1, 10 ** 6),
           'dirs': gen_dirs(rng, ps['spec'], ps['sub'], create), 'ops': []}
    keys = ['g%d' % g['g'] for g in M.groups_of(ps['spec'])] + sorted(ps['spec']['comps']) + [
        c + x for c in ps['sub'] for x in ('/', '/F')]
    ops = [['setup']]
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(['run', 'run', 'grad', 'grad', 'cpart', 'setup', 'dir', 'dir', 'rm', 'block', 'cd', 'mkfail'])
        f = sess.fault(rng, 0.35)
        if k == 'grad':
            op = ['grad', rng.choice(['fwd', 'rev', 'fd'])]
        elif k == 'dir':
            op = ['dir', rng.choice(keys), rng.choice([None, gen_dir(rng), gen_dir(rng, create)])]
            f = None
        elif k in ('rm', 'block'):
            op = [k, rng.randrange(6)]
            f = None
        elif k == 'cd':
            op = ['cd', rng.choice(['', 'elsewhere', 'd0'])]
            f = None
        elif k == 'mkfail':
            op = ['mkfail', rng.choice([0, 0, 1, 2]), rng.choice(['EACCES', 'ENOSPC', 'EROFS'])]
            f = None
        else:
            op = [k]
            f = f if k != 'setup' else None
        ops.append(op + ([f] if f else []))
        if k in ('dir', 'rm', 'mkfail') and rng.random() < 0.7:
            ops.append(['setup'])
        if k in ('dir', 'rm', 'block', 'cd', 'setup', 'mkfail'):
            ops.append(['run'])
    scn['ops'] = ops
    return scn


def shrink(scn):
    d = scn['dirs']
    for k in sorted(d):
        yield dict(scn, dirs={x: y for x, y in d.items() if x != k})
    for k in sorted(d):
        if d[k] != {'d': 'd0', 'c': True}:
            yield dict(scn, dirs=dict(d, **{k: {'d': 'd0', 'c': True}}))
    if scn['mode'] == 'mpi':
        for s in p01.shrink(scn):
            yield s
        return
    ops = scn['ops']
    for i in range(len(ops)):
        yield dict(scn, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        if isinstance(o[-1], dict) and 'at' in o[-1]:
            yield dict(scn, ops=ops[:i] + [o[:-1]] + ops[i + 1:])
    for s in sess.shrink(dict(scn, ops=[])):
        if s['ops'] == []:
            yield dict(s, ops=ops)


# ------------------------------------------------------------------ what is asked for
def value(d, top):
    """The value of the directory attribute."""
    s = d['d']
    if s.startswith('@'):
        return os.path.join(top, s[1:])
    if '%' in s:
        return lambda rank: s.replace('%w', 'rank%d' % rank)
    return s


def text(d, top, rank):
    v = value(d, top)
    return v(rank) if callable(v) else v




class Plan(object):
    """Directories that systems should have, by id, from their settings at the last setup."""

    def __init__(self, top, rank):
        self.top, self.rank = top, rank
        self.want, self.name, self.settings, self.own = {}, {}, [], set()

    def walk(self, s, parent, dirs, path='', under=False):
        """under: a system above has a setting; without one, user code runs wherever the program is."""
        d = dirs.get(getattr(s, '_p20', None))
        here = parent
        if d and text(d, self.top, self.rank):
            here = os.path.normpath(os.path.join(parent, text(d, self.top, self.rank)))
            self.own.add(id(s))
            under = True
        self.want[id(s)], self.name[id(s)] = here if under else None, path + (s.pathname or 'the root')
        if s.is_active():
            self.settings.append((self.name[id(s)], here, bool(d and d['d']), bool(d and d['c'])))
        for sub in getattr(s, '_subsystems', {}).values():
            self.walk(sub, here, dirs, path, under)
        q = getattr(s, '_problem', None)
        if q is not None:
            self.walk(q.root, here, dirs, path + s.pathname + '/', under)

    def created(self):
        out = set()
        for _, d, own, c in self.settings:
            if c:
                out |= ancestors(d, self.top)
        return out

    def needed(self):
        return set(d for _, d, own, c in self.settings if own)


def ancestors(d, top):
    out = set()
    while d != top and d.startswith(top):
        out.add(d)
        d = os.path.dirname(d)
    return out


def tag_systems(root, names, spec, dirs, top):
    """Give every system its key and the settings."""
    def rec(g, node):
        give(g, 'g%d' % node['g'])
        for sub in node['subs']:
            if isinstance(sub, dict):
                rec(g._subsystems[names.gname(sub)], sub)
            else:
                c = g._subsystems[sub]
                give(c, sub)
                q = getattr(c, '_problem', None)
                if q is not None:
                    give(q.root, sub + '/')
                    give(q.root._subsystems['F'], sub + '/F')

    def give(s, key):
        s._p20 = key
        d = dirs.get(key)
        s.directory = value(d, top) if d else ''
        s.create_dirs = bool(d and d['c'])
        if not hasattr(s, '_subsystems') and 'apply_linear' not in vars(s):
            real = s.apply_linear

            def apply_linear(*a, **kw):
                M.call_hook(s, 'apply_linear')
                return real(*a, **kw)
            s.apply_linear = apply_linear
    rec(root, spec['tree'])


def on_disk(top):
    out = set()
    for d, subs, files in os.walk(top):
        for s in subs:
            out.add(os.path.join(d, s))
    return out


def rel(d, top):
    return os.path.relpath(d, top)


# ------------------------------------------------------------------ serial sessions
def execute(scn, ch, run):
    if scn['mode'] == 'mpi':
        return parallel(scn, ch, run)

    def body(play):
        Session(scn, run, play).go()
    sess.start(dict(scn, nproc=1, stall=0, sticky=0, send=0), ch, run, body)


class Session(object):
    def __init__(self, scn, run, play):
        self.scn, self.run, self.play = scn, run, play
        self.top = os.path.realpath(os.getcwd())
        os.mkdir('elsewhere')
        self.bad = None
        self.plan = None
        self.blocked = None
        self.mkfail = None
        self.nmk = 0
        self.ncalls = 0

    def hook(self, comp, what):
        want = self.plan.want.get(id(comp), 0) if self.plan is not None else 0
        if want is None:
            want = self.here
        if want:
            self.ncalls += 1
            if id(comp) in self.plan.own:
                self.run.count('probe.calls with a directory of their own')
            cwd = os.path.realpath(os.getcwd())
            if cwd != want and self.bad is None:
                self.bad = Violation('wrong-directory', '%s of %s runs in %s; its directory is %s' % (
                    what, self.plan.name[id(comp)], rel(cwd, self.top), rel(want, self.top)))
        self.play.hook(comp, what)

    def go(self):
        scn, run, play, top = self.scn, self.run, self.play, self.top
        ps = scn['probs'][0]
        p, names = sess.build(ps, hookdirs=False)
        dirs = dict(scn['dirs'])
        M.HOOK[0] = self.hook
        real_chdir, real_mkdir = os.chdir, os.mkdir

        def chdir(path):
            if self.blocked is not None and os.path.realpath(path) == self.blocked:
                run.count('fault.directory not enterable')
                raise PermissionError(errno.EACCES, 'sim-fault-chdir', path)
            return real_chdir(path)

        def mkdir(path, *a, **kw):
            if self.mkfail is not None and not os.path.isdir(path):
                if self.nmk == self.mkfail[0]:
                    run.count('fault.mkdir fails')
                    self.nmk += 1
                    raise OSError(getattr(errno, self.mkfail[1]), 'sim-fault-mkdir', path)
                self.nmk += 1
            return real_mkdir(path, *a, **kw)
        os.chdir, os.mkdir = chdir, mkdir
        up = False
        hist = []
        elsewhere = False
        changed = False
        try:
            for op in scn['ops']:
                hist.append(op[0])
                before = os.path.realpath(os.getcwd())
                if op[0] == 'dir':
                    if op[2] is None:
                        dirs.pop(op[1], None)
                    else:
                        dirs[op[1]] = op[2]
                    changed = True
                elif op[0] == 'rm':
                    ds = sorted(on_disk(top) - set([top + '/elsewhere']))
                    ds = [d for d in ds if not before.startswith(d)]
                    if ds:
                        shutil.rmtree(ds[op[1] % len(ds)])
                        run.count('fault.directory removed')
                elif op[0] == 'block':
                    ds = sorted(self.plan.needed() - set([before, top])) if up else []
                    self.blocked = ds[op[1] % len(ds)] if ds else None
                    continue
                elif op[0] == 'mkfail':
                    self.mkfail, self.nmk = op[1:], 0
                    continue
                elif op[0] == 'cd':
                    if os.path.isdir(os.path.join(top, op[1])) and up:
                        os.chdir(os.path.join(top, op[1]))
                        elsewhere = elsewhere or bool(op[1])
                elif op[0] == 'setup':
                    if changed and up:
                        run.count('probe.setup after a change')
                    up = self.setup(p, names, ps, dirs)
                    changed = False
                elif up and not (op[0] == 'cpart' and ps['root'] != 'user'):
                    if elsewhere:
                        run.count('probe.run from elsewhere')
                    self.operate(op, p, names, ps)
                if op[0] not in ('cd', 'block', 'mkfail'):
                    cwd = os.path.realpath(os.getcwd())
                    if cwd != before:
                        raise Violation('directory-left', 'after %s the current directory is %s, it was %s' % (
                            op[0], rel(cwd, top), rel(before, top)))
                    self.blocked = self.mkfail = None
        finally:
            os.chdir, os.mkdir = real_chdir, real_mkdir
            self.plan = None
        run.key = '%s | %s' % (' '.join(hist), ' '.join(sorted(d['d'] for d in dirs.values())))
        run.sample = run.key
        run.nontrivial = self.ncalls > 0

    def setup(self, p, names, ps, dirs):
        run, top = self.run, self.top
        tag_systems(p.root, names, ps['spec'], dirs, top)
        old = on_disk(top)
        self.plan = None
        self.play.quiet = True
        err = None
        try:
            p.setup(check=False)
        except (OSError, RuntimeError) as e:
            err = e
        finally:
            self.play.quiet = False
        if err is not None:
            if 'sim-fault-mkdir' not in str(err):
                raise Violation('exception', 'setup raised %r' % err)
            return False
        if self.mkfail is not None and self.nmk > self.mkfail[0]:
            raise Violation('failure-lost', 'setup returned although a directory could not be created')
        plan = Plan(top, 0)
        plan.walk(p.root, top, dirs)
        new = on_disk(top)
        want = old | plan.created()
        for d in sorted(want - new):
            raise Violation('not-created', 'setup did not create %s (settings %s)' % (rel(d, top), self.show(plan)))
        for d in sorted(new - want):
            raise Violation('created-unasked', 'setup created %s (settings %s)' % (rel(d, top), self.show(plan)))
        run.count('probe.directory created', len(new - old))
        if ps['sub']:
            run.count('probe.nested problem')
        self.plan = plan
        return True

    def show(self, plan):
        return ['%s: %s%s' % (n, rel(d, self.top), ', create' if c else '') for n, d, own, c in plan.settings if own or c]

    def operate(self, op, p, names, ps):
        play, run, top, plan = self.play, self.run, self.top, self.plan
        old = on_disk(top)
        missing = sorted(d for d in plan.needed() if not os.path.isdir(d))
        if self.blocked in plan.needed():
            missing.append(self.blocked)
        st = {'ps': ps, 'p': p, 'names': names}
        f = op[-1] if isinstance(op[-1], dict) else None
        play.armed, play.calls, play.fired = f, 0, None
        self.bad = None
        self.here = os.path.realpath(os.getcwd())
        err = None
        try:
            if op[0] == 'run':
                p.run()
            elif op[0] == 'grad':
                mode = op[1] if ps['root'] == 'user' or op[1] == 'fd' else 'auto'
                play.grad(st, mode, 'dict')
            else:
                comps = [s.pathname for s in p.root.components(recurse=True) if not hasattr(s, '_problem')]
                p.check_partial_derivatives(out_stream=None, comps=comps)
        except Violation:
            raise
        except BaseException as e:
            if type(e).__name__ in ('SimKilled', 'SimCrash'):
                raise
            err = e
        finally:
            play.armed = None
        if self.bad is not None:
            raise self.bad
        new = on_disk(top)
        if new != old:
            raise Violation('created-unasked', '%s created or removed %s' % (op[0], sorted(
                rel(d, top) for d in new ^ old)))
        if play.fired is None:
            if err is None and missing and op[0] == 'run':
                raise Violation('failure-lost', 'the run returned although %s does not exist or can\'t be entered'
                                % rel(missing[0], top))
            if err is not None:
                if not missing:
                    import traceback
                    tb = ''.join(traceback.format_exception(type(err), err, err.__traceback__))
                    raise Violation('exception', '%s raised %r\n%s' % (op[0], err, tb[-1500:]))
                if not isinstance(err, OSError):
                    raise Violation('wrong-error', '%s lacks the directory %s; it raised %r' % (
                        op[0], rel(missing[0], top), err))
                run.count('probe.missing directory told')


# ------------------------------------------------------------------ parallel runs
def parallel(scn, ch, run):
    spec, dirs = scn['spec'], scn['dirs']
    names = M.Names(spec)
    job = H.Job(scn, ch, run)
    top = os.path.realpath(run.tmp)
    kern = job.kern
    plans = {}
    ncalls = [0]

    def hook(comp, what):
        rank = kern.me().env.get('rank')
        plan = plans.get(rank)
        want = plan.want.get(id(comp), 0) if plan is not None else 0
        if want is None:
            want = top
        if want:
            cwd = os.path.realpath(os.getcwd())
            ncalls[0] += 1
            if id(comp) in plan.own:
                run.count('probe.calls with a directory of their own')
            if cwd != want:
                raise Violation('wrong-directory', 'on rank %d of %d, %s of %s runs in %s; its directory is %s' % (
                    rank, scn['nproc'], what, plan.name[id(comp)], rel(cwd, top), rel(want, top)))
        job.hook(comp, what)
    job.user_hook = hook
    saved = {}

    def seam(obj, name):
        real = getattr(obj, name)
        saved[obj, name] = real

        def f(path, *a, **kw):
            t = kern.me()
            if t is not None and isinstance(path, str) and path.startswith(top):
                had = os.path.lexists(path) if name == 'mkdir' else None
                kern.event(t.env.get('rank'), name, rel(path, top))
                kern.pause()
                if had is False and os.path.lexists(path):
                    run.count('probe.another rank created it meanwhile')
            return real(path, *a, **kw)
        setattr(obj, name, f)

    def body(rank):
        from openmdao.api import Problem
        from openmdao.core.petsc_impl import PetscImpl
        os.chdir(top)
        p = Problem(root=M.build_group(spec, names, p01.setup_group(scn)), impl=PetscImpl)
        tag_systems(p.root, names, spec, dirs, top)
        for k in range(2 if scn['resetup'] else 1):
            p.setup(check=False)
            plan = Plan(top, rank)
            plan.walk(p.root, top, dirs)
            for n, d, own, c in plan.settings:
                if c and not os.path.isdir(d):
                    raise Violation('not-created', 'rank %d: setup did not create %s, the directory of %s'
                                    % (rank, rel(d, top), n))
            plans[rank] = plan
            for _ in range(1 + len(scn['reps'])):
                p.run()
                cwd = os.path.realpath(os.getcwd())
                if cwd != top:
                    raise Violation('directory-left', 'after a run rank %d is in %s' % (rank, rel(cwd, top)))
        p.cleanup()
    for obj, name in ((os, 'mkdir'), (os.path, 'exists'), (os.path, 'isdir')):
        seam(obj, name)
    try:
        job.start(body)
    finally:
        for (obj, name), f in saved.items():
            setattr(obj, name, f)
    want = set()
    for plan in plans.values():
        want |= plan.created()
    have = on_disk(top)
    if have != want:
        raise Violation('created-unasked', 'the job left %s, asked for were %s' % (
            sorted(rel(d, top) for d in have - want), sorted(rel(d, top) for d in want)))
    run.count('probe.directory created', len(have))
    run.key = p01.hash_key(scn)
    run.nontrivial = scn['nproc'] > 1 and bool(have) and ncalls[0] > 0
    run.sample = {'nproc': scn['nproc'], 'directories': sorted(rel(d, top) for d in have)}
