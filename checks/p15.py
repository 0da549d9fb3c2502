"""P15: recorder I/O errors are reported and contained."""
import errno
import itertools
import os

from checks import p01, rec
from sim import models as M, simvfs, mpiharness as H
from sim.kernel import Violation
from sim.simfs import SimFS
from sim.simh5 import SimH5

PROPERTY = 'P15'
RULE = ('random models with a plain driver, a design of experiments or an optimizer and one to three recorders '
        '(sqlite, HDF5, text dump, CSV, in memory) on the driver and on solvers; sessions of runs, derivative '
        'computations and new setups, some of them with a full disk, an I/O error or a short write from a random '
        'change of a recorder\'s files on, for one operation on the file or until the end of the operation of the '
        'session, also while closing; non-trivial: a fault fired and at least two entries were read back')
QUICK = (900, 45)
THOROUGH = (30000, 1500)
COMPONENTS = {'real': ['openmdao (all of it, from /repo)', 'sqlitedict', 'sqlite (on a VFS that passes its file '
                       'operations on or fails them)', 'h5py', 'csv', 'numpy', 'scipy', 'buffers of text files'],
              'stub': ['failing system calls below sqlite and text files; failing calls of h5py',
                       'threads, queues and locks of sqlitedict: sim/simsql.py', 'clock of the recording manager',
                       'scipy.optimize.minimize: visits scripted designs', 'user components: sim/models.py']}
ASSUMPTIONS = ['the entry whose recording failed may be there, partly there (text, HDF5) or missing',
               'a failing call of h5py changes nothing']
FAULTS = ('sqlite: disk full', 'sqlite: I/O error', 'sqlite: short write', 'text: disk full', 'text: I/O error',
          'text: short write', 'h5: disk full', 'h5: I/O error')
PROBES = ('read back sql', 'read back h5', 'read back dump', 'read back csv', 'read back mem', 'failed while running',
          'failed during setup', 'failed during derivatives', 'failed while closing', 'another recorder was there',
          'recorded again after a failure')
prepare = H.prepare


def gen(rng, i, tier):
    scn = rec.gen_serial(rng, kinds=['sql', 'sql', 'dump', 'csv', 'h5', 'mem'], fp=0.0)
    if all(r['kind'] == 'mem' for r in scn['recs']):
        scn['recs'][0]['kind'] = rng.choice(['sql', 'dump', 'h5'])
    ops = [o for o in scn['ops'] if o[0] in ('run', 'grad', 'setup', 'set')]
    n = 0
    for k, o in enumerate(ops):
        if o[0] != 'set' and rng.random() < 0.5:
            ops[k] = o + [fault(rng, scn)]
            n += 1
    if not n:
        ops[-1] = ops[-1] + [fault(rng, scn)]
    ops.append(['run'])
    if rng.random() < 0.2:
        ops.append(['close', fault(rng, scn)])
    scn['ops'] = ops
    return scn


def fault(rng, scn):
    return {'rec': rng.randrange(len(scn['recs'])), 'at': int(2 ** rng.uniform(0, 6.5)) - 1,
            'io': rng.choice(['full', 'ioerr', 'short']), 'n': rng.choice([1, 1, 2, 1000])}


def shrink(scn):
    for k, o in enumerate(scn['ops']):
        if isinstance(o[-1], dict) and 'io' in o[-1]:
            yield dict(scn, ops=scn['ops'][:k] + [o[:-1]] + scn['ops'][k + 1:])
            for kw in ({'n': 1}, {'at': 0}, {'at': o[-1]['at'] // 2}, {'io': 'full'}):
                f = dict(o[-1], **kw)
                if f != o[-1]:
                    yield dict(scn, ops=scn['ops'][:k] + [o[:-1] + [f]] + scn['ops'][k + 1:])
    for s in rec.shrink(scn):
        yield s


class Faults(object):
    """Decides which change of a file fails."""

    def __init__(self, s, scn, run):
        self.s, self.scn, self.run = s, scn, run
        self.f = None
        self.fired = 0

    def arm(self, f):
        self.f, self.count, self.fired = f, 0, 0
        k = f['rec'] % len(self.scn['recs'])
        self.path = self.s.c.objs[k][1]
        self.kind = self.scn['recs'][k]['kind']

    def disarm(self):
        self.f = None
        return self.fired

    def strike(self, path, what):
        """Is this change of a file the one that fails?  -> kind of failure"""
        if self.f is None or not (path == self.path or path.startswith(self.path + '-')):
            return None
        self.count += 1
        if self.count <= self.f['at'] or self.fired >= self.f['n']:
            return None
        self.fired += 1
        io = self.f['io']
        if io == 'short' and what == 'h5':
            io = 'ioerr'
        self.run.count('fault.%s: %s' % (what, {'full': 'disk full', 'ioerr': 'I/O error',
                                                'short': 'short write'}[io]))
        self.s.kern.event('I/O fault', what, io)
        return io

    def vfs(self, op, path, n):
        if op not in ('write', 'truncate', 'delete'):
            return None
        io = self.strike(path, 'sqlite')
        if io is None:
            return None
        if op == 'delete':
            return simvfs.IOERR_DELETE
        if op == 'truncate':
            return simvfs.IOERR_TRUNCATE
        if io == 'short' and n > 1:
            return 'torn', n // 2, simvfs.FULL
        return simvfs.FULL if io != 'ioerr' else simvfs.IOERR_WRITE

    def raw(self, op, path, n):
        io = self.strike(path, 'text')
        if io is None:
            return 0
        if io == 'short' and n > 1:
            self.fired_short = True
            return n // 2
        raise OSError(errno.EIO if io == 'ioerr' else errno.ENOSPC, 'sim-fault', path)

    def h5(self, op, path):
        io = self.strike(path, 'h5')
        if io is not None:
            raise OSError(errno.EIO if io == 'ioerr' else errno.ENOSPC, 'sim-fault', path)


def execute(scn, ch, run):
    run.key = p01.hash_key(scn)
    s = rec.Serial(scn, ch, run, max_steps=600000)
    fl = Faults(s, scn, run)
    st = {'n': 0, 'fired': 0}

    def body():
        rec.dirs(s.top)
        p = s.build()
        fs = SimFS(os.path.join(s.top, 'rec'), run)
        fs.torn = lambda op, path: False
        fs.rawfault = fl.raw

        def onwrite(path, text):
            if s.c.events:
                e = s.c.events[-1]
                if not e['done'] and 'exc' not in e:
                    e.setdefault('text', {}).setdefault(path, []).append(text)
        fs.onwrite = onwrite
        simvfs.install(fl.vfs)
        with fs, SimH5(s.kern) as h5:
            h5.fault = fl.h5
            rec.attach(s.c, p, s.names, scn, s.top)
            s.wrap()
            s.setup()
            session(s, scn, run, fl, st)
            if scn['ops'][-1][0] != 'close':
                p.cleanup()
        fl.disarm()
        verify(s, scn, run, st, 'in the end', True)
    try:
        s.start(body)
    finally:
        simvfs.uninstall()
    run.count('probe.another recorder was there', int(len(scn['recs']) > 1 and st['fired'] > 0))
    run.nontrivial = st['fired'] > 0 and st['n'] >= 2
    run.sample = {'recs': scn['recs'], 'ops': scn['ops'], 'fired': st['fired']}


WHERE = {'run': 'while running', 'setup': 'during setup', 'grad': 'during derivatives', 'close': 'while closing'}


def session(s, scn, run, fl, st):
    p = s.p
    ran, up = False, True
    failed = False
    for j, op in enumerate(scn['ops']):
        f = op[-1] if isinstance(op[-1], dict) and 'io' in op[-1] else None
        e0 = len(s.c.events)
        if op[0] == 'set':
            s.inputs.update(op[1])
            p01.set_indeps(p, scn['ps']['spec'], s.names, op[1])
            continue
        if op[0] == 'grad' and (not ran or scn['drv'] == 'doe'):
            continue
        if not up:
            s.setup()
            up = True
        if op[0] == 'run':
            p01.set_indeps(p, scn['ps']['spec'], s.names, s.inputs)
        cwd = os.getcwd()
        if f is not None:
            fl.arm(f)
        err = None
        try:
            if op[0] == 'run':
                s.drive()
            elif op[0] == 'grad':
                s.grad(op)
            elif op[0] == 'setup':
                s.setup()
            else:
                p.cleanup()
        except (RuntimeError, Exception) as x:
            if isinstance(x, Violation):
                raise
            err = x
        n = fl.disarm() if f is not None else 0
        st['fired'] += n
        what = 'operation %d (%s)' % (j, op[0])
        if os.getcwd() != cwd:
            os.chdir(cwd)
            raise Violation('wrong-directory', '%s, whose recording failed, left the process in another '
                            'directory' % what)
        if n == 0 and err is not None:
            raise err
        if n and err is None and not only_short(f, fl):
            if any(not e['ok'] for e in s.c.events[e0:]):
                pass        # a case of a design of experiments is recorded as failed
            else:
                raise Violation('lost-error', '%s: writing to %s failed (%s, %d times) and nothing was reported' % (
                    what, fl.path[len(s.top):], f['io'], n))
        if err is not None:
            run.count('probe.failed ' + WHERE[op[0]])
            failed = True
            if op[0] == 'setup':
                up = False
            ran = False
            verify(s, scn, run, st, 'after %s failed' % what, op[0] == 'close')
            continue
        if op[0] == 'run':
            if n == 0:
                s.check_driver(e0, j)
            ran = True
            if failed:
                run.count('probe.recorded again after a failure')
        elif op[0] == 'setup':
            ran = False


def only_short(f, fl):
    """A short write that is completed by the next one is no failure."""
    return f['io'] == 'short' and fl.kind in ('dump', 'csv')


def verify(s, scn, run, st, tag, closed):
    """Everything whose recording returned is there."""
    for k, sp in enumerate(scn['recs']):
        r, path = s.c.objs[k]
        evs = rec.expected(s.c, k, sp)
        t = '%s recorder %d (%s on %s)' % (tag, k, sp['kind'], sp['at'])
        bad = [e for e in evs if not e['done']]
        if sp['kind'] in ('dump', 'csv'):
            text, pos = rec.read(path), 0
            for e in evs:
                if not e['done']:
                    continue
                w = ''.join(e.get('text', {}).get(path, ()))
                if not w:
                    raise Violation('lost-iteration', '%s: %s was not written' % (t, e['coord']))
                pos = text.find(w, pos)
                if pos < 0:
                    raise Violation('lost-iteration', '%s: the entry of %s is missing or damaged' % (t, e['coord']))
                pos += len(w)
                st['n'] += 1
        elif sp['kind'] == 'h5' and not closed:
            continue
        else:
            st['n'] += some(t, sp, r, path, evs, bad)
        run.count('probe.read back ' + sp['kind'])


def some(t, sp, r, path, evs, bad):
    """One of the ways in which the failed recordings may have ended explains what is there."""
    for e in bad:
        e.setdefault('ts', None)
    err = None
    for drop in itertools.product((True, False), repeat=min(len(bad), 6)):
        gone = [e for e, d in zip(bad, drop) if d] + bad[6:]
        sub = [e for e in evs if not any(e is g for g in gone)]
        try:
            if sp['kind'] == 'mem':
                return rec.check_mem(t, r, sub)
            return rec.check_file(t, path, sp['kind'], sub, torn=bad if sp['kind'] == 'h5' else ())[0]
        except Violation as x:
            err = err or x
    raise err
