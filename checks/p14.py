"""P14: a crash never corrupts what was recorded."""
import os
import re

from checks import p01, rec
from sim import models as M, simvfs, mpiharness as H
from sim.kernel import Violation
from sim.simfs import SimFS
from sim.simh5 import SimH5

PROPERTY = 'P14'
RULE = ('random models with a plain driver, a design of experiments or an optimizer and one to three recorders that '
        'write files (sqlite, HDF5, text dump, CSV), on the driver and on solvers; sessions of runs, failing runs, '
        'derivative computations, option changes and new setups; at random operations on the files (statements of '
        'sqlite and every write, truncation and deletion it makes below, changes and flushes of HDF5 objects, writes and flushes of text files) the process is considered to '
        'die: what is on the disk at that moment, for text also with the last write torn at a random byte, is '
        'opened and read back later; non-trivial: at least two such images with iterations in them')
QUICK = (900, 45)
THOROUGH = (30000, 1500)
COMPONENTS = {'real': ['openmdao (all of it, from /repo)', 'sqlitedict', 'sqlite', 'h5py', 'csv', 'numpy', 'scipy',
                       'files and their buffers'],
              'stub': ['the crash: a copy of the files as another process sees them',
                       'threads, queues and locks of sqlitedict: sim/simsql.py', 'clock of the recording manager',
                       'scipy.optimize.minimize: visits scripted designs', 'user components: sim/models.py']}
ASSUMPTIONS = ['the process dies, the machine does not (what was handed to the system survives)',
               'a crash inside one call of HDF5 is left to that library',
               'a crash while HDF5 objects are being changed is not judged (P14-K1)',
               'the recorder was created before the crash']
FAULTS = ('crash at sqlite', 'crash at text file', 'crash at HDF5', 'crash in the middle of a text write',
          'crash in the middle of a write by sqlite',
          'user code raised RuntimeError', 'user code raised AnalysisError')
PROBES = ('read back sql', 'read back h5', 'read back dump', 'read back csv', 'crash while recording',
          'crash between recordings', 'derivatives recorded', 'iteration name repeated')
prepare = H.prepare


def gen(rng, i, tier):
    while True:
        scn = rec.gen_serial(rng, kinds=['sql', 'sql', 'dump', 'csv', 'h5'])
        if any(o[0] == 'run' for o in scn['ops']):
            break
    scn['every'] = rng.choice([4, 12, 40, 120])
    scn['maximg'] = rng.choice([4, 8, 16])
    return scn


shrink = rec.shrink


class Images(object):
    """Copies of the recording files at moments of a crash."""

    def __init__(self, s, scn, run):
        self.s, self.scn, self.run = s, scn, run
        self.list = []
        self.on = False
        self.seen = {}

    def point(self, op, path):
        if not self.on or len(self.list) >= self.scn['maximg']:
            return
        k = self.s.kern
        if k.choose(self.scn['every'], 'crash') != self.scn['every'] - 1:
            return
        self.take(op)

    def take(self, op, cut=None):
        evs = self.s.c.events
        d = os.path.join(self.s.top, 'img%d' % len(self.list))
        os.mkdir(d)
        files = {}
        src = os.path.join(self.s.top, 'rec')
        for base, dirs, names in os.walk(src):
            sub = os.path.join(d, os.path.relpath(base, src))
            if not os.path.isdir(sub):
                os.mkdir(sub)
            for n in sorted(names):
                fd = os.open(os.path.join(base, n), os.O_RDONLY)
                b = b''
                while True:
                    x = os.read(fd, 1 << 20)
                    if not x:
                        break
                    b += x
                os.close(fd)
                if cut is not None and os.path.join(base, n) == cut[0]:
                    b = b[:cut[1]]
                fd = os.open(os.path.join(sub, n), os.O_WRONLY | os.O_CREAT, 0o644)
                os.write(fd, b)
                os.close(fd)
        img = {'dir': d, 'op': op, 'started': len(evs), 'done': sum(e['done'] or 'exc' in e for e in evs),
               'n': len(self.list)}
        # HDF5 does not update a file atomically (P14-K1)
        img['dirty'] = set(self.h5.dirty) if img['done'] < img['started'] or self.s.busy else set()
        self.list.append(img)
        busy = img['done'] < img['started']
        self.run.count('probe.crash ' + ('while recording' if busy else 'between recordings'))
        self.run.count('fault.crash at ' + ('sqlite' if op.startswith('sqlite') else
                                            'HDF5' if op.startswith('h5') else 'text file'))
        self.s.kern.event('crash image', op)

    def vfs(self, op, path, n):
        """sqlite changes one of its files."""
        if not self.on or self.s.kern.me() is None or not path.startswith(self.s.top):
            return None
        if op == 'torn write':
            self.take('sqlite torn write to ' + path[len(self.s.top):])
            return None
        self.point('sqlite file ' + op + ' ' + path[len(self.s.top):], None)
        if op == 'write' and n > 1 and len(self.list) < self.scn['maximg']:
            k = self.s.kern
            if k.choose(self.scn['every'], 'crash in write') == self.scn['every'] - 1:
                self.run.count('fault.crash in the middle of a write by sqlite')
                return 'torn', max(1, n * k.choose(8, 'where') // 8)
        return None

    def flushed(self, path, a, b):
        """A write of bytes a..b of a text file: it may stop at any byte."""
        if not self.on or len(self.list) >= self.scn['maximg'] or b <= a:
            return
        k = self.s.kern
        if k.choose(self.scn['every'], 'crash in write') != self.scn['every'] - 1:
            return
        j = k.choose(16, 'where')
        self.run.count('fault.crash in the middle of a text write')
        self.take('write', (path, a + (b - a) * j // 16))


def execute(scn, ch, run):
    run.key = p01.hash_key(scn)
    s = rec.Serial(scn, ch, run, max_steps=600000)
    im = Images(s, scn, run)
    n = [0]

    def body():
        rec.dirs(s.top)
        p = s.build()
        fs = SimFS(os.path.join(s.top, 'rec'), run)
        fs.torn = lambda op, path: False
        fs.image = im.point
        fs.flushed = im.flushed
        s.sim.sql.image = im.point
        simvfs.install(im.vfs)
        with fs, SimH5(s.kern) as h5:
            h5.image = im.point
            im.h5 = h5
            s.busy = True
            rec.attach(s.c, p, s.names, scn, s.top)
            s.wrap()
            im.on = True
            setup(s)
            session(s, scn, run)
            im.take('end of the session')
            im.on = False
            p.cleanup()
        s.sim.sql.image = None
        simvfs.uninstall()
        full = [rec.expected(s.c, k, sp) for k, sp in enumerate(scn['recs'])]
        for k, sp in enumerate(scn['recs']):
            tag = 'recorder %d (%s on %s) after a normal close' % (k, sp['kind'], sp['at'])
            path = s.c.objs[k][1]
            if sp['kind'] in ('sql', 'h5'):
                rec.check_file(tag, path, sp['kind'], full[k])
            elif sp['kind'] == 'dump':
                rec.check_dump(tag, rec.read(path), full[k])
            else:
                rec.check_csv(tag, rec.read(path), full[k], None)
        for img in im.list:
            n[0] += judge(s, scn, run, img)
    try:
        s.start(body)
    finally:
        simvfs.uninstall()
    names = [(e['mgr'], e['coord']) for e in s.c.events if e['ev'] == 'it']
    run.count('probe.iteration name repeated', int(len(set(names)) < len(names)))
    run.count('crash images', len(im.list))
    run.nontrivial = n[0] >= 2
    run.sample = {'recs': scn['recs'], 'ops': scn['ops'], 'images': [(i['op'], i['done'], i['started'])
                                                                   for i in im.list]}


def setup(s):
    s.busy = True
    s.setup()
    s.busy = False


def session(s, scn, run):
    p = s.p
    ran = False
    for j, op in enumerate(scn['ops']):
        f = op[-1] if isinstance(op[-1], dict) and 'exc' in op[-1] else None
        if op[0] == 'set':
            s.inputs.update(op[1])
            p01.set_indeps(p, scn['ps']['spec'], s.names, op[1])
        elif op[0] == 'setup':
            setup(s)
            ran = False
        elif op[0] == 'opts':
            if op[1] < len(scn['recs']):
                s.c.opts[op[1]] = dict(op[2])
                rec.setopts(s.c.objs[op[1]][0], op[2])
                setup(s)
                ran = False
        elif op[0] == 'run':
            p01.set_indeps(p, scn['ps']['spec'], s.names, s.inputs)
            s.calls, s.armed, s.fired = 0, f, None
            try:
                s.drive()
                ran = s.fired is None
            except (RuntimeError, Exception) as x:
                if isinstance(x, Violation) or s.fired is None or x is not s.fired and 'sim-fault' not in str(x):
                    raise
                ran = False
            finally:
                s.armed = None
        elif op[0] == 'grad' and ran and scn['drv'] != 'doe':
            s.grad(op)
            run.count('probe.derivatives recorded')


def judge(s, scn, run, img):
    """What a crash at this moment leaves behind."""
    hold = 0
    for k, sp in enumerate(scn['recs']):
        path = s.c.objs[k][1]
        now = os.path.join(img['dir'], os.path.relpath(path, os.path.join(s.top, 'rec')))
        tag = 'recorder %d (%s on %s) after a crash at "%s", %d recordings returned and %d began' % (
            k, sp['kind'], sp['at'], img['op'], img['done'], img['started'])
        # the events of this recorder that had begun and those whose recording had returned
        c = Cut(s.c, img['started'])
        evs = rec.expected(c, k, sp)
        need = len(rec.expected(Cut(s.c, img['done']), k, sp))
        if not os.path.exists(now):
            raise Violation('lost-file', '%s: the file is not there' % tag)
        if sp['kind'] == 'h5' and path in img['dirty']:
            if scn.get('directed') != 'P14-K1':
                run.count('probe.crash inside a change of an HDF5 file, not judged')
                continue
            try:
                m, rd = rec.check_file(tag, now, sp['kind'], evs, exact=False, need=need)
            except Violation as x:
                raise Violation('torn-hdf5', x.msg)
            hold += m
        elif sp['kind'] in ('sql', 'h5'):
            m, rd = rec.check_file(tag, now, sp['kind'], evs, exact=False, need=need)
            hold += m
        else:
            final, got = rec.read(path), rec.read(now)
            if not final.startswith(got):
                raise Violation('corrupted', '%s: the file is not a prefix of the final one: ...%r' % (
                    tag, got[-60:]))
            ends = rec.dump_ends(final) if sp['kind'] == 'dump' else rec.csv_ends(final)
            have = sum(x <= len(got) for x in ends)
            if have < need:
                raise Violation('lost-iteration', '%s: the file holds %d complete entries, recorded were %d' % (
                    tag, have, need))
            if have > len(evs):
                raise Violation('wrong-entries', '%s: the file holds %d entries of %d' % (tag, have, len(evs)))
            hold += have
        run.count('probe.read back ' + sp['kind'])
    return int(hold > 0)


class Cut(object):
    def __init__(self, c, n):
        self.events = c.events[:n]


DIRECTED = [
    {'mode': 'serial',
     'ps': {'spec': {'tree': {'g': 0, 'kind': 'G', 'subs': ['c4', 'c3', 'c2', 'c1'], 'cyc': True},
                     'comps': {'c1': {'kind': 'X',
                                      'ins': [{'src': ['c2', 0],
                                               's': [4],
                                               'u': None,
                                               'idx': None,
                                               'how': 'c',
                                               'n': 'x7'},
                                              {'src': ['c4', 0],
                                               's': [2],
                                               'u': None,
                                               'idx': [0, 0],
                                               'how': 'c',
                                               'idxc': True,
                                               'n': 'x8'}],
                                      'outs': [{'n': 'y5', 's': 0, 'u': None}],
                                      'seed': 668748076},
                               'c2': {'kind': 'F',
                                      'ins': [{'src': ['c4', 0],
                                               's': [1],
                                               'u': None,
                                               'idx': None,
                                               'how': 'c',
                                               'n': 'x6'}],
                                      'outs': [{'n': 'y4', 's': [4], 'u': None}],
                                      'seed': 1025137802},
                               'c3': {'kind': 'P',
                                      'ins': [],
                                      'outs': [{'n': 'y2', 's': 0, 'u': None, 'v': [-1.414]},
                                               {'n': 'y3', 's': 0, 'u': 's', 'v': [0.735]}],
                                      'seed': 143239068},
                               'c4': {'kind': 'P',
                                      'ins': [],
                                      'outs': [{'n': 'y1', 's': [1], 'u': None, 'v': [0.98]}],
                                      'seed': 993545502}}},
            'root': 'user',
            'gfd': None,
            'sub': ['c2'],
            'dirs': {},
            'ln': {'0': 'gmrespre'},
            'nl': {'0': 'newtonln'},
            'usegs': False,
            'dv': [{'c': 'c4', 'n': 'y1', 'idx': [0]}],
            're': [{'c': 'c1', 'n': 'y5', 'idx': None}, {'c': 'c2', 'n': 'y4', 'idx': None}]},
     'drv': 'plain',
     'recs': [{'kind': 'h5',
               'at': ['driver'],
               'opts': {'record_params': True,
                        'record_unknowns': True,
                        'record_resids': True,
                        'record_derivs': False,
                        'record_metadata': True},
               'ext': 'r%d'}],
     'ops': [['setup'], ['run']],
     'salts': 558191,
     'clk': 0,
     'every': 1,
     'maximg': 400,
     'directed': 'P14-K1'}]
