"""P19: external programs are run, bounded in time and their failures reported.

ExternalCode components and the functions below them run against a simulated process table (sim/simproc.py) and a
virtual clock: programs of any length, exit status, behaviour under signals and number of children, starts that fail,
polls that are late, signals that are refused, files that cannot be opened, interrupts while waiting."""
import errno
import gc
import os
import signal
import subprocess

import numpy as np

from checks import sess
from sim import mpiharness as H, simproc
from sim.kernel import Violation

PROPERTY = 'P19'
RULE = ('every execution either reports the exit the program really had or a time limit really exceeded, starts what '
        'it was told to, and leaves no process, file or directory behind')
QUICK = (6000, 45)
THOROUGH = (400000, 800)
COMPONENTS = {'real': 'openmdao: ExternalCode, ShellProc, call, check_call, problems, groups, DirContext; the file '
                      'system (in a scratch directory)',
              'stub': 'subprocess.Popen, signals, the process table, sleeping and clocks; the external programs'}
ASSUMPTIONS = ['a program that ends between its limit and the next polls may be reported either way',
               'pipes are not used for output', 'programs that leave their process group are out of reach']
FAULTS = ('start fails', 'slow poll', 'interrupted', 'signal refused', 'open fails', 'clock jumps', 'exit status',
          'ended by a signal', 'too long', 'ignores SIGTERM', 'output missing', 'input missing')
PROBES = ('timed out', 'timed out with children', 'killed', 'ended near its limit', 'process id used again',
          'error output is not text', 'run after a failed one', 'already ended when terminated', 'output redirected')


def prepare():
    simproc.install()
    H.prepare()


DIRECTED = []
ERRS = [b'', b'', b'no convergence\n', b'caf\xe9 \xff\xfe broken\n', b'x' * 70000]
STARTS = ['EAGAIN', 'ENOMEM', 'ENOENT', 'EACCES', 'E2BIG']
FOREVER = 1e7


# ------------------------------------------------------------------ generator
def gen_prog(rng, T, harm=1.0):
    if T > 0:
        dur = rng.choice([T * 0.1, T * 0.5, T * 0.95, T, T * 1.02, T * 1.5 + 5, T * 4 + 40, FOREVER])
    else:
        dur = rng.choice([0.0, 0.01, 0.1, 0.35, 2.0, 20.0])
    d = {'dur': round(dur, 4), 'rc': 0, 'err': 0, 'outs': [True, True], 'term': 'dies', 'slow': 1.0, 'slowrc': -15,
         'kids': 0, 'start': None}
    if rng.random() < 0.35 * harm:
        d['rc'] = rng.choice([1, 2, 3, 17, 127, 255, -1, -2, -6, -9, -11, -15])
        d['err'] = rng.randrange(len(ERRS))
    if rng.random() < 0.2:
        d['err'] = rng.randrange(len(ERRS))
    if rng.random() < 0.15 * harm:
        d['outs'] = [rng.random() < 0.5, rng.random() < 0.5]
    if rng.random() < 0.5:
        d['term'] = rng.choice(['ignores', 'slow'])
        d['slow'] = rng.choice([0.05, 0.5, 2.0, 30.0, 600.0])
        d['slowrc'] = rng.choice([-15, 0, 1])
    if rng.random() < 0.3:
        d['kids'] = rng.choice([1, 2])
    if rng.random() < 0.1 * harm:
        d['start'] = rng.choice(STARTS)
    return d


def gen_how(rng):
    T = rng.choice([0.0, 0.0, 0.5, 1.0, 2.5, 5.0, 60.0, 1000.0])
    P = rng.choice([0.0, 0.0, 0.0, 0.05, 0.3, 1.0, 3.0, 20.0])
    if P and max(T, 20.0) / P > 300:
        P = 0.0
    return {'T': T, 'P': P, 'err': rng.choice([None, 'error.out', 'error.out', 'error.out', 'STDOUT', 'DEV_NULL']),
            'out': rng.choice([None, 'o.log', 'o.log']), 'inp': rng.choice(['DEV_NULL', 'DEV_NULL', None, 'std.txt']),
            'env': rng.choice([{}, {'OMS_A': '1'}, {'OMS_A': '2', 'PATH': '/nowhere'}])}


def gen(rng, i, tier):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(['model', 'model', 'call', 'check_call', 'proc'])
        if kind == 'model':
            comps = []
            for _ in range(rng.choice([1, 1, 2])):
                h = gen_how(rng)
                h.update(hard=rng.random() < 0.5, dir=rng.choice([None, 'd0', 'd1', 'd1/deep']),
                         need=rng.choice([[], [], ['in.txt'], ['in.txt', 'nope.txt']]) if rng.random() < 0.6 else [],
                         makes=rng.choice([['out.txt'], ['out.txt', 'extra.txt']]),
                         cmd=rng.choice(['prog'] * 9 + ['missing', '']), group=rng.random() < 0.3)
                comps.append(h)
            ops.append(['model', comps, [[gen_prog(rng, c['T'], 0.6) for c in comps]
                                         for _ in range(rng.choice([1, 1, 2, 3]))]])
        else:
            h = gen_how(rng)
            h['str'] = rng.random() < 0.3
            ops.append([kind, h, gen_prog(rng, h['T'])])
            if kind == 'proc':
                ops[-1].append([rng.choice(['wait', 'poll', 'terminate', 'terminate', ['sleep', rng.choice([0.5, 30.])],
                                            ['term', rng.choice([0.5, 2.0])]]) for _ in range(rng.choice([1, 2, 3]))])
    f = []
    if rng.random() < 0.45:
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(['slow', 'slow', 'stop', 'open', 'kill', 'clock'])
            f.append({'kind': k, 'at': rng.choice([1, 1, 2, 3, 4, 6, 9, 14]),
                      'exc': rng.choice(['KeyboardInterrupt', 'RuntimeError', 'SystemExit']),
                      'errno': rng.choice(['EMFILE', 'ENOSPC', 'EACCES', 'EIO']),
                      'by': rng.choice([0.01, 0.5, 7.0, 100.0]), 'jump': rng.choice([-3600.0, -1.0, 1.0, 3600.0])})
    return {'ops': ops, 'faults': f, 'reuse': rng.random() < 0.4}


def shrink(scn):
    ops = scn['ops']
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(scn, ops=ops[:i] + ops[i + 1:])
    for i in range(len(scn['faults'])):
        yield dict(scn, faults=scn['faults'][:i] + scn['faults'][i + 1:])
    for i, o in enumerate(ops):
        def put(new):
            return dict(scn, ops=ops[:i] + [new] + ops[i + 1:])
        if o[0] == 'model':
            if len(o[1]) > 1:
                for j in range(len(o[1])):
                    yield put(['model', o[1][:j] + o[1][j + 1:], [r[:j] + r[j + 1:] for r in o[2]]])
            for j in range(len(o[2])):
                if len(o[2]) > 1:
                    yield put(['model', o[1], o[2][:j] + o[2][j + 1:]])
            for r in range(len(o[2])):
                for j in range(len(o[1])):
                    for k, v in CALM:
                        if o[2][r][j][k] != v:
                            rr = list(o[2][r])
                            rr[j] = dict(rr[j], **{k: v})
                            yield put(['model', o[1], o[2][:r] + [rr] + o[2][r + 1:]])
            for j, c in enumerate(o[1]):
                for k, v in (('dir', None), ('group', False), ('need', []), ('makes', ['out.txt']), ('env', {}),
                             ('out', None), ('inp', 'DEV_NULL'), ('err', 'error.out'), ('P', 0.0)):
                    if c[k] != v:
                        yield put(['model', o[1][:j] + [dict(c, **{k: v})] + o[1][j + 1:], o[2]])
        else:
            for k, v in CALM:
                if o[2][k] != v:
                    yield put([o[0], o[1], dict(o[2], **{k: v})] + o[3:])
            for k, v in (('env', {}), ('out', None), ('inp', 'DEV_NULL'), ('err', 'error.out'), ('P', 0.0),
                         ('str', False)):
                if o[1][k] != v:
                    yield put([o[0], dict(o[1], **{k: v})] + o[2:])
            if o[0] == 'proc':
                for j in range(len(o[3])):
                    yield put(o[:3] + [o[3][:j] + o[3][j + 1:]])
    if scn['reuse']:
        yield dict(scn, reuse=False)


CALM = (('rc', 0), ('err', 0), ('outs', [True, True]), ('term', 'dies'), ('kids', 0), ('start', None), ('dur', 0.1))


# ------------------------------------------------------------------ the run
def execute(scn, ch, run):
    def body(play):
        kern = play.job.kern
        w = Env(scn, kern, run)
        with w.world:
            w.patch_open()
            try:
                w.go()
            finally:
                w.unpatch_open()
    sess.start(dict(scn, nproc=1, stall=0, sticky=0, send=0), ch, run, body)


class Env(object):
    def __init__(self, scn, kern, run):
        self.scn, self.kern, self.run = scn, kern, run
        self.top = os.getcwd()
        self.world = simproc.World(kern, run, self.behave, scn['reuse'])
        self.world.onsleep, self.world.onkill = self.onsleep, self.onkill
        self.faults = [dict(f) for f in scn['faults']]
        self.nopen = 0
        self.fired = []                 # exceptions that were injected
        self.progs = {}
        self.count = 0
        os.mkdir('bin')
        self.exe = os.path.join(self.top, 'bin', 'prog')
        with open(self.exe, 'w') as f:
            f.write('#!/bin/sh\nexit 99\n')
        os.chmod(self.exe, 0o755)

    # -- faults -------------------------------------------------------------
    def take(self, kind, n):
        for f in self.faults:
            if f['kind'] == kind and f['at'] == n and not f.get('done'):
                f['done'] = True
                return f

    def onsleep(self, n, dt):
        f = self.take('clock', n)
        if f:
            self.run.count('fault.clock jumps')
            self.world.clock += f['jump']
        f = self.take('stop', n)
        if f:
            e = sess.make_exc(f['exc'], n)
            self.fired.append(e)
            return e
        f = self.take('slow', n)
        return f['by'] if f else 0.0

    def onkill(self, n):
        f = self.take('kill', n)
        if f:
            e = PermissionError(errno.EPERM, 'sim-fault-kill')
            self.fired.append(e)
            return e

    def patch_open(self):
        from openmdao.components import external_code
        from openmdao.util import shell_proc
        import builtins

        def fopen(name, *a, **kw):
            self.nopen += 1
            f = self.take('open', self.nopen)
            if f:
                e = OSError(getattr(errno, f['errno']), 'sim-fault-open', str(name))
                self.fired.append(e)
                self.run.count('fault.open fails')
                raise e
            return builtins.open(name, *a, **kw)
        self.mods = [external_code, shell_proc]
        for m in self.mods:
            m.open = fopen

    def unpatch_open(self):
        for m in self.mods:
            if 'open' in vars(m):
                del m.open

    # -- programs --------------------------------------------------------------
    def behave(self, args, shell):
        key = (args.split() if isinstance(args, str) else args)[-1]
        if key not in self.progs:
            raise Violation('wrong-command', 'a program is started as %r' % (args,))
        rec = self.progs[key]
        rec['starts'] += 1
        prog = rec['prog']
        if prog['start']:
            e = OSError(getattr(errno, prog['start']), 'sim-fault-start')
            rec['starterr'] = e
            return e

        def err(p):
            if prog['err']:
                p.write('err', ERRS[prog['err']])

        def out(p):
            p.write('out', b'done\n')
            if not any(q is not p and q.alive() for q in self.world.procs):
                for name, data in sorted(p.wrote.items()):
                    if not name.startswith(self.top + '/'):
                        continue
                    with open(name, 'rb') as f:
                        got = f.read()
                    rec['redirected'] = rec.get('redirected', 0) + 1
                    if got != data:
                        rec['file'] = (name[len(self.top) + 1:], got, data)
            if 'model' in rec:
                with open(os.path.join(p.cwd or os.getcwd(), 'in.txt')) as f:
                    x = float(f.read())
                for name, on in zip(('out.txt', 'extra.txt'), prog['outs']):
                    if on:
                        with open(name, 'w') as f:
                            f.write(repr(2 * x + 1))

        def where(p):
            rec['cwd'] = os.getcwd()
        return {'dur': prog['dur'], 'rc': prog['rc'], 'term': prog['term'], 'slow': prog['slow'],
                'slowrc': prog['slowrc'], 'kids': prog['kids'],
                'acts': [(0.0, where), (prog['dur'] * 0.2, err), (prog['dur'] * 0.9, out)]}

    def prepare(self, how, prog, model=None):
        self.count += 1
        key = 'k%d' % self.count
        rec = self.progs[key] = {'prog': prog, 'how': how, 'starts': 0, 'starterr': None, 'cwd': None, 'key': key}
        if model is not None:
            rec['model'] = model
        return key, rec

    def redirect(self, name):
        from openmdao.util import shell_proc as sp
        return {'STDOUT': sp.STDOUT, 'DEV_NULL': sp.DEV_NULL}.get(name, name)

    # -- operations ------------------------------------------------------------
    def go(self):
        run = self.run
        with open('std.txt', 'w') as f:
            f.write('input\n')
        failed = False
        keys = []
        for op in self.scn['ops']:
            env = dict(os.environ)
            if op[0] == 'model':
                k = self.model(op)
            elif op[0] == 'proc':
                k = self.proc(op)
            else:
                k = self.call(op)
            keys.append(k)
            self.after(op[0], env)
            if failed and 'ok' in k:
                run.count('probe.run after a failed one')
            failed = failed or 'ok' not in k
        run.key = '; '.join(keys)
        run.sample = run.key
        run.nontrivial = len(self.world.procs) > 0

    def attempt(self, fn):
        """(result, exception, programs started, files opened, seconds, seconds slept too long)"""
        w, k = self.world, self.kern
        n0, t0, x0, f0 = len(w.procs), k.now, w.extra, len(self.fired)
        r = e = None
        try:
            r = fn()
        except Violation:
            raise
        except BaseException as x:
            if type(x).__name__ in ('SimKilled', 'SimCrash', 'CpuLimit', 'SimStop'):
                raise
            e = x
            while x is not None:            # its frames hold what they opened
                x.__traceback__, x = None, x.__context__
        top = [p for p in w.procs[n0:] if p.parent is None]
        return r, e, top, t0, k.now - t0, w.extra - x0, self.fired[f0:]

    def after(self, what, env, expect=()):
        """Nothing is left behind."""
        if any(f.get('done') and f['kind'] == 'open' for f in self.faults):
            gc.collect()
        w = self.world
        if os.getcwd() != self.top:
            raise Violation('directory-left', 'after %s the current directory is %s' % (what, os.getcwd()))
        if dict(os.environ) != env:
            raise Violation('environment-changed', 'after %s' % what)
        mine = set(fd for p in w.procs for fd in p.fds.values())
        for fd in os.listdir('/proc/self/fd'):
            try:
                name = os.readlink('/proc/self/fd/' + fd)
            except OSError:
                continue
            if name.startswith(self.top + '/') and int(fd) not in mine:
                raise Violation('file-left-open', 'after %s, %s is still open' % (what, name[len(self.top) + 1:]))

    def judge(self, what, rec, how, prog, att, result):
        """Was what is reported what happened?  result(kind, p): 'ended', 'timeout', 'error' -> what was reported
        Returns 'ended' / 'timeout' / 'error' for the class of outcome that must have been reported."""
        r, e, procs, t0, took, extra, fired = att
        run = self.run
        T, P = how['T'], how['P']
        if len(procs) > 1 or rec['starts'] > 1:
            raise Violation('started-twice', '%s: the program was started %d times' % (what, rec['starts']))
        p = procs[0] if procs else None
        if p is None:
            return 'not started'
        want = self.args(rec, how)
        if p.args != want or bool(p.shell) != isinstance(want, str):
            raise Violation('wrong-command', '%s: started %r (shell %s), the command is %r' % (what, p.args, p.shell, want))
        run.count('probe.output redirected', rec.get('redirected', 0))
        if 'file' in rec:
            raise Violation('wrong-output', '%s: %s has %r when the program has written %r to it' % (
                (what,) + rec['file']))
        for k, v in list(how['env'].items()) + [(k, v) for k, v in os.environ.items() if k not in how['env']]:
            if p.env.get(k) != v:
                raise Violation('wrong-environment', '%s: %s is %r in the program, should be %r'
                                % (what, k, p.env.get(k), v))
        slack = (2 * P if P else 0.5 + 0.05 * T) + extra + 1e-6
        own = [s for s in p.sigs]
        if own and (how['T'] <= 0 and not fired):
            raise Violation('ended-early', '%s: the program was sent signal %d although it has no time limit' % (what, own[0][1]))
        if own and not fired and own[0][0] - p.started < T - 1e-6:
            raise Violation('ended-early', '%s: the program was sent signal %d after %g s; its limit is %g s'
                            % (what, own[0][1], own[0][0] - p.started, T))
        natural = p.ended is not None and not own
        if natural and T > 0:
            d = p.ended - p.started
            if d > T:
                run.count('probe.ended near its limit')
            if d > T + slack:
                raise Violation('limit-exceeded', '%s: the program ran %g s and ended by itself; its limit is %g s'
                                % (what, d, T))
        if T > 0 and took > T + slack + 60:
            raise Violation('limit-exceeded', '%s took %g s; the limit is %g s' % (what, took, T))
        if T > 0 and not natural:
            run.count('fault.too long')
            if prog['term'] == 'ignores':
                run.count('fault.ignores SIGTERM')
        if natural and prog['rc'] > 0:
            run.count('fault.exit status')
        if natural and prog['rc'] < 0:
            run.count('fault.ended by a signal')
        return 'ended' if natural else 'stopped'

    def gone(self, what, procs, why):
        for p in procs:
            fam = [q for q in self.world.procs if q is p or q.parent is p]
            left = [q for q in fam if q.alive()]
            if left:
                raise Violation('program-left', '%s: %s, and %s still running afterwards (signals sent: %s)' % (
                    what, why, 'the program is' if p in left else 'its children are',
                    [int(s) for _, s in left[0].sigs]))
            if not p.reaped:
                raise Violation('zombie', '%s: %s, and its exit status was never collected' % (what, why))
            if len(fam) > 1:
                self.run.count('probe.timed out with children')
            if any(s == signal.SIGKILL for _, s in p.sigs):
                self.run.count('probe.killed')

    def args(self, rec, how):
        if how.get('str'):
            return '%s -v %s' % (self.exe, rec['key'])
        return [self.exe, '-v', rec['key']]

    def nokill(self, fired):
        """Ending the program was not itself disturbed."""
        return len(fired) == 1 and 'sim-fault-kill' not in str(fired[0])

    def hurt(self, what, att, why=''):
        """An injected failure fired; it must be told, and nothing may be left."""
        r, e, procs, t0, took, extra, fired = att
        if e is None:
            raise Violation('failure-lost', '%s: %r was lost; the call returned %r' % (what, fired[0], r))
        if self.nokill(fired):
            self.gone(what, procs, '%r was raised' % fired[0])
        return 'hurt'

    def call(self, op):
        from openmdao.util import shell_proc as sp
        kind, how, prog = op
        key, rec = self.prepare(how, prog)
        args = self.args(rec, how)
        what = '%s(timeout=%g, poll_delay=%g)' % (kind, how['T'], how['P'])
        att = self.attempt(lambda: getattr(sp, kind)(
            args, self.redirect(how['inp']), self.redirect(how['out']), self.redirect(how['err']), how['env'],
            how['P'], how['T']))
        r, e, procs, t0, took, extra, fired = att
        out = self.judge(what, rec, how, prog, att, None)
        if rec['starterr'] is not None:
            if e is not rec['starterr']:
                raise Violation('failure-lost', '%s: starting failed with %r; got %r, raised %r'
                                % (what, rec['starterr'], r, e))
            return kind + ' no start'
        if fired:
            return kind + ' ' + self.hurt(what, att)
        if out == 'not started':
            raise Violation('not-started', '%s: no program was started; raised %r' % (what, e))
        p = procs[0]
        rc = prog['rc']
        if out == 'ended':
            if kind == 'call':
                if e is not None or r[0] != rc:
                    raise Violation('wrong-outcome', '%s: the program ended with %d; got %r, raised %r'
                                    % (what, rc, r, e))
                self.named(what, rc, r[1])
            elif rc == 0 and e is not None:
                raise Violation('wrong-outcome', '%s: the program ended well; raised %r' % (what, e))
            elif rc and (not isinstance(e, subprocess.CalledProcessError) or e.returncode != rc or str(rc) not in str(e)):
                raise Violation('wrong-outcome', '%s: the program ended with %d; raised %r' % (what, rc, e))
            elif rc:
                self.named(what, rc, str(e))
            return '%s %s' % (kind, 'ok' if rc == 0 else 'status')
        self.run.count('probe.timed out')
        if kind == 'call' and (e is not None or r[0] is not None or 'ime' not in str(r[1])):
            raise Violation('wrong-outcome', '%s: the time limit was exceeded; got %r, raised %r' % (what, r, e))
        if kind == 'check_call' and not isinstance(e, subprocess.CalledProcessError):
            raise Violation('wrong-outcome', '%s: the time limit was exceeded; raised %r' % (what, e))
        self.gone(what, procs, 'the time limit was exceeded')
        return kind + ' timeout'

    def named(self, what, rc, text):
        if rc < 0:
            names = [s.name for s in signal.Signals if s == -rc] + [n for n in dir(signal) if n.startswith('SIG') and
                                                                   not n.startswith('SIG_') and
                                                                   getattr(signal, n) == -rc]
            if not any(n in str(text) for n in names):
                raise Violation('wrong-cause', '%s: the program was ended by %s; the message is %r'
                                % (what, names[0], text))

    def proc(self, op):
        from openmdao.util import shell_proc as sp
        kind, how, prog, acts = op
        key, rec = self.prepare(how, prog)
        args = self.args(rec, how)
        what = 'ShellProc'
        att = self.attempt(lambda: sp.ShellProc(
            args, self.redirect(how['inp']), self.redirect(how['out']), self.redirect(how['err']), how['env']))
        sproc, e, procs, t0, took, extra, fired = att
        if rec['starterr'] is not None:
            if e is not rec['starterr']:
                raise Violation('failure-lost', '%s: starting failed with %r; raised %r' % (what, rec['starterr'], e))
            return 'proc no start'
        if fired:
            return 'proc ' + self.hurt(what, att)
        if e is not None:
            raise Violation('exception', '%s raised %r' % (what, e))
        p = procs[0]
        self.judge(what, rec, dict(how, T=0.0), prog, att, None)
        names = []
        asked = False
        for a in acts + ['wait']:
            n = a if isinstance(a, str) else a[0]
            names.append(n)
            before, ended, nsig = p.status, p.ended, len(p.sigs)
            fam = [q for q in self.world.procs if q.parent is p and q.alive()]
            was = [len(q.sigs) for q in fam]
            if n == 'sleep':
                self.kern.sleep(a[1])
                continue
            T = how['T']
            if n == 'wait' and T <= 0 and prog['dur'] > 1e6:
                T = 10.0
            if n == 'wait' and how['P'] and T / how['P'] > 300:
                T = how['P'] * 100
            if n == 'wait':
                fn = lambda: sproc.wait(how['P'], T)
            elif n == 'poll':
                fn = sproc.poll
            elif n == 'terminate':
                fn = sproc.terminate
            else:
                fn = lambda: sproc.terminate(a[1])
            at = self.attempt(fn)
            r, e = at[0], at[1]
            if at[6]:
                sproc.close_files()
                for q in list(self.world.running()):
                    q.signal(signal.SIGKILL)
                self.kern.sleep(1.0)
                self.world.poll(sproc)
                return 'proc hurt'
            if e is not None:
                raise Violation('exception', '%s after %s raised %r' % (n, names[:-1], e))
            if n in ('terminate', 'term'):
                if ended is not None:
                    self.run.count('probe.already ended when terminated')
                elif len(p.sigs) == nsig:
                    raise Violation('not-ended', '%s sent the program no signal' % n)
                elif any(len(q.sigs) == k for q, k in zip(fam, was)):
                    raise Violation('not-ended', '%s did not reach the children of the program' % n)
                asked = True
            if n == 'poll' and (p.ended is None) != (r is None):
                raise Violation('wrong-outcome', 'poll returned %r; the exit status is %r' % (r, p.status))
            if n == 'wait' and ended is not None and r[0] != before:
                raise Violation('wrong-outcome', 'wait returned %r; the program had ended with %r' % (r, before))
            if n in ('wait', 'term'):
                self.after(n, dict(os.environ))         # the process object is still in use
            if n in ('wait', 'term') and r[0] is not None:
                if r[0] != p.status:
                    raise Violation('wrong-outcome', '%s returned %r; the exit status is %r' % (n, r, p.status))
                self.named(n, r[0], r[1])
            if n in ('wait', 'term') and r[0] is None:
                self.run.count('probe.timed out')
                if n == 'wait' and at[4] < T - 1e-6:
                    raise Violation('ended-early', 'wait gave up after %g s; its limit is %g s' % (at[4], T))
                self.gone(n, [p], 'the time limit was exceeded')
        return 'proc ' + ','.join(names)

    def model(self, op):
        from openmdao.api import Problem, Group, IndepVarComp, ExternalCode, AnalysisError
        comps, runs = op[1], op[2]
        env = self

        class Prog(ExternalCode):
            def __init__(self, how, idx):
                super(Prog, self).__init__()
                self.how, self.idx, self.rec = how, idx, None
                self.add_param('x', 0.0)
                self.add_output('y', 0.0)
                self.stdin, self.stdout, self.stderr = [env.redirect(how[k]) for k in ('inp', 'out', 'err')]
                o = self.options
                o['timeout'], o['poll_delay'], o['fail_hard'] = how['T'], how['P'], how['hard']
                o['env_vars'] = dict(how['env'])
                o['external_input_files'], o['external_output_files'] = list(how['need']), list(how['makes'])

            def solve_nonlinear(self, params, unknowns, resids):
                self.entered = os.getcwd()
                for n in ('out.txt', 'extra.txt'):
                    if os.path.exists(n):
                        os.unlink(n)
                with open('in.txt', 'w') as f:
                    f.write(repr(float(params['x'])))
                if self.how['inp'] == 'std.txt':
                    with open('std.txt', 'w') as f:
                        f.write('input\n')
                super(Prog, self).solve_nonlinear(params, unknowns, resids)
                with open('out.txt') as f:
                    unknowns['y'] = float(f.read())

        p = Problem(root=Group())
        p.root.add('p', IndepVarComp('x', 1.0))
        src, objs = 'p.x', []
        for i, h in enumerate(comps):
            c = Prog(h, i)
            if h['dir']:
                c.directory = h['dir']
                c.create_dirs = True
            if h['group']:
                g = Group()
                g.add('c', c)
                p.root.add('g%d' % i, g)
                name = 'g%d.c' % i
            else:
                p.root.add('c%d' % i, c)
                name = 'c%d' % i
            p.root.connect(src, name + '.x')
            src = name + '.y'
            objs.append((c, name))
        p.setup(check=False)
        said = []
        for ri, progs in enumerate(runs):
            x = 1.0 + ri
            p['p.x'] = x
            recs = []
            for (c, name), how, prog in zip(objs, comps, progs):
                key, rec = self.prepare(how, prog, model=name)
                exe = {'prog': [self.exe, '-v', key], 'missing': [self.exe + 'nope', '-v', key], '': []}[how['cmd']]
                c.options['command'] = exe
                c.rec, c.entered, c.return_code = rec, None, None
                recs.append(rec)
            t0 = self.kern.now
            att = self.attempt(p.run)
            e, procs, fired = att[1], att[2], att[6]
            said.append(self.judge_run(p, objs, comps, progs, recs, att, x))
            self.after('a run that raised %s' % type(e).__name__ if e is not None else 'a run', dict(os.environ))
            att = e = None
        return 'model ' + ' '.join(said)

    def judge_run(self, p, objs, comps, progs, recs, att, x):
        from openmdao.api import AnalysisError
        r, e, procs, t0, took, extra, fired = att
        run = self.run
        if fired:
            if e is None:
                raise Violation('failure-lost', 'the run returned although %r was raised' % fired[0])
            if self.nokill(fired):
                self.gone('the run', procs[-1:], '%r was raised' % fired[0])
            return 'hurt'
        by = {q.args[-1]: q for q in procs}
        stop = None
        for (c, name), how, prog, rec in zip(objs, comps, progs, recs):
            err = RuntimeError if how['hard'] else AnalysisError
            q = by.get(rec['key'])
            if stop is not None:
                if q is not None or rec['starts'] or c.entered:
                    raise Violation('ran-on', '%s ran after %s' % (name, stop))
                continue
            here = os.path.join(self.top, how['dir']) if how['dir'] else self.top
            if os.path.realpath(c.entered or '') != os.path.realpath(here):
                raise Violation('wrong-directory', '%s ran in %s, should be %s' % (name, c.entered, here))
            if how['cmd'] != 'prog':
                if e is None or q is not None:
                    raise Violation('failure-lost', '%s has the command %r; raised %r' % (name, c.options['command'], e))
                if not isinstance(e, (ValueError, RuntimeError, AnalysisError)):
                    raise Violation('wrong-error', '%s has no command; raised %r' % (name, e))
                stop = 'a missing command'
                continue
            if 'nope.txt' in how['need']:
                run.count('fault.input missing')
                if q is not None or rec['starts']:
                    raise Violation('too-late', '%s was started although an input file is missing' % name)
                if type(e) is not err or 'nope.txt' not in str(e) or 'in.txt' in str(e):
                    raise Violation('wrong-error', '%s lacks the input file nope.txt; raised %r' % (name, e))
                stop = 'a missing input file'
                continue
            if rec['starterr'] is not None:
                if type(e) is not type(rec['starterr']) or e.errno != rec['starterr'].errno:
                    raise Violation('failure-lost', 'starting %s failed with %r; raised %r' % (name, rec['starterr'], e))
                stop = 'a failed start'
                continue
            if q is None:
                raise Violation('not-started', '%s was not started; raised %r' % (name, e))
            one = (r, e, [q], q.started, (q.ended or self.kern.now) - q.started, extra, fired)
            out = self.judge(name, rec, how, prog, one, None)
            if rec['cwd'] is not None and os.path.realpath(rec['cwd']) != os.path.realpath(here):
                raise Violation('wrong-directory', 'the program of %s ran in %s, should be %s' % (name, rec['cwd'], here))
            if out == 'stopped':
                run.count('probe.timed out')
                if not isinstance(e, AnalysisError) or 'imed out' not in str(e):
                    raise Violation('wrong-error', '%s exceeded its time limit; raised %r' % (name, e))
                self.gone(name, [q], 'the time limit was exceeded')
                if not c.return_code:
                    raise Violation('wrong-status', '%s exceeded its time limit; return_code is %r' % (name, c.return_code))
                stop = 'an exceeded time limit'
                continue
            if c.return_code != prog['rc']:
                raise Violation('wrong-status', '%s ended with %d; return_code is %r' % (name, prog['rc'], c.return_code))
            if not q.reaped:
                raise Violation('zombie', '%s: the exit status of the program was never collected' % name)
            if prog['rc']:
                if type(e) is not err or str(prog['rc']) not in str(e):
                    raise Violation('wrong-error', '%s ended with %d; raised %r' % (name, prog['rc'], str(e)[:200]))
                if how['err'] == 'error.out' and prog['err'] and prog['dur'] > 0:
                    text = ERRS[prog['err']]
                    if b'\xff' in text:
                        run.count('probe.error output is not text')
                        text = b' broken'
                    if text.decode('ascii').strip() not in str(e):
                        raise Violation('wrong-cause', '%s ended with %d and wrote %r; raised %r'
                                        % (name, prog['rc'], text[:50], str(e)[:200]))
                stop = 'a failure'
                continue
            lost = [n for n, on in zip(('out.txt', 'extra.txt'), prog['outs']) if not on and n in how['makes']]
            if lost:
                run.count('fault.output missing')
                if type(e) is not err or any(n not in str(e) for n in lost):
                    raise Violation('wrong-error', '%s did not write %s; raised %r' % (name, lost, e))
                stop = 'a missing output file'
                continue
            x = 2 * x + 1
            if e is None and not np.all(np.asarray(p[name + '.y']) == x):
                raise Violation('wrong-result', '%s.y is %r, the program wrote %r' % (name, p[name + '.y'], x))
        if stop is None and e is not None:
            raise Violation('wrong-error', 'all programs ended well; the run raised %r' % e)
        if stop is not None and e is None:
            raise Violation('failure-lost', 'the run returned in spite of %s' % stop)
        return 'ok' if stop is None else stop
