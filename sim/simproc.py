"""Simulated processes below subprocess.Popen.

Inside a kernel task, starting a program gives a Proc: a kernel task of its own with a script (how long it runs, what
it writes, how it takes a signal), a process id, a process group, an exit status to be collected.  Signals, waiting,
polling, sleeping and clocks go through the simulation; nothing real is ever started or signalled.  Outside kernel
tasks everything is passed on."""
import os
import errno
import signal
import subprocess
import time

from sim import kernel as K
from sim.kernel import Violation

FIRST_PID = 20000000


class Proc(object):
    def __init__(self, world, pid, pgid, args, env, cwd, shell, fds, script, parent=None):
        self.world, self.pid, self.pgid = world, pid, pgid
        self.args, self.env, self.cwd, self.shell = args, env, cwd, shell
        self.fds, self.script, self.parent = fds, script, parent
        self.started = world.kern.now
        self.ended = None           # time of its end
        self.status = None
        self.reaped = False
        self.sigs = []              # signals received: (time, signal)
        self.pending = None         # end at: (time, status)
        self.task = None
        self.wrote = {}             # what it has written to each file it was given

    def alive(self):
        return self.ended is None

    def signal(self, sig):
        k = self.world.kern
        if not self.alive():
            return
        self.sigs.append((k.now, sig))
        k.event('signal', self.pid, int(sig))
        how = self.script.get('term', 'dies')
        if sig == signal.SIGKILL:
            self.pending = (k.now, -int(sig))
        elif sig == 0:
            pass
        elif how == 'dies':
            self.pending = (k.now, -int(sig))
        elif how == 'slow' and self.pending is None:
            self.pending = (k.now + self.script.get('slow', 1.0), self.script.get('slowrc', -int(sig)))

    def pass_time(self, until):
        """Live until a moment; False when a signal ends it before."""
        k = self.world.kern
        while True:
            if self.pending is not None and self.pending[0] <= k.now:
                return False
            if k.now >= until:
                return True
            t = until if self.pending is None else min(until, self.pending[0])
            old = self.pending
            k.pause(lambda: self.pending is not old, 'program %d' % self.pid, timeout=t - k.now)

    def main(self):
        status = None
        try:
            for dt, act in self.script.get('acts', ()):
                if not self.pass_time(self.started + dt):
                    status = self.pending[1]
                    return
                act(self)
            if self.pass_time(self.started + self.script['dur']):
                status = self.script['rc']
            else:
                status = self.pending[1]
        finally:
            if status is not None:
                self.finish(status)
            for fd in self.fds.values():
                try:
                    os.close(fd)
                except OSError:
                    pass
            self.fds = {}

    def finish(self, status):
        k = self.world.kern
        self.ended, self.status = k.now, status
        k.event('program ends', self.pid, status)

    def write(self, which, data):
        if which in self.fds:
            os.write(self.fds[which], data)
            name = os.readlink('/proc/self/fd/%d' % self.fds[which])
            self.wrote[name] = self.wrote.get(name, b'') + data


class World(object):
    """The process table of one simulated run; use as a context manager around the tasks' work."""

    def __init__(self, kern, run, behave, reuse=False):
        self.kern, self.run, self.behave, self.reuse = kern, run, behave, reuse
        self.procs = []
        self.next = FIRST_PID
        self.free = []
        self.extra = 0.0                # seconds that sleeping took longer than asked for
        self.onsleep = None             # hook(n, dt) -> seconds longer, or an exception to raise
        self.nsleep = 0
        self.clock = 0.0                # offset of the wall clock
        self.onkill = None              # hook(n) -> exception or None
        self.nkill = 0
        self.stray = []

    # -- the table ----------------------------------------------------------
    def newpid(self):
        if self.free and self.reuse:
            self.run.count('probe.process id used again')
            return self.free.pop()
        self.next += 1
        return self.next

    def get(self, pid):
        for p in self.procs:
            if p.pid == pid and not p.reaped:
                return p

    def start(self, args, env, cwd, shell, fds, script, pgid=None, parent=None):
        p = Proc(self, self.newpid(), None, args, env, cwd, shell, fds, script, parent)
        p.pgid = p.pid if pgid is None else pgid
        self.procs.append(p)
        old = os.getcwd()
        if cwd:
            os.chdir(cwd)
        try:
            p.task = self.kern.spawn('program%d' % p.pid, p.main)
        finally:
            os.chdir(old)
        p.task.daemon = True
        self.kern.event('program starts', p.pid)
        self.run.count('programs started')
        for i in range(script.get('kids', 0)):
            self.start(args, env, cwd, shell, {}, {'dur': script['dur'], 'rc': 0}, pgid=p.pgid, parent=p)
        return p

    def reap(self, p):
        p.reaped = True
        self.free.append(p.pid)

    def running(self):
        return [p for p in self.procs if p.alive()]

    def unreaped(self):
        return [p for p in self.procs if not p.alive() and not p.reaped and p.parent is None]

    # -- calls of the operating system --------------------------------------------
    def kill_fault(self):
        self.nkill += 1
        e = self.onkill(self.nkill) if self.onkill else None
        if e is not None:
            self.run.count('fault.signal refused')
            raise e

    def kill(self, pid, sig):
        self.kill_fault()
        if pid <= 0:
            return self.killpg(-pid or os.getpid(), sig)
        p = self.get(pid)
        if p is None:
            self.lost(pid)
        if sig:
            self.run.count('signals sent')
        p.signal(sig)

    def killpg(self, pgid, sig):
        self.kill_fault()
        if pgid in (0, os.getpid()):
            self.lost(pgid)
        ps = [p for p in self.procs if p.pgid == pgid and not p.reaped]
        if not ps:
            self.lost(pgid)
        if sig:
            self.run.count('signals sent')
        for p in ps:
            p.signal(sig)

    def lost(self, pid):
        if pid < FIRST_PID:
            raise Violation('signals-others', 'process or group %d, which is not a program that was started, is sent a '
                            'signal' % (0 if pid == os.getpid() else pid))
        raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))

    def getpgid(self, pid):
        p = self.get(pid)
        if p is None:
            if pid in (0, os.getpid()):
                return os.getpid()
            raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))
        return p.pgid

    def sleep(self, dt):
        self.nsleep += 1
        x = self.onsleep(self.nsleep, dt) if self.onsleep else 0.0
        if isinstance(x, BaseException):
            self.run.count('fault.interrupted')
            self.kern.sleep(dt / 2)
            raise x
        if x:
            self.run.count('fault.slow poll')
        self.extra += x
        self.kern.sleep(dt + x)

    # -- subprocess -----------------------------------------------------------
    def popen(self, po, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
              close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
              creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), **kw):
        po.args, po.returncode, po.pid = args, None, None
        po.stdin = po.stdout = po.stderr = None
        po._sim = None
        group = {'own': start_new_session or kw.get('process_group') is not None}
        if preexec_fn is not None:
            # runs in the child, before the program
            self.child = group
            try:
                preexec_fn()
            except Exception:
                raise subprocess.SubprocessError('Exception occurred in preexec_fn.')
            finally:
                self.child = None
        script = self.behave(args, shell)
        if isinstance(script, BaseException):
            self.run.count('fault.start fails')
            raise script
        fds = {}
        for name, f in (('in', stdin), ('out', stdout), ('err', stderr)):
            if f is None or f == subprocess.DEVNULL:
                continue
            if f == subprocess.PIPE:
                raise NotImplementedError('pipes')
            if f == subprocess.STDOUT:
                if 'out' in fds:
                    fds['err'] = os.dup(fds['out'])
                continue
            fds[name] = os.dup(f if isinstance(f, int) else f.fileno())
        p = self.start(args, dict(os.environ if env is None else env), cwd, shell, fds, script,
                       pgid=None if group['own'] else os.getpid())
        po._sim, po.pid = p, p.pid

    child = None

    def poll(self, po):
        p = po._sim
        if po.returncode is None and p is not None and not p.alive():
            self.reap(p)
            po.returncode = p.status
        return po.returncode

    def wait(self, po, timeout=None):
        p = po._sim
        if po.returncode is None:
            if not self.kern.pause(lambda: not p.alive(), 'wait', timeout=timeout):
                raise subprocess.TimeoutExpired(po.args, timeout)
        return self.poll(po)

    def send_signal(self, po, sig):
        if self.poll(po) is None:
            self.kill(po.pid, sig)

    # -- patching -----------------------------------------------------------------
    def __enter__(self):
        install()
        CUR[0] = self
        return self

    def __exit__(self, *exc):
        CUR[0] = None

    def setsid(self, *a):
        if self.child is None:
            raise Violation('leaves-session', 'setsid is called outside a new process')
        self.child['own'] = True

    def now(self):
        return 1e5 + self.kern.now


CUR = [None]
_done = []


def install():
    """Put the seams in place, before the code under test is imported; they do nothing until a world is entered."""
    if _done:
        return
    _done.append(1)

    def both(obj, name, fn):
        real = getattr(obj, name)

        def f(*a, **kw):
            w = CUR[0]
            if w is None or w.kern.me() is None:
                return real(*a, **kw)
            return fn(w, *a, **kw)
        setattr(obj, name, f)
    P = subprocess.Popen

    def meth(name, fn):
        real = getattr(P, name)

        def f(po, *a, **kw):
            w = CUR[0]
            if name != '__init__' and getattr(po, '_sim', None) is not None and (w is None or w.kern.me() is None):
                return None             # left over from a simulation that is finished
            if w is None or w.kern.me() is None or name != '__init__' and getattr(po, '_sim', None) is None:
                return real(po, *a, **kw)
            return fn(w, po, *a, **kw)
        setattr(P, name, f)
    meth('__init__', World.popen)
    meth('poll', World.poll)
    meth('_internal_poll', lambda w, po, *a, **kw: w.poll(po))
    meth('wait', World.wait)
    meth('communicate', lambda w, po, input=None, timeout=None: (w.wait(po, timeout), None)[1:] * 2)
    meth('send_signal', World.send_signal)
    meth('terminate', lambda w, po: w.send_signal(po, signal.SIGTERM))
    meth('kill', lambda w, po: w.send_signal(po, signal.SIGKILL))
    meth('__del__', lambda w, po, *a, **kw: None)
    for name in ('kill', 'killpg', 'getpgid'):
        both(os, name, getattr(World, name))
    both(os, 'setsid', World.setsid)
    both(os, 'setpgrp', World.setsid)
    both(os, 'setpgid', lambda w, a, b: w.setsid())
    both(time, 'sleep', World.sleep)
    both(time, 'time', lambda w: 1.5e9 + w.kern.now + w.clock)
    for name in ('monotonic', 'perf_counter'):
        both(time, name, World.now)
    both(subprocess, '_time', World.now)
