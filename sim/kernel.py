"""Deterministic scheduler.

Simulated tasks (MPI ranks, worker processes, background threads, recorder
writers) are real Python threads that are parked on a lock and released one at
a time.  Who runs next, how long something is delayed, which of several
pending messages is delivered and whether a fault fires are all decided by
`Kernel.choose`, which draws from one PRNG (or from a recorded decision list
on replay) and appends to `Kernel.decisions`.  Nothing else decides anything.
"""
import os
import random
import sys
import threading
import hashlib


class SimKilled(BaseException):
    """Raised inside tasks when the run is being torn down."""


class SimCrash(BaseException):
    """Raised inside one task to model that its process died."""


class Violation(Exception):
    """A property was found not to hold (cls is a stable class name)."""

    def __init__(self, cls, msg):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    pass


class Chooser(object):
    """The only source of decisions of a run."""

    def __init__(self, seed=None, script=None):
        self.rng = random.Random(seed)
        self.script = list(script) if script is not None else None
        self.decisions = []

    def choose(self, n, what=''):
        if n <= 1:
            return 0
        i = len(self.decisions)
        if self.script is not None:
            v = self.script[i] % n if i < len(self.script) else 0
        else:
            v = self.rng.randrange(n)
        self.decisions.append(v)
        return v

    def chance(self, num, den, what=''):
        """True with probability num/den; decision 0 always means False."""
        if num <= 0:
            return False
        if num >= den:
            return True
        return self.choose(den, what) >= den - num


class Task(object):
    def __init__(self, kernel, name, fn, idx):
        self.kernel = kernel
        self.name = name
        self.fn = fn
        self.idx = idx
        self.lock = threading.Lock()
        self.lock.acquire()
        self.pred = None          # None: runnable; else callable
        self.why = ''
        self.wake_at = None
        self.done = False
        self.result = None
        self.exc = None
        self.exc_tb = None
        self.crashed = False
        self.killme = None        # exception to raise at next resume
        self.env = {}             # attributes private to this task
        self.saved = None
        self.thread = None
        self.switches = 0
        self.daemon = False       # the run may end with this task waiting

    def __repr__(self):
        return "<Task %s>" % self.name


class Kernel(object):
    """One simulated execution."""

    current_kernel = None

    def __init__(self, chooser, max_steps=200000, sticky=0):
        self.ch = chooser
        self.tasks = []
        self.now = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.switches = 0
        self.aborting = False
        self.violation = None
        self.cur = None
        self.main_lock = threading.Lock()
        self.main_lock.acquire()
        self.by_ident = {}
        self.log = []
        self.loghash = hashlib.sha1()
        self.deadlock = None
        self.stats = {}
        self.globals_savers = []     # list of (save, restore)
        self.sticky = sticky         # with prob sticky/8 keep running current
        self.timers_used = 0
        self.on_deadlock = None
        self.probe = {}

    # -- bookkeeping -------------------------------------------------------
    def event(self, *what):
        """Append to the event log (never draws, never reads a clock)."""
        s = ' '.join(str(w) for w in what)
        self.loghash.update(s.encode('utf8', 'replace'))
        self.loghash.update(b'\n')
        if len(self.log) < 4000:
            self.log.append(s)

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def choose(self, n, what=''):
        return self.ch.choose(n, what)

    def chance(self, num, den, what=''):
        return self.ch.chance(num, den, what)

    # -- tasks ---------------------------------------------------------------
    def spawn(self, name, fn, setup_env=None):
        t = Task(self, name, fn, len(self.tasks))
        if setup_env:
            t.env.update(setup_env)
        self.tasks.append(t)
        t.saved = [save() for save, _ in self.globals_savers]
        t.thread = threading.Thread(target=self._body, args=(t,), name=name)
        t.thread.daemon = True
        t.thread.start()
        return t

    def _body(self, t):
        self.by_ident[threading.get_ident()] = t
        t.lock.acquire()
        try:
            if self.aborting:
                return
            if t.killme is not None:
                k, t.killme = t.killme, None
                raise k
            t.result = t.fn()
        except SimKilled:
            pass
        except SimCrash:
            t.crashed = True
        except BaseException as e:
            t.exc = e
            t.exc_tb = sys.exc_info()[2]
            if isinstance(e, Violation) and self.violation is None:
                self.violation = e
        finally:
            t.done = True
            if not self.aborting:
                self.event('end', t.name, type(t.exc).__name__
                           if t.exc is not None else ('crash' if t.crashed else 'ok'))
            try:
                self._dispatch(t)
            except BaseException as e:       # pragma: no cover
                self.fatal = e
                self.main_lock.release()

    def me(self):
        return self.by_ident.get(threading.get_ident())

    def _switch_to(self, old, new):
        if old is not None:
            old.saved = [save() for save, _ in self.globals_savers]
        self.cur = new
        if new is not None:
            for (s, restore), val in zip(self.globals_savers, new.saved):
                restore(val)
            self.switches += 1
            new.switches += 1
            new.lock.release()
        else:
            self.main_lock.release()

    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.pred is None:
                out.append(t)
            elif t.wake_at is not None and t.wake_at <= self.now:
                out.append(t)
            elif t.pred():
                out.append(t)
        return out

    def _pick(self, cur):
        """Choose the next task to run, or None when the run is over."""
        while True:
            if self.violation is not None or self.aborting:
                return None
            self.steps += 1
            if self.steps > self.max_steps:
                self.violation = Violation(
                    'no-progress', 'run exceeded %d scheduling steps; %s'
                    % (self.max_steps, self.where()))
                return None
            run = self._runnable()
            if run:
                if len(run) == 1:
                    return run[0]
                if self.sticky and cur is not None and cur in run and \
                        self.ch.choose(8, 'sticky') < self.sticky:
                    return cur
                return run[self.ch.choose(len(run), 'sched')]
            # nothing runnable: jump the clock to the next timer
            nxt = [t.wake_at for t in self.tasks
                   if not t.done and t.wake_at is not None]
            if nxt:
                self.now = max(self.now, min(nxt))
                self.timers_used += 1
                continue
            if all(t.done or t.daemon for t in self.tasks):
                return None
            self.deadlock = self.where()
            if self.on_deadlock is not None:
                self.violation = self.on_deadlock(self)
            if self.violation is None:
                self.violation = Violation('deadlock', self.deadlock)
            return None

    def where(self):
        return '; '.join('%s %s' % (t.name, 'done' if t.done else
                                    ('blocked in ' + t.why if t.pred else 'runnable'))
                         for t in self.tasks)

    def _dispatch(self, cur):
        if self.aborting:
            # teardown: hand over to the main loop, which joins tasks
            self._switch_to(None, None)
            return
        nxt = self._pick(cur)
        self._switch_to(None if cur is None else cur, nxt)

    def _resume_checks(self, t):
        if self.aborting:
            raise SimKilled()
        if t.killme is not None:
            k, t.killme = t.killme, None
            raise k

    def pause(self, pred=None, why='', timeout=None):
        """Scheduling point.  Returns True if pred became true (or was None),
        False on timeout."""
        t = self.me()
        if t is None:
            return True
        if self.aborting:
            raise SimKilled()
        t.pred, t.why = pred, why
        t.wake_at = None if timeout is None else self.now + timeout
        if pred is None and timeout is not None:
            t.pred = lambda: False
        nxt = self._pick(t)
        if nxt is not t:
            self._switch_to(t, nxt)
            t.lock.acquire()
        ok = True
        if t.pred is not None and not self.aborting:
            ok = bool(t.pred()) if pred is not None else True
        t.pred, t.wake_at, t.why = None, None, ''
        self._resume_checks(t)
        return ok

    def sleep(self, dt):
        self.pause(None, 'sleep', timeout=max(0.0, dt))

    def crash(self, t):
        """Kill another task at its current scheduling point."""
        t.killme = SimCrash()
        t.pred = None

    # -- main ------------------------------------------------------------------
    def run(self):
        """Run to completion; returns the Violation or None."""
        Kernel.current_kernel = self
        main_saved = [save() for save, _ in self.globals_savers]
        try:
            self._dispatch(None)
            self.main_lock.acquire()
            if self.violation is None:
                for t in self.tasks:
                    if not t.done and not t.daemon:
                        self.violation = Violation('harness', 'task left: %r' % t)
            # tear down whatever is left
            self.aborting = True
            guard = 0
            for t in self.tasks:
                while not t.done:
                    guard += 1
                    if guard > 1000:
                        raise HarnessError('task %r will not die' % t)
                    for (s, restore), val in zip(self.globals_savers, t.saved):
                        restore(val)
                    t.lock.release()
                    self.main_lock.acquire()
            for t in self.tasks:
                t.thread.join(10.0)
                if t.thread.is_alive():
                    raise HarnessError('thread %r will not join' % t)
        finally:
            for (s, restore), val in zip(self.globals_savers, main_saved):
                restore(val)
            Kernel.current_kernel = None
            self.by_ident.clear()
        return self.violation


def cur():
    return Kernel.current_kernel


def me():
    k = Kernel.current_kernel
    return k.me() if k is not None else None


# -- per-"process" global state ---------------------------------------------------
def std_savers(cwd=True, rand=True, env=False):
    import numpy as np
    out = []
    if cwd:
        out.append((os.getcwd, os.chdir))
    if rand:
        out.append((random.getstate, random.setstate))
        out.append((np.random.get_state, np.random.set_state))
    if env:
        def save():
            return dict(os.environ)

        def restore(d):
            if dict(os.environ) != d:
                os.environ.clear()
                os.environ.update(d)
        out.append((save, restore))
    out.append((lambda: sys.stdout, lambda v: setattr(sys, 'stdout', v)))
    return out
