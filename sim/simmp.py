"""A stand-in for the multiprocessing module under the simulator.

Workers are real forks, so that they have their own memory, but at any time at
most one of them executes: a worker stops at every queue operation (and hook)
and asks its proxy task in the parent's kernel, which decides when and with what
it goes on.  Queue deliveries have simulated delays: in order per producer, any
order between producers."""
import os
import pickle
import signal
import socket
import struct
import sys

from sim import kernel as K
from sim.kernel import HarnessError

CHILD = [None]          # the connection to the parent, in a worker
DELAYS = (0.0, 0.0, 0.001, 0.1, 3.0)


def _send(sock, obj):
    data = pickle.dumps(obj, 2)
    sock.sendall(struct.pack('<I', len(data)) + data)


def _recv(sock):
    def need(n):
        b = b''
        while len(b) < n:
            x = sock.recv(n - len(b))
            if not x:
                raise EOFError
            b += x
        return b
    return pickle.loads(need(struct.unpack('<I', need(4))[0]))


def rpc(*req):
    _send(CHILD[0], req)
    ok, val = _recv(CHILD[0])
    if not ok:
        raise val
    return val


class Queue(object):
    def __init__(self, mp, idx):
        self.mp, self.idx = mp, idx
        self.items = []             # (visible at, seq, bytes)
        self.last = {}              # producer -> visible at
        self.seq = 0
        self.waiting = 0

    # -- either side
    def put(self, obj, block=True, timeout=None):
        data = pickle.dumps(obj, 2)
        if CHILD[0] is not None:
            return rpc('put', self.idx, data)
        self._put('master', data)
        self.mp.kern.pause(None, 'put')

    def get(self, block=True, timeout=None):
        if CHILD[0] is not None:
            return pickle.loads(rpc('get', self.idx))
        return pickle.loads(self._get('master'))

    def close(self):
        pass

    def join_thread(self):
        pass

    # -- parent side
    def _put(self, who, data):
        k = self.mp.kern
        d = DELAYS[k.choose(len(DELAYS), 'queue delay')]
        if d:
            k.count('fault.queue delay')
        at = max(k.now + d, self.last.get(who, 0.0))
        self.last[who] = at
        self.seq += 1
        self.items.append((at, self.seq, data))
        self.items.sort(key=lambda t: t[:2])
        self.mp.msgs += 1
        k.event('put', who, 'q%d' % self.idx, len(data))

    def _get(self, who):
        k = self.mp.kern
        self.waiting += 1
        try:
            while True:
                if self.items and self.items[0][0] <= k.now:
                    if self.waiting > 1:
                        k.count('probe.workers compete for a case')
                    data = self.items.pop(0)[2]
                    k.event('get', who, 'q%d' % self.idx)
                    return data
                n = len(self.items)
                k.pause(lambda: len(self.items) != n or (self.items and self.items[0][0] <= k.now),
                        'queue get', timeout=(self.items[0][0] - k.now) if self.items else None)
        finally:
            self.waiting -= 1


class Process(object):
    def __init__(self, mp, target, args, kwargs, name, daemon):
        self.mp, self.target, self.args, self.kwargs = mp, target, args, kwargs or {}
        self.name = name
        self.daemon = daemon
        self.pid = None
        self.exitcode = None
        self.task = None

    def start(self):
        mp = self.mp
        if mp.fork_fails is not None and mp.fork_fails == len(mp.procs):
            mp.fork_fails = None
            mp.kern.count('fault.worker process does not start')
            raise BlockingIOError(11, 'sim-fault: Resource temporarily unavailable')
        a, b = socket.socketpair()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(90)
                a.close()
                for o in mp.procs:
                    if o.sock is not None:
                        o.sock.close()
                CHILD[0] = b
                sys.stdout = open(os.devnull, 'w')
                sys.stderr = sys.stdout
                if mp.child_init is not None:
                    mp.child_init()
                _recv(b)            # 'go'
                self.target(*self.args, **self.kwargs)
            except BaseException as e:
                code = 1
                try:
                    rpc('died', repr(e)[:500])
                except BaseException:
                    pass
            finally:
                os._exit(code)
        b.close()
        self.pid = pid
        self.sock = a
        mp.procs.append(self)
        mp.kern.event('start', self.name)
        self.task = mp.kern.spawn(self.name, self._proxy)
        mp.kern.pause(None, 'start')

    sock = None

    def _proxy(self):
        k, mp = self.mp.kern, self.mp
        k.pause(None, 'starting')
        try:
            _send(self.sock, 'go')
            while True:
                try:
                    req = _recv(self.sock)
                except (EOFError, ConnectionResetError):
                    break
                ok, val = True, None
                if req[0] == 'put':
                    mp.queues[req[1]]._put(self.name, req[2])
                elif req[0] == 'get':
                    val = mp.queues[req[1]]._get(self.name)
                elif req[0] == 'died':
                    k.event('died', self.name, req[1])
                    mp.died.append((self.name, req[1]))
                else:
                    val = mp.on_rpc(self, *req)
                _send(self.sock, (ok, val))
                if req[0] != 'get':
                    k.pause(None, req[0])
        finally:
            self.sock.close()
            self.sock = None
            try:
                os.kill(self.pid, signal.SIGKILL) if k.aborting else None
            except OSError:
                pass
            _, st = os.waitpid(self.pid, 0)
            self.exitcode = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
            self.pid = None
            k.event('exit', self.name, self.exitcode)

    def join(self, timeout=None):
        self.mp.kern.pause(lambda: self.task.done, 'join %s' % self.name, timeout=timeout)

    def is_alive(self):
        return self.task is not None and not self.task.done

    def terminate(self):
        if self.pid:
            os.kill(self.pid, signal.SIGKILL)


class Multiprocessing(object):
    """Use in place of the module."""

    def __init__(self, kern, on_rpc=None, child_init=None):
        self.kern = kern
        self.queues, self.procs, self.died = [], [], []
        self.on_rpc = on_rpc
        self.child_init = child_init
        self.msgs = 0
        self.fork_fails = None

    def Queue(self, maxsize=0):
        q = Queue(self, len(self.queues))
        self.queues.append(q)
        return q

    def Process(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        return Process(self, target, args, kwargs, name or 'worker%d' % len(self.procs), daemon)

    def cpu_count(self):
        return 4

    def cleanup(self):
        for p in self.procs:
            if p.pid:
                try:
                    os.kill(p.pid, signal.SIGKILL)
                    os.waitpid(p.pid, 0)
                except OSError:
                    pass
                p.pid = None
