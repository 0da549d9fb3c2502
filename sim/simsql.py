"""sqlitedict under the simulated scheduler.

sqlitedict (real code) runs one thread per table, which owns an sqlite connection and is fed through a
queue.  Here its threads are tasks of the kernel, its queues and locks block in the kernel, and every
statement it gives to sqlite passes `point`, where a scheduling decision is made, a fault may be raised in
place of the statement, and a crash image of the disk may be taken.  sqlite itself is real."""
import sqlite3
import threading

import sqlitedict

from sim import kernel as K


class SimLock(object):
    def __init__(self):
        self.held = False

    def acquire(self):
        k = K.cur()
        if self.held:
            k.pause(lambda: not self.held, 'sqlite lock')
        self.held = True
        return True

    def release(self):
        self.held = False

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class SimQueue(object):
    def __init__(self, *a):
        self.q = []

    def put(self, x):
        self.q.append(x)

    def get(self):
        k = K.cur()
        k.pause(lambda: bool(self.q), 'sqlite queue')
        return self.q.pop(0)


class _Threading(object):
    Thread = threading.Thread

    @staticmethod
    def Lock():
        return SimLock()


class SimCursor(object):
    def __init__(self, sql, cur, path):
        self._s, self._c, self._p = sql, cur, path

    def execute(self, req, arg=()):
        self._s.point(req, self._p)
        self._c.execute(req, arg)
        self._s.after(req, self._p)
        return self._c

    def __iter__(self):
        return iter(self._c)

    def __getattr__(self, n):
        return getattr(self._c, n)


class SimConn(object):
    def __init__(self, sql, conn, path):
        self.__dict__.update(_s=sql, _c=conn, _p=path)

    def __getattr__(self, n):
        return getattr(self._c, n)

    def __setattr__(self, n, v):
        setattr(self._c, n, v)

    def execute(self, req, *a):
        self._s.point(req, self._p)
        return self._c.execute(req, *a)

    def cursor(self):
        return SimCursor(self._s, self._c.cursor(), self._p)

    def commit(self):
        self._c.commit()

    def close(self):
        self._s.point('close', self._p)
        self._c.close()

    def __enter__(self):
        self._c.__enter__()
        return self

    def __exit__(self, *a):
        return self._c.__exit__(*a)


class _Sqlite(object):
    def __init__(self, sql):
        self._s = sql

    def __getattr__(self, n):
        return getattr(sqlite3, n)

    def connect(self, path, **kw):
        self._s.point('connect', path)
        return SimConn(self._s, sqlite3.connect(path, **kw), path)


class SimSql(object):
    """with SimSql(run) as s: sqlitedict is simulated; s.fault(op, path) may raise, s.image(op, path) may
    copy the files."""

    def __init__(self, run):
        self.run = run
        self.fault = None
        self.image = None
        self.nops = 0
        self.n = 0

    def point(self, op, path):
        k = K.cur()
        t = k.me() if k is not None else None
        if t is not None:
            k.pause(None, 'sqlite ' + op[:12])
        self.nops += 1
        if self.image is not None:
            self.image('sqlite ' + op.split(' ')[0], path)
        if self.fault is not None:
            self.fault('sqlite ' + op.split(' ')[0], path)

    def after(self, op, path):
        if self.image is not None:
            self.image('sqlite after ' + op.split(' ')[0], path)

    def __enter__(self):
        s = sqlitedict
        cls = s.SqliteMultithread
        self.old = (s.threading, s.Queue, s.sqlite3, cls.__dict__.get('start'), cls.__dict__.get('join'))
        s.threading, s.Queue, s.sqlite3 = _Threading, SimQueue, _Sqlite(self)
        s.logger.setLevel(100)
        import logging
        logging.getLogger('sqlitedict.SqliteMultithread').setLevel(100)

        def start(th):
            k = K.cur()
            self.n += 1
            t = th._simtask = k.spawn('sqlite%d' % self.n, th.run)
            t.daemon = True
            k.count('sqlite threads')

        def join(th, timeout=None):
            K.cur().pause(lambda: th._simtask.done, 'sqlite thread end')
        cls.start, cls.join = start, join
        return self

    def __exit__(self, *exc):
        s = sqlitedict
        cls = s.SqliteMultithread
        s.threading, s.Queue, s.sqlite3 = self.old[:3]
        for n in ('start', 'join'):
            delattr(cls, n)
