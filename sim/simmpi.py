"""Simulated MPI (mpi4py.MPI) and the part of PETSc (petsc4py.PETSc) that
OpenMDAO uses.  Every rank is a task of the kernel; message delivery order,
early return from collectives, buffered or rendezvous sends and the choice
among several matching messages are decisions of the kernel."""
import hashlib
import pickle
import sys
import types

import numpy as np

from sim import kernel as K
from sim.kernel import Violation

# what a run may do; set by the world before ranks are spawned
SEND_EAGER, SEND_RNDV, SEND_MIXED = 0, 1, 2


class MPIException(RuntimeError):
    pass


class _Op(object):
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return self.name

    def __call__(self, a, b):
        return self.f(a, b)

    def __reduce__(self):
        return self.name


SUM = _Op('SUM', lambda a, b: a + b)
PROD = _Op('PROD', lambda a, b: a * b)
MAX = _Op('MAX', lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b))
MIN = _Op('MIN', lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b))
LOR = _Op('LOR', lambda a, b: np.logical_or(a, b) if isinstance(a, np.ndarray) else (a or b))
LAND = _Op('LAND', lambda a, b: np.logical_and(a, b) if isinstance(a, np.ndarray) else (a and b))

ANY_SOURCE = -1
ANY_TAG = -1
UNDEFINED = -32766
PROC_NULL = -2
DOUBLE = 'DOUBLE'
INT = 'INT'


def _dumps(o):
    return pickle.dumps(o, 2)


class World(object):
    """Shared state of one simulated MPI job."""

    current = None

    def __init__(self, kern, nproc, send_mode=SEND_EAGER, early=True,
                 comm_log=False):
        self.kern = kern
        self.nproc = nproc
        self.send_mode = send_mode
        self.early = early          # non-root ranks may leave early
        self.ctxs = []
        self.world_ctx = Ctx(self, list(range(nproc)), 'W')
        self.scatters = []
        self.comm_log = comm_log
        self.logs = [[] for _ in range(nproc)]
        self.opcount = {}
        self.msgs = 0
        self.anysrc_races = 0
        self.rndv_waits = 0
        self.early_leaves = 0
        self.strict_stray = True
        World.current = self

    def rank_of_task(self):
        t = self.kern.me()
        if t is None:
            return None
        return t.env.get('rank')

    def note(self, kind):
        self.opcount[kind] = self.opcount.get(kind, 0) + 1

    def leftovers(self):
        """Messages nobody received and collectives nobody completed."""
        out = []
        for c in self.ctxs:
            for (s, d), q in sorted(c.queues.items()):
                for m in q:
                    out.append('message on %s from rank %d to rank %d tag %s never received'
                               % (c.name, s, d, m.tag))
            for seq, col in sorted(c.pending.items()):
                if len(col.arrived) < c.size:
                    out.append('%s #%d on %s joined only by local ranks %s of %d'
                               % (col.kind, seq, c.name, sorted(col.arrived), c.size))
        for sc in self.scatters:
            out.extend(sc.leftovers())
        return out


class Msg(object):
    __slots__ = ('data', 'tag', 'rndv', 'taken', 'seq', 'buf')

    def __init__(self, data, tag, rndv, seq, buf=False):
        self.data, self.tag, self.rndv, self.seq, self.buf = data, tag, rndv, seq, buf
        self.taken = False


class Coll(object):
    def __init__(self, kind, root):
        self.kind, self.root = kind, root
        self.arrived = {}
        self.left = set()
        self.result = None
        self.done = False


class Ctx(object):
    def __init__(self, world, members, name):
        self.world = world
        self.members = members
        self.rank_of = dict((w, i) for i, w in enumerate(members))
        self.size = len(members)
        self.name = name
        self.queues = {}
        self.counter = [0] * self.size
        self.pending = {}
        self.nsplit = 0
        self.seq = 0
        self.freed = False
        world.ctxs.append(self)


class Status(object):
    def __init__(self):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Request(object):
    def __init__(self, comm, msg=None, recv=None):
        self.comm, self.msg, self.recv_args = comm, msg, recv
        self.val = None
        self.complete = False

    def wait(self, status=None):
        if self.complete:
            return self.val
        if self.msg is not None:
            if self.msg.rndv:
                self.comm._kern().pause(lambda: self.msg.taken, 'wait(isend)')
            else:
                self.comm._kern().pause(None, 'wait')
        else:
            self.val = self.comm.recv(status=status, **self.recv_args)
        self.complete = True
        return self.val

    Wait = wait

    def test(self, status=None):
        if self.complete:
            return True, self.val
        k = self.comm._kern()
        k.pause(None, 'test')
        if self.msg is not None:
            if not self.msg.rndv or self.msg.taken:
                self.complete = True
                return True, None
            return False, None
        if self.comm._match(self.recv_args['source'], self.recv_args['tag'], self.comm.rank):
            return True, self.wait(status)
        return False, None

    @staticmethod
    def waitall(reqs):
        return [r.wait() for r in reqs]

    Waitall = waitall


class Comm(object):
    """A communicator handle (rank is that of the calling task)."""

    def __init__(self, ctx=None):
        self._ctx = ctx

    # identity -------------------------------------------------------------
    def _c(self):
        return self._ctx

    def _kern(self):
        return self._c().world.kern

    @property
    def rank(self):
        c = self._c()
        w = c.world.rank_of_task()
        if w is None:
            return 0
        return c.rank_of[w]

    @property
    def size(self):
        return self._c().size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    @property
    def name(self):
        return self._c().name

    def __eq__(self, o):
        if o is COMM_NULL:
            return False
        if isinstance(o, Comm):
            return self._c() is o._c()
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return id(self._c())

    def __bool__(self):
        return True

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError('cannot pickle a communicator')

    # log ------------------------------------------------------------------
    def _log(self, c, kind, *more):
        w = c.world
        w.note(kind)
        w.kern.event(w.rank_of_task(), kind, c.name, *more)
        if w.comm_log:
            w.logs[w.rank_of_task()].append((kind, c.name) + more)

    # point to point ---------------------------------------------------------
    def _post(self, data, dest, tag, sync=False):
        c = self._c()
        me = self.rank
        if dest == PROC_NULL:
            return None
        if not 0 <= dest < c.size:
            raise MPIException('MPI_ERR_RANK: invalid rank %r' % (dest,))
        w = c.world
        c.seq += 1
        w.msgs += 1
        if sync or w.send_mode == SEND_RNDV:
            rndv = True
        elif w.send_mode == SEND_MIXED:
            rndv = w.kern.choose(2, 'rndv') == 1
        else:
            rndv = False
        m = Msg(data, tag, rndv, c.seq)
        c.queues.setdefault((me, dest), []).append(m)
        self._log(c, 'send', me, dest, tag)
        return m

    def send(self, obj, dest=0, tag=0):
        m = self._post(_dumps(obj), dest, tag)
        k = self._kern()
        if m is not None and m.rndv:
            self._c().world.rndv_waits += 1
            k.pause(lambda: m.taken, 'send(dest=%d, tag=%s) on %s' % (dest, tag, self._c().name))
        else:
            k.pause(None, 'send')

    def ssend(self, obj, dest=0, tag=0):
        m = self._post(_dumps(obj), dest, tag, True)
        self._kern().pause(lambda: m.taken, 'ssend')

    def isend(self, obj, dest=0, tag=0):
        m = self._post(_dumps(obj), dest, tag)
        self._kern().pause(None, 'isend')
        return Request(self, msg=m)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(self, recv=dict(source=source, tag=tag))

    def _match(self, source, tag, me):
        # (evaluated by whichever task schedules, so `me` is explicit)
        c = self._c()
        out = []
        for s in range(c.size):
            if source not in (ANY_SOURCE, s):
                continue
            for m in c.queues.get((s, me), ()):
                if tag in (ANY_TAG, m.tag):
                    out.append((s, m))
                    break
        return out

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        c, me = self._c(), self.rank
        k = self._kern()
        if source != ANY_SOURCE and not 0 <= source < c.size:
            raise MPIException('MPI_ERR_RANK: invalid rank %r' % (source,))
        k.pause(lambda: self._match(source, tag, me), 'recv(source=%s, tag=%s) on %s'
                % (source, tag, c.name))
        got = self._match(source, tag, me)
        if len(got) > 1:
            c.world.anysrc_races += 1
        s, m = got[k.choose(len(got), 'anysrc')]
        c.queues[(s, me)].remove(m)
        m.taken = True
        if status is not None:
            status.source, status.tag = s, m.tag
        self._log(c, 'recv', s, me, m.tag)
        return pickle.loads(m.data)

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._kern().pause(None, 'iprobe')
        got = self._match(source, tag, self.rank)
        if got and status is not None:
            status.source, status.tag = got[0][0], got[0][1].tag
        return bool(got)

    Iprobe = iprobe

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        me = self.rank
        self._kern().pause(lambda: self._match(source, tag, me), 'probe')
        return self.iprobe(source, tag, status)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE,
                 recvtag=ANY_TAG, status=None):
        r = self.isend(sendobj, dest, sendtag)
        v = self.recv(source=source, tag=recvtag, status=status)
        r.wait()
        return v

    # buffered variants
    def Send(self, buf, dest=0, tag=0):
        self.send(np.array(_buf(buf)), dest, tag)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        v = self.recv(source=source, tag=tag, status=status)
        _buf(buf).flat[:v.size] = v.flat

    # collectives --------------------------------------------------------------
    def _coll(self, kind, root, data, need, finish):
        """need(coll, me): predicate that lets this rank leave."""
        c, me = self._c(), self.rank
        if c.freed:
            raise MPIException('MPI_ERR_COMM: communicator was freed')
        k = c.world.kern
        seq = c.counter[me]
        c.counter[me] += 1
        col = c.pending.get(seq)
        if col is None:
            col = c.pending[seq] = Coll(kind, root)
        elif col.kind != kind or col.root != root:
            v = Violation('collective-mismatch',
                          'on communicator %s (size %d) operation %d: local rank %d calls %s(root=%s) '
                          'while rank(s) %s called %s(root=%s)'
                          % (c.name, c.size, seq, me, kind, root,
                             sorted(col.arrived), col.kind, col.root))
            if k.violation is None:
                k.violation = v
            k.pause(None, 'mismatch')
        col.arrived[me] = data
        self._log(c, kind, me, root)
        full = lambda: len(col.arrived) == c.size
        pred = full
        if need is not None and c.world.early and c.size > 1 and k.choose(2, 'early'):
            c.world.early_leaves += 1
            pred = lambda: full() or need(col)
        if c.size == 1:
            pred = None
        k.pause(pred, '%s #%d on %s' % (kind, seq, c.name))
        out = finish(col) if finish is not None else None
        col.left.add(me)
        if len(col.left) == c.size:
            del c.pending[seq]
        return out

    def barrier(self):
        self._coll('barrier', None, None, None, None)

    Barrier = barrier

    def allgather(self, sendobj=None):
        n = self.size
        return self._coll('allgather', None, _dumps(sendobj), None,
                          lambda col: [pickle.loads(col.arrived[i]) for i in range(n)])

    def gather(self, sendobj=None, root=0):
        me, n = self.rank, self.size
        return self._coll('gather', root, _dumps(sendobj),
                          None if me == root else (lambda col: True),
                          (lambda col: [pickle.loads(col.arrived[i]) for i in range(n)])
                          if me == root else None)

    def bcast(self, obj=None, root=0):
        me = self.rank
        data = _dumps(obj) if me == root else None
        return self._coll('bcast', root, data,
                          (lambda col: root in col.arrived),
                          (lambda col: obj if me == root else pickle.loads(col.arrived[root])))

    def scatter(self, sendobj=None, root=0):
        me, n = self.rank, self.size
        data = None
        if me == root:
            sendobj = list(sendobj)
            if len(sendobj) != n:
                raise ValueError('expecting %d items, got %d' % (n, len(sendobj)))
            data = [_dumps(o) for o in sendobj]
        return self._coll('scatter', root, data,
                          (lambda col: root in col.arrived),
                          (lambda col: pickle.loads(col.arrived[root][me])))

    def alltoall(self, sendobj):
        me, n = self.rank, self.size
        data = [_dumps(o) for o in sendobj]
        return self._coll('alltoall', None, data, None,
                          lambda col: [pickle.loads(col.arrived[i][me]) for i in range(n)])

    def _red(self, vals, op):
        acc = vals[0]
        for v in vals[1:]:
            acc = op.f(acc, v)
        return acc

    def allreduce(self, sendobj, op=SUM):
        n = self.size
        return self._coll('allreduce', None, _dumps(sendobj), None,
                          lambda col: self._red([pickle.loads(col.arrived[i])
                                                 for i in range(n)], op))

    def reduce(self, sendobj, op=SUM, root=0):
        me, n = self.rank, self.size
        return self._coll('reduce', root, _dumps(sendobj),
                          None if me == root else (lambda col: True),
                          (lambda col: self._red([pickle.loads(col.arrived[i])
                                                  for i in range(n)], op))
                          if me == root else None)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        n = self.size
        sb = np.array(_buf(sendbuf))

        def fin(col):
            shapes = set(col.arrived[i].size for i in range(n))
            if len(shapes) > 1:
                raise Violation('collective-mismatch', 'Allreduce with different sizes %s' % shapes)
            r = self._red([col.arrived[i] for i in range(n)], op)
            rb = _buf(recvbuf)
            rb[...] = np.asarray(r).reshape(rb.shape)
        self._coll('Allreduce', None, sb, None, fin)

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        n, me = self.size, self.rank
        sb = np.array(_buf(sendbuf))

        def fin(col):
            r = self._red([col.arrived[i] for i in range(n)], op)
            rb = _buf(recvbuf)
            rb[...] = np.asarray(r).reshape(rb.shape)
        self._coll('Reduce', root, sb, None if me == root else (lambda col: True),
                   fin if me == root else None)

    def Allgather(self, sendbuf, recvbuf):
        n = self.size
        sb = np.array(_buf(sendbuf)).ravel()

        def fin(col):
            allv = np.concatenate([col.arrived[i] for i in range(n)])
            rb = _buf(recvbuf)
            rb[...] = allv.reshape(rb.shape)
        self._coll('Allgather', None, sb, None, fin)

    def Allgatherv(self, sendbuf, recvbuf):
        n = self.size
        sb = np.array(_buf(sendbuf)).ravel()

        def fin(col):
            allv = np.concatenate([col.arrived[i] for i in range(n)])
            rb = _buf(recvbuf)
            rb.flat[:allv.size] = allv
        self._coll('Allgatherv', None, sb, None, fin)

    def Gather(self, sendbuf, recvbuf, root=0):
        n, me = self.size, self.rank
        sb = np.array(_buf(sendbuf)).ravel()

        def fin(col):
            allv = np.concatenate([col.arrived[i] for i in range(n)])
            rb = _buf(recvbuf)
            rb[...] = allv.reshape(rb.shape)
        self._coll('Gather', root, sb, None if me == root else (lambda col: True),
                   fin if me == root else None)

    def Bcast(self, buf, root=0):
        me = self.rank
        b = _buf(buf)
        data = np.array(b) if me == root else None

        def fin(col):
            if me != root:
                b[...] = col.arrived[root].reshape(b.shape)
        self._coll('Bcast', root, data, (lambda col: root in col.arrived), fin)

    def Split(self, color=0, key=0):
        c, me = self._c(), self.rank
        n = c.size

        def fin(col):
            if col.result is None:
                c.nsplit += 1
                groups = {}
                for r in range(n):
                    co, ke = col.arrived[r]
                    if co == UNDEFINED:
                        continue
                    groups.setdefault(co, []).append((ke, r))
                col.result = {}
                for co in sorted(groups):
                    mem = [r for _, r in sorted(groups[co])]
                    ctx = Ctx(c.world, [c.members[r] for r in mem],
                              '%s.%d:%s' % (c.name, c.nsplit, co))
                    for r in mem:
                        col.result[r] = ctx
            ctx = col.result.get(me)
            return COMM_NULL if ctx is None else Comm(ctx)
        if color != UNDEFINED and color is not None:
            color = int(color)
            if color < 0:
                raise MPIException('MPI_ERR_ARG: invalid color %d' % color)
        return self._coll('Split', None, (color, key), None, fin)

    def Dup(self):
        return self.Split(0, self.rank)

    def Free(self):
        pass

    def Abort(self, code=0):
        k = self._kern()
        if k.violation is None:
            k.violation = Violation('abort', 'MPI Abort(%s) called' % code)
        k.pause(None, 'abort')


def _buf(b):
    if isinstance(b, (list, tuple)):
        b = b[0]
    return np.asarray(b)


class _WorldComm(Comm):
    """MPI.COMM_WORLD: the same object in every rank and every run."""

    def __init__(self):
        Comm.__init__(self, None)

    def _c(self):
        return World.current.world_ctx


class _NullComm(Comm):
    def _c(self):
        raise MPIException('MPI_ERR_COMM: invalid communicator')

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return 1

    def __bool__(self):
        return False

    def __repr__(self):
        return 'COMM_NULL'


COMM_WORLD = _WorldComm()
COMM_NULL = _NullComm()


# =============================== PETSc =====================================
IntType = np.dtype('int32')


class Vec(object):
    def __init__(self):
        self._arr = None
        self.comm = None

    def createWithArray(self, array, size=None, bsize=None, comm=None):
        self._arr = array
        self.comm = comm
        comm._coll('VecCreate', None, int(array.size), lambda col: True, None)
        return self

    @property
    def array(self):
        return self._arr

    @array.setter
    def array(self, v):
        self._arr[:] = v

    def getArray(self, readonly=False):
        return self._arr

    def assemble(self):
        self.comm._coll('VecAssemble', None, None, lambda col: True, None)

    def norm(self, norm_type=None):
        loc = float(np.dot(self._arr, self._arr))
        n = self.comm.size
        tot = self.comm._coll('VecNorm', None, loc, None,
                              lambda col: sum(col.arrived[i] for i in range(n)))
        return float(np.sqrt(tot))

    def dot(self, o):
        loc = float(np.dot(self._arr, o._arr))
        n = self.comm.size
        return self.comm._coll('VecDot', None, loc, None,
                               lambda col: sum(col.arrived[i] for i in range(n)))

    def destroy(self):
        return self


class IS(object):
    def createGeneral(self, indices, comm=None):
        self.indices = np.array(indices, dtype=IntType)
        self.comm = comm
        comm._coll('ISCreate', None, None, lambda col: True, None)
        return self

    def getIndices(self):
        return self.indices


class _ScatterShared(object):
    """State of one VecScatter shared by the ranks of its communicator."""

    def __init__(self, ctx, parts):
        self.ctx = ctx
        n = ctx.size
        self.usizes = [p[0] for p in parts]
        self.psizes = [p[1] for p in parts]
        uoff = np.concatenate([[0], np.cumsum(self.usizes)])
        poff = np.concatenate([[0], np.cumsum(self.psizes)])
        src = np.concatenate([p[2] for p in parts]).astype(int)
        tgt = np.concatenate([p[3] for p in parts]).astype(int)
        self.bad = None
        for p in parts:
            if p[2].size != p[3].size:
                self.bad = 'Local scatter sizes don\'t match: %d %d' % (p[2].size, p[3].size)
        if self.bad is None and src.size and \
                (src.min() < 0 or src.max() >= uoff[-1] or tgt.min() < 0 or tgt.max() >= poff[-1]):
            self.bad = 'index out of range'
        self.parts = []       # (src_rank, local idx, tgt_rank, local idx)
        self.deps = {False: {}, True: {}}   # reverse? -> rank -> set of ranks it gets data from
        self.outs = {False: {}, True: {}}
        if self.bad is None:
            srank = np.searchsorted(uoff, src, side='right') - 1
            trank = np.searchsorted(poff, tgt, side='right') - 1
            pairs = sorted(set(zip(srank.tolist(), trank.tolist())))
            for s, t in pairs:
                msk = (srank == s) & (trank == t)
                self.parts.append((s, src[msk] - uoff[s], t, tgt[msk] - poff[t]))
                self.deps[False].setdefault(t, set()).add(s)
                self.deps[True].setdefault(s, set()).add(t)
                self.outs[False].setdefault(s, set()).add(t)
                self.outs[True].setdefault(t, set()).add(s)
        self.counter = [0] * n
        self.calls = {}         # (rank, k) -> (array copy, addv, reverse)
        self.taken = {}         # (src rank, k) -> set of ranks that took it

    def leftovers(self):
        out = []
        for s, _, t, _ in self.parts:
            if s != t and self.counter[s] != self.counter[t]:
                out.append('vector scatter on %s: rank %d made %d transfers, rank %d made %d'
                           % (self.ctx.name, s, self.counter[s], t, self.counter[t]))
        return out


class Scatter(object):
    def create(self, vec_from, is_from, vec_to, is_to):
        comm = vec_from.comm
        self.comm = comm
        c = comm._c()

        def fin(col):
            if col.result is None:
                col.result = _ScatterShared(c, [col.arrived[i] for i in range(c.size)])
                c.world.scatters.append(col.result)
            return col.result
        self.sh = comm._coll('ScatterCreate', None,
                             (vec_from._arr.size, vec_to._arr.size,
                              is_from.indices, is_to.indices), None, fin)
        if self.sh.bad:
            raise RuntimeError('error code 60: ' + self.sh.bad)
        return self

    def scatter(self, vec_from, vec_to, addv=None, mode=None):
        sh, comm = self.sh, self.comm
        c = comm._c()
        k = c.world.kern
        me = comm.rank
        rev = bool(mode)
        add = bool(addv)
        seq = sh.counter[me]
        sh.counter[me] += 1
        sh.calls[(me, seq)] = (vec_from._arr.copy(), add, rev)
        c.world.note('VecScatter')
        k.event(c.world.rank_of_task(), 'VecScatter', c.name, int(rev))
        need = [r for r in sorted(sh.deps[rev].get(me, ())) if r != me]
        outs = [r for r in sorted(sh.outs[rev].get(me, ())) if r != me]
        rndv = False
        if outs:
            if c.world.send_mode == SEND_RNDV:
                rndv = True
            elif c.world.send_mode == SEND_MIXED:
                rndv = k.choose(2, 'rndv') == 1

        def ready():
            for r in need:
                if sh.counter[r] <= seq:
                    return False
            if rndv:
                for r in outs:
                    if sh.counter[r] <= seq:
                        return False
            return True
        k.pause(ready if (need or rndv) else None, 'VecScatter #%d on %s' % (seq, c.name))
        for r in need:
            _, a2, r2 = sh.calls[(r, seq)]
            if a2 != add or r2 != rev:
                v = Violation('collective-mismatch', 'vector scatter on %s: ranks %d and %d '
                              'disagree about direction or mode' % (c.name, me, r))
                k.violation = k.violation or v
                k.pause(None, 'mismatch')
        dst = vec_to._arr
        srcs = {}
        for s, si, t, ti in sh.parts:
            if not rev:
                if t != me:
                    continue
                data = sh.calls[(s, seq)][0][si]
                idx = ti
                frm = s
            else:
                if s != me:
                    continue
                data = sh.calls[(t, seq)][0][ti]
                idx = si
                frm = t
            srcs[frm] = (idx, data)
        for frm in sorted(srcs):
            idx, data = srcs[frm]
            if add:
                np.add.at(dst, idx, data)
            else:
                dst[idx] = data
        # drop data everybody has used
        if seq >= 8:
            for r in range(c.size):
                sh.calls.pop((r, min(sh.counter) - 4), None)

    def destroy(self):
        return self


class Mat(object):
    def createPython(self, size, context=None, comm=None):
        self.comm = comm
        self.ctxt = context
        (self.lsize, self.gsize), _ = size
        comm._coll('MatCreate', None, None, lambda col: True, None)
        return self

    def setPythonContext(self, ctxt):
        self.ctxt = ctxt

    def setUp(self):
        self.comm._coll('MatSetUp', None, None, lambda col: True, None)


class PC(object):
    class Side(object):
        LEFT, RIGHT, SYMMETRIC = 0, 1, 2

    def __init__(self):
        self.type = 'none'
        self.ctxt = None

    def setType(self, t):
        self.type = t

    def setPythonContext(self, c):
        self.ctxt = c


class KSP(object):
    """Flexible GMRES with right preconditioning, written independently."""

    def create(self, comm=None):
        self.comm = comm
        self.pc = PC()
        self.mat = None
        self.mon = []
        self.rtol, self.atol, self.max_it = 1e-5, 1e-50, 10000
        comm._coll('KSPCreate', None, None, lambda col: True, None)
        return self

    def setOperators(self, mat, pmat=None):
        self.mat = mat

    def setType(self, t):
        self.type = t

    def setGMRESRestart(self, n):
        pass

    def setPCSide(self, s):
        pass

    def setMonitor(self, m, args=None, kargs=None):
        self.mon.append((m, (), {}))

    def getMonitor(self):
        return self.mon

    def getPC(self):
        return self.pc

    def setTolerances(self, rtol=None, atol=None, divtol=None, max_it=None):
        if rtol is not None:
            self.rtol = rtol
        if atol is not None:
            self.atol = atol
        if max_it is not None:
            self.max_it = max_it

    def _dot(self, a, b):
        n = self.comm.size
        return self.comm._coll('KSPDot', None, float(np.dot(a, b)), None,
                               lambda col: sum(col.arrived[i] for i in range(n)))

    def _wrap(self, arr):
        v = Vec()
        v._arr, v.comm = arr, self.comm
        return v

    def _mult(self, x):
        out = np.zeros_like(x)
        xx = x.copy()
        self.mat.ctxt.mult(self.mat, self._wrap(xx), self._wrap(out))
        return out

    def _prec(self, x):
        out = np.zeros_like(x)
        xx = x.copy()
        if self.pc.ctxt is None:
            return xx
        self.pc.ctxt.apply(self.pc, self._wrap(xx), self._wrap(out))
        return out

    def _monitor(self, it, nrm):
        for m, _, _ in self.mon:
            m(self, it, nrm)

    def solve(self, b, x):
        bb = b._arr.copy()
        beta = np.sqrt(self._dot(bb, bb))
        beta0 = beta
        self._monitor(0, beta)
        x._arr[:] = 0.0
        if beta <= self.atol or beta == 0.0:
            return
        V = [bb / beta]
        Z = []
        H = np.zeros((self.max_it + 1, self.max_it))
        y = None
        for j in range(self.max_it):
            z = self._prec(V[j])
            Z.append(z)
            w = self._mult(z)
            for _ in range(2):
                for i in range(j + 1):
                    h = self._dot(w, V[i])
                    H[i, j] += h
                    w = w - h * V[i]
            H[j + 1, j] = np.sqrt(self._dot(w, w))
            e = np.zeros(j + 2)
            e[0] = beta
            y, res, _, _ = np.linalg.lstsq(H[:j + 2, :j + 1], e, rcond=None)
            r = np.linalg.norm(e - H[:j + 2, :j + 1].dot(y))
            self._monitor(j + 1, r)
            if r <= max(self.atol, self.rtol * beta0) or H[j + 1, j] <= 1e-14 * beta0:
                break
            V.append(w / H[j + 1, j])
        for yi, z in zip(y, Z):
            x._arr[:] += yi * z


def make_modules():
    """Modules to be put into sys.modules as mpi4py and petsc4py."""
    mpi = types.ModuleType('mpi4py.MPI')
    g = globals()
    for n in ('SUM PROD MAX MIN LOR LAND ANY_SOURCE ANY_TAG UNDEFINED PROC_NULL DOUBLE INT '
              'COMM_WORLD COMM_NULL Status Request Comm').split():
        setattr(mpi, n, g[n])
    mpi.Exception = MPIException
    mpi.Intracomm = Comm
    mpi.Op = _Op
    mpi.COMM_SELF = None
    pkg = types.ModuleType('mpi4py')
    pkg.MPI = mpi
    pkg.__path__ = []
    pkg.__version__ = '3.1.0'
    petsc = types.ModuleType('petsc4py.PETSc')
    for n in ('Vec IS Scatter Mat PC KSP IntType').split():
        setattr(petsc, n, g[n])
    petsc.ScalarType = float
    petsc.RealType = float
    ppkg = types.ModuleType('petsc4py')
    ppkg.PETSc = petsc
    ppkg.__path__ = []
    ppkg.__version__ = '3.18.0'
    ppkg.init = lambda *a, **k: None
    return {'mpi4py': pkg, 'mpi4py.MPI': mpi, 'petsc4py': ppkg, 'petsc4py.PETSc': petsc}


def install():
    import os
    os.environ['OMPI_COMM_WORLD_RANK'] = '0'
    sys.modules.update(make_modules())


def run_world(kern, nproc, fn, send_mode=SEND_EAGER, early=True, env=None):
    """Run fn(rank) on nproc simulated ranks; returns (violation, tasks, world)."""
    w = World(kern, nproc, send_mode, early)
    tasks = []
    for r in range(nproc):
        e = {'rank': r}
        if env:
            e.update(env(r))
        tasks.append(kern.spawn('rank%d' % r, lambda r=r: fn(r), e))
    v = kern.run()
    return v, tasks, w
