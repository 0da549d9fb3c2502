"""Running OpenMDAO problems on simulated MPI jobs."""
import traceback
import warnings

import numpy as np

from sim import hashorder, kernel as K, models as M, simmpi
from sim.kernel import Violation

_ready = [False]

COMPONENTS = {
    'real': ['openmdao (all of it, from /repo)', 'numpy', 'scipy', 'networkx'],
    'stub': ['mpi4py and petsc4py: sim/simmpi.py (message passing, collectives, VecScatter, '
             'norms, FGMRES)', 'set iteration order: sim/hashorder.py',
             'process scheduling and clock: sim/kernel.py'],
}
ASSUMPTIONS = [
    'MPI semantics as in sim/simmpi.py: non-overtaking point-to-point order per pair and tag, '
    'collectives matched by call order per communicator, small sends may or may not block',
    'ranks of a job differ only in schedule, set order, cwd and random state',
]


def prepare(hash_order=True):
    if _ready[0]:
        return
    _ready[0] = True
    warnings.simplefilter('ignore')
    if hash_order:
        hashorder.install()
    simmpi.install()
    # a one-process world so that import-time MPI queries work
    simmpi.World(K.Kernel(K.Chooser(0)), 1)
    import openmdao.api                     # noqa
    from openmdao.core.mpi_wrap import MPI  # noqa
    assert MPI is not None
    M.classes()
    hashorder.reset()


class no_mpi(object):
    """OpenMDAO as it is when mpi4py can't be imported."""

    def __enter__(self):
        import sys
        self.saved = []
        for name in sorted(sys.modules):
            m = sys.modules[name]
            if name.startswith('openmdao.') and getattr(m, 'MPI', None) is not None and \
                    not name.endswith('petsc_impl'):
                self.saved.append((m, m.MPI))
                m.MPI = None

    def __exit__(self, *exc):
        for m, v in self.saved:
            m.MPI = v


class Job(object):
    """One simulated job; body(rank) runs on every rank."""

    def __init__(self, scn, chooser, run, max_steps=60000):
        self.scn, self.run = scn, run
        self.nproc = scn['nproc']
        self.kern = K.Kernel(chooser, max_steps=max_steps, sticky=scn.get('sticky', 0))
        self.kern.globals_savers = K.std_savers()
        self.stall = scn.get('stall', 0)
        self.world = None
        self.user_hook = None

    def hook(self, comp, what):
        k = self.kern
        t = k.me()
        if t is None:
            return
        k.event(t.env.get('rank'), what, comp.pathname)
        if self.stall and k.choose(8, 'stall') >= 8 - self.stall:
            d = (0.01, 0.3, 5.0)[k.choose(3, 'stall length')]
            k.count('fault.slow component')
            k.sleep(d)

    def start(self, body, leftovers=True, allow=()):
        """Run; raises Violation on deadlock, crash, leftover messages."""
        M.HOOK[0] = self.user_hook or self.hook
        salts = self.scn.get('salts')

        def fn(rank):
            hashorder.set_salt(0 if salts is None else salts + rank)
            return body(rank)
        hashorder.perms[0] = 0
        try:
            v, tasks, w = simmpi.run_world(self.kern, self.nproc, fn,
                                           send_mode=self.scn.get('send', 0),
                                           early=self.scn.get('early', True))
        finally:
            M.HOOK[0] = None
            hashorder.reset()
        self.world = w
        run = self.run
        run.absorb(self.kern)
        run.count('mpi ranks', self.nproc)
        run.count('mpi messages', w.msgs)
        run.count('set orders decided', hashorder.perms[0])
        for k, n in w.opcount.items():
            run.count('mpi op ' + k, n)
        run.count('probe.any-source race', w.anysrc_races)
        run.count('probe.send waited for its receiver', w.rndv_waits)
        run.count('probe.left a collective early', w.early_leaves)
        errs = [t for t in tasks if t.exc is not None and not isinstance(t.exc, Violation)]
        if v is not None and not (v.cls == 'deadlock' and errs):
            raise v
        self.tasks = tasks
        bad = [t for t in errs if not isinstance(t.exc, allow)]
        if bad:
            t = bad[0]
            tb = ''.join(traceback.format_exception(type(t.exc), t.exc, t.exc_tb))
            raise Violation('exception', '%s raised %s: %s (%d of %d ranks raised)\n%s' % (
                t.name, type(t.exc).__name__, t.exc, len(errs), self.nproc, tb[-1500:]))
        if v is not None:
            raise v
        if leftovers and not errs:
            lo = w.leftovers()
            if lo:
                raise Violation('leftover', '; '.join(lo[:4]))
        return tasks


def maxprocs(spec, cmax=None):
    """(min, max) processes the model may be given, from the documented rules:
    a component one (or cmax[cid]), a group the most any member can use, a
    parallel group the sum."""
    def rec(node):
        if not isinstance(node, dict):
            return 1 if not cmax else cmax.get(node, 1)
        ms = [rec(s) for s in node['subs']] or [1]
        if node['kind'] == 'PG':
            return sum(ms)
        return max(ms)
    return rec(spec['tree'])


def knobs(rng, mx, procs=6, always_par=False):
    lo = 2 if (always_par and mx > 1) else 1
    return {'nproc': rng.randint(min(lo, mx), max(1, min(procs, mx))),
            'send': rng.randrange(3), 'early': rng.random() < 0.8,
            'sticky': rng.choice([0, 0, 4, 6, 7]), 'stall': rng.choice([0, 0, 1, 3]),
            'salts': rng.randrange(1, 10 ** 6)}


def shrink_job(scn):
    """Smaller versions of the process-level knobs."""
    for n in range(1, scn['nproc']):
        yield dict(scn, nproc=n)
    if scn.get('stall'):
        yield dict(scn, stall=0)
    if scn.get('send'):
        yield dict(scn, send=0)
        if scn['send'] == 2:
            yield dict(scn, send=1)
    if scn.get('early'):
        yield dict(scn, early=False)
    if scn.get('salts') is not None:
        yield dict(scn, salts=None)


def close(a, b, rtol, atol):
    a, b = np.ravel(np.asarray(a)), np.ravel(np.asarray(b))
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol))
