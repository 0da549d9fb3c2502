"""P04: parallel runs never deadlock, desynchronise or leave stray messages."""
import importlib

from sim import mpiharness as H
from sim.kernel import Violation

PROPERTY = 'P04'
RULE = ('the multi-process runs of all other checks (models, analytic and numerical derivatives, process '
        'allocation, designs of experiments with and without failures, concurrent evaluation, drivers, '
        'file variables, distributed variables, recorders) under any message order, send mode and set '
        'iteration order; judged only by the message layer: a deadlock, collective calls that do not match, '
        'messages nobody received, an aborted rank or no progress; non-trivial: >= 2 ranks')
QUICK = (3000, 55)
THOROUGH = (100000, 1500)
COMPONENTS = H.COMPONENTS
ASSUMPTIONS = H.ASSUMPTIONS
FAULTS = ('slow component',)
CLASSES = ('deadlock', 'collective-mismatch', 'leftover', 'abort', 'no-progress')
NAMES = ('p01', 'p02', 'p03', 'p07', 'p08', 'p09', 'p10', 'p11', 'p12', 'p05', 'p06', 'p13')
MODS = {}


def prepare():
    H.prepare()
    for n in NAMES:
        try:
            m = importlib.import_module('checks.' + n)
        except ImportError:
            continue
        if m.prepare is not None:
            m.prepare()
        MODS[n] = m


PROBES = ('any-source race', 'left a collective early',
          'send waited for its receiver')


def gen(rng, i, tier):
    names = [n for n in NAMES if n in MODS]
    while True:
        n = rng.choice(names)
        scn = MODS[n].gen(rng, i, tier)
        if scn.get('nproc', 1) > 1 and not scn.get('directed'):
            break
    scn['of'] = n
    return scn


def shrink(scn):
    m = MODS[scn['of']]
    for s in m.shrink(scn):
        s['of'] = scn['of']
        yield s


def execute(scn, ch, run):
    m = MODS[scn['of']]
    try:
        m.execute(scn, ch, run)
    except Violation as v:
        if v.cls in CLASSES:
            raise
        run.count('judged elsewhere')
    run.count('runs of ' + m.PROPERTY)
    run.nontrivial = scn['nproc'] > 1
    if run.sample is not None:
        run.sample = dict(run.sample, of=m.PROPERTY)
