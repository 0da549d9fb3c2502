"""P05: pass-by-object and file variables reach every consumer, fresh on every run."""
import copy
import hashlib
import json
import os
import random

import numpy as np

from checks import p01
from sim import mpiharness as H, simfs
from sim.kernel import Violation

PROPERTY = 'P05'
RULE = ('random models whose components exchange strings, lists, dicts, tuples, integers, arrays, user '
        'objects, numbers with units (passed by object), text files and binary files through serial, nested '
        'and parallel groups on 1-6 simulated ranks that share one file system; every component notes what '
        'it was given in each of several runs with changing inputs and setups; the interleaving of the '
        'ranks, of the halves of their file writes, sends, directories and component delays are drawn; in '
        'one-process runs a file operation may fail; non-trivial: a pass-by-object or file connection and '
        '>= 2 runs')
QUICK = (2400, 40)
THOROUGH = (80000, 1200)
COMPONENTS = {'real': H.COMPONENTS['real'] + ['the files'],
              'stub': H.COMPONENTS['stub'] + ['open, mkdir and makedirs add scheduling points and faults: '
                                              'sim/simfs.py']}
ASSUMPTIONS = H.ASSUMPTIONS + [
    'processes share one file system; a file that several processes use directly (source and target name '
    'the same file) has a directory per process']
FAULTS = ('slow component', 'write seen in halves', 'file operation fails')
PROBES = ('value went to another process', 'file copied', 'same file', 'binary file', 'mutated in place',
          'unit conversion', 'second setup', 'failure reported', 'directory per process',
          'unconnected value set')
prepare = H.prepare
TYPES = ['str', 'list', 'dict', 'tuple', 'int', 'obj', 'arr', 'num', 'narr', 'file', 'file', 'bfile']


class Thing(object):
    """A user's object."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Thing) and o.v == self.v

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return 'Thing(%r)' % self.v


def gen(rng, i, tier):
    n = rng.choice([2, 3, 4, 5, 6, 8, 10])
    comps, cnt = [], [0]
    weights = rng.choice([TYPES, TYPES, ['file', 'bfile', 'str'], ['file'], ['num', 'arr', 'narr', 'obj', 'list']])
    want = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    ppg = 0.35 if want == 1 else 0.6

    def comp(where, visible):
        c = {'n': 'c%d' % cnt[0], 'path': where, 'ins': [], 'outs': [],
             'dir': rng.choice(['', '', '', 'own', 'rank']), 'mut': rng.random() < 0.3,
             'prom': rng.random() < 0.25}
        cnt[0] += 1
        if not visible or rng.random() < 0.15:
            c['indep'] = True
            c['dir'] = ''
            for j in range(rng.choice([1, 1, 2])):
                c['outs'].append({'n': c['n'] + 'o%d' % j,
                                  't': rng.choice([t for t in weights if 'file' not in t] or ['str'])})
            return c
        for j in range(rng.choice([1, 1, 2, 3])):
            src, t = rng.choice(visible)
            c['ins'].append({'n': c['n'] + 'i%d' % j, 'src': src, 't': t, 'same': rng.random() < 0.3})
        if rng.random() < 0.2:
            c['ins'].append({'n': c['n'] + 'u', 'src': None,
                             't': rng.choice(['str', 'list', 'int', 'dict', 'obj'])})
        for j in range(rng.choice([0, 1, 1, 2])):
            c['outs'].append({'n': c['n'] + 'o%d' % j, 't': rng.choice(weights)})
        return c

    def outs(cs):
        return [([c['n'], o['n']], o['t']) for c in cs for o in c['outs']]

    ngrp = [0]

    def level(where, visible, budget, depth):
        """subs of one serial group; returns (subs, comps)"""
        subs, made = [], []
        while budget > 0:
            r = rng.random()
            if r < ppg and depth < 3 and budget >= 2:
                kind = 'PG' if rng.random() < 0.7 else 'G'
                g = '%s%d' % (kind.lower(), ngrp[0])
                ngrp[0] += 1
                k = rng.randint(2, min(4, budget))
                budget -= k
                if kind == 'PG':
                    kids, made2 = [], []
                    for j in range(k):
                        if rng.random() < 0.25:
                            sg = 'g%d' % ngrp[0]
                            ngrp[0] += 1
                            s2, m2 = level(where + [g, sg], visible + outs(made), rng.randint(1, 2), depth + 2)
                            kids.append({'n': sg, 'k': 'G', 'subs': s2})
                            made2 += m2
                        else:
                            c = comp(where + [g], visible + outs(made))
                            kids.append(c['n'])
                            made2.append(c)
                            comps.append(c)
                    subs.append({'n': g, 'k': 'PG', 'subs': kids})
                    made += made2
                else:
                    s2, m2 = level(where + [g], visible + outs(made), k, depth + 1)
                    subs.append({'n': g, 'k': 'G', 'subs': s2})
                    made += m2
            else:
                c = comp(where, visible + outs(made))
                subs.append(c['n'])
                made.append(c)
                comps.append(c)
                budget -= 1
        return subs, made
    tree, _ = level([], [], n, 0)
    comps.sort(key=lambda c: int(c['n'][1:]))
    scn = {'comps': comps, 'tree': tree, 'nproc': 0}
    scn['nproc'] = nproc = max(1, min(want, maxprocs({'k': 'G', 'subs': tree})))
    k = H.knobs(rng, nproc, nproc)
    k.pop('nproc')
    scn.update(k)
    scn['gdir'] = {g: rng.choice(['own', 'rank']) for g in groups(scn) if rng.random() < 0.15}
    scn['runs'] = [{'salt': rng.randrange(10 ** 6), 'setup': rng.random() < 0.15,
                    'keep': rng.random() < 0.15} for _ in range(rng.choice([1, 2, 2, 3]))]
    scn['sync'] = rng.random() < 0.5
    scn['fault'] = None
    if nproc == 1 and rng.random() < 0.4:
        scn['impl'] = rng.choice(['basic', 'basic', 'petsc'])
        if rng.random() < 0.6:
            scn['fault'] = [rng.randrange(1, 30), rng.choice(['ENOSPC', 'EIO', 'EACCES'])]
    return fix(scn)


def maxprocs(node):
    if not isinstance(node, dict):
        return 1
    ms = [maxprocs(s) for s in node['subs']]
    return sum(ms) if node['k'] == 'PG' else max(ms)


def fix(scn):
    """Same-file connections only where the assumptions allow them."""
    by = {c['n']: c for c in scn['comps']}
    for c in scn['comps']:
        for i in c['ins']:
            if i['src'] and i.get('same') and 'file' in i['t'] and scn['nproc'] > 1:
                s = by[i['src'][0]]
                if not (perrank(scn, c) and perrank(scn, s)):
                    i['same'] = False
    return scn


def perrank(scn, c):
    return c['dir'] == 'rank' or any(scn['gdir'].get(g) == 'rank' for g in c['path'])


def groups(scn):
    out = []

    def rec(subs):
        for s in subs:
            if isinstance(s, dict):
                out.append(s['n'])
                rec(s['subs'])
    rec(scn['tree'])
    return out


def shrink(scn):
    for k in range(len(scn['runs'])):
        if len(scn['runs']) > 1:
            yield dict(scn, runs=scn['runs'][:k] + scn['runs'][k + 1:])
        r = scn['runs'][k]
        if r['setup'] or r['keep']:
            yield dict(scn, runs=scn['runs'][:k] + [dict(r, setup=False, keep=False)] + scn['runs'][k + 1:])
    for c in reversed(scn['comps']):
        if len(scn['comps']) == 1:
            break
        new = copy.deepcopy(scn)
        new['comps'] = [x for x in new['comps'] if x['n'] != c['n']]
        for x in new['comps']:
            x['ins'] = [i for i in x['ins'] if not i['src'] or i['src'][0] != c['n']]

        def prune(subs):
            out = []
            for s in subs:
                if isinstance(s, dict):
                    s['subs'] = prune(s['subs'])
                    if s['subs']:
                        out.append(s)
                elif s != c['n']:
                    out.append(s)
            return out
        new['tree'] = prune(new['tree'])
        yield new
    for k, c in enumerate(scn['comps']):
        for j in range(len(c['ins'])):
            new = copy.deepcopy(scn)
            del new['comps'][k]['ins'][j]
            yield new
        for key, v in (('dir', ''), ('mut', False), ('prom', False)):
            if c[key] != v:
                new = copy.deepcopy(scn)
                new['comps'][k][key] = v
                yield fix(new)
    for g in scn['gdir']:
        new = copy.deepcopy(scn)
        del new['gdir'][g]
        yield fix(new)
    for s in H.shrink_job(scn):
        yield s


# -- the values ---------------------------------------------------------------------
def value(t, text):
    """A value of type t that depends on text; files give their content."""
    h = hashlib.md5(text.encode()).hexdigest()
    k = int(h[:6], 16)
    r = random.Random(k)
    if t == 'str':
        return 's-' + h[:10]
    if t == 'list':
        return [k, h[:6]] + [r.randrange(100) for _ in range(k % 3)]
    if t == 'dict':
        return {'k': k, 'h': [h[:4], {'z': k % 7}]}
    if t == 'tuple':
        return (k, h[:5])
    if t == 'int':
        return k % 100000
    if t == 'obj':
        return Thing([k, h[:3]])
    if t in ('arr', 'narr'):
        return np.array([float(r.randrange(1000)) for _ in range(3)])
    if t == 'num':
        return float(k % 1000)
    if t == 'file':
        return ''.join('%s %d\n' % (h[:r.randrange(1, 20)], r.randrange(100)) for _ in range(k % 6))
    if t == 'bfile':
        return bytes(bytearray(r.randrange(256) for _ in range(k % 300))) + b'\r\n\xff'
    raise KeyError(t)


def canon(v):
    if isinstance(v, bytes):
        return ['bytes', v.hex()]
    if isinstance(v, Thing):
        return ['thing', v.v]
    if isinstance(v, tuple):
        return ['tuple'] + list(v)
    if isinstance(v, np.ndarray):
        return ['arr'] + [int(round(float(x) * 1e3)) for x in v]
    if isinstance(v, (float, np.floating)):
        return ['num', int(round(float(v) * 1e3))]
    if isinstance(v, (int, np.integer)):
        return int(v)
    return v


def conv(i, v):
    """What the consumer's units make of the value."""
    return v * 100.0 if i['t'] in ('num', 'narr') and i['src'] else v


def text_of(cname, ins):
    return cname + json.dumps([canon(v) for v in ins], sort_keys=True)


def expect(scn, indeps, unconn):
    """{out name: value}, {comp: [inputs]} of one run, computed in order."""
    val, ins = {}, {}
    for c in scn['comps']:
        if c.get('indep'):
            for o in c['outs']:
                val[o['n']] = indeps[o['n']]
            continue
        x = [conv(i, val[i['src'][1]]) if i['src'] else unconn[i['n']] for i in c['ins']]
        ins[c['n']] = x
        for o in c['outs']:
            val[o['n']] = value(o['t'], o['n'] + text_of(c['n'], x))
    return val, ins


# -- the model --------------------------------------------------------------------------
def model(scn, seen, hook):
    from openmdao.api import Component, FileRef, Group, IndepVarComp, ParallelGroup
    by = {c['n']: c for c in scn['comps']}

    def fname(i, c):
        if i.get('src') and i.get('same'):
            return names[i['src'][1]]
        return i['n'] + ('.bin' if i['t'] == 'bfile' else '.dat')
    names = {o['n']: o['n'] + ('.bin' if o['t'] == 'bfile' else '.dat')
             for c in scn['comps'] for o in c['outs']}

    def add(adder, v, name, fn=None):
        t = v['t']
        if t == 'file':
            adder(name, FileRef(fn))
        elif t == 'bfile':
            adder(name, FileRef(fn), binary=True)
        elif t == 'num':
            adder(name, 1.0, units='cm' if v.get('src') else 'm', pass_by_obj=True)
        elif t == 'narr':
            adder(name, np.ones(3), units='cm' if v.get('src') else 'm', pass_by_obj=True)
        elif t == 'arr':
            adder(name, np.zeros(3), pass_by_obj=True)
        else:
            adder(name, value(t, 'initial'))

    class Worker(Component):
        def __init__(self, c):
            super(Worker, self).__init__()
            self.c = c
            self.bufs = {}
            for i in c['ins']:
                add(self.add_param, i, i['n'], fname(i, c))
            for o in c['outs']:
                add(self.add_output, o, o['n'], names[o['n']])

        def solve_nonlinear(self, params, unknowns, resids):
            c = self.c
            ins = []
            for i in c['ins']:
                ins.append(get(params, i['n'], i['t']))
            seen(c['n'], ins)
            hook(self)
            text = text_of(c['n'], ins)
            for o in c['outs']:
                v = value(o['t'], o['n'] + text)
                if o['t'] in ('file', 'bfile'):
                    with unknowns[o['n']].open('w') as f:
                        f.write(v)
                elif c['mut'] and o['t'] in ('list', 'dict'):
                    buf = self.bufs.get(o['n'])
                    if buf is None or unknowns[o['n']] is not buf:
                        buf = self.bufs[o['n']] = unknowns[o['n']]
                    if o['t'] == 'list':
                        buf[:] = v
                    else:
                        buf.clear()
                        buf.update(v)
                else:
                    unknowns[o['n']] = v

    def build(subs, g):
        for s in subs:
            if isinstance(s, dict):
                x = ParallelGroup() if s['k'] == 'PG' else Group()
                build(s['subs'], x)
                g.add(s['n'], x)
                d = scn['gdir'].get(s['n'])
                setdir(x, d, s['n'])
            else:
                c = by[s]
                if c.get('indep'):
                    x = IndepVarComp([
                        (o['n'], 1.0, {'units': 'm', 'pass_by_obj': True}) if o['t'] == 'num' else
                        (o['n'], np.ones(3), {'units': 'm', 'pass_by_obj': True}) if o['t'] == 'narr' else
                        (o['n'], np.zeros(3), {'pass_by_obj': True}) if o['t'] == 'arr' else
                        (o['n'], value(o['t'], 'initial'), {}) for o in c['outs']])
                else:
                    x = comps[s]
                    setdir(x, c['dir'], s)
                g.add(s, x, promotes=['*'] if c['prom'] else None)

    def setdir(x, d, name):
        if d == 'own':
            x.directory = 'd_' + name
            x.create_dirs = True
        elif d == 'rank':
            x.directory = lambda rank: 'r%d_%s' % (rank, name)
            x.create_dirs = True
    comps = {}
    for c in scn['comps']:
        if not c.get('indep'):
            comps[c['n']] = Worker(c)
    root = Group()
    build(scn['tree'], root)

    def pname(c, v):
        return '.'.join(c['path'] + ([] if c['prom'] else [c['n']]) + [v])
    for c in scn['comps']:
        for i in c['ins']:
            if i['src']:
                root.connect(pname(by[i['src'][0]], i['src'][1]), pname(c, i['n']))
    return root, comps, pname


def get(vec, name, t):
    v = vec[name]
    if t in ('file', 'bfile'):
        with v.open('r') as f:
            return f.read()
    if isinstance(v, (list, dict)):
        return copy.deepcopy(v)
    return v


def execute(scn, ch, run):
    import errno
    job = H.Job(scn, ch, run)
    tmp = os.path.join(run.tmp, 'w')
    os.mkdir(tmp)
    log = {}
    ncmp = [0]
    armed = [None]
    nops = [0]

    def fault(op, path):
        if armed[0] is None:
            return
        nops[0] += 1
        if nops[0] == armed[0][0]:
            code = armed[0][1]
            armed[0] = None
            run.count('fault.file operation fails')
            raise OSError(getattr(errno, code), 'injected ' + code, path)

    def body(rank):
        from openmdao.api import Problem
        from openmdao.core.basic_impl import BasicImpl
        from openmdao.core.petsc_impl import PetscImpl
        os.chdir(tmp)
        mine = log.setdefault(rank, [])
        root, comps, pname = model(scn, lambda c, ins: mine.append((c, ins)),
                                   lambda comp: job.hook(comp, 'solve'))
        impl = PetscImpl if scn.get('impl', 'petsc') == 'petsc' else BasicImpl
        p = Problem(root=root, impl=impl)
        p.setup(check=False)
        by = {c['n']: c for c in scn['comps']}
        state = {}
        indeps = {o['n']: canon_free(o['t'], 'initial') for c in scn['comps'] if c.get('indep')
                  for o in c['outs']}
        unconn = {i['n']: value(i['t'], 'initial') for c in scn['comps'] for i in c['ins'] if not i['src']}
        done = []
        for k, r in enumerate(scn['runs']):
            if r['setup'] and k:
                p.setup(check=False)
                run.count('probe.second setup')
                for c in scn['comps']:
                    if c.get('indep'):
                        for o in c['outs']:
                            indeps[o['n']] = canon_free(o['t'], 'initial')
                    for i in c['ins']:
                        if not i['src']:
                            unconn[i['n']] = value(i['t'], 'initial')
            if not r['keep'] or r['setup']:
                for c in scn['comps']:
                    sysm = find(root, c)
                    if c.get('indep'):
                        for o in c['outs']:
                            indeps[o['n']] = value(o['t'], '%d%s' % (r['salt'], o['n']))
                            if sysm.is_active():
                                p[pname(c, o['n'])] = value(o['t'], '%d%s' % (r['salt'], o['n']))
                    for i in c['ins']:
                        if not i['src']:
                            unconn[i['n']] = value(i['t'], '%d%s' % (r['salt'], i['n']))
                            run.count('probe.unconnected value set')
                            if sysm.is_active():
                                p[pname(c, i['n'])] = value(i['t'], '%d%s' % (r['salt'], i['n']))
            vals, ins = expect(scn, indeps, unconn)
            if scn['fault'] and not done:
                armed[0] = scn['fault']
                mine[:] = []
                fs.fault = fault
                err = None
                try:
                    p.run()
                except OSError as e:
                    err = e
                hit = armed[0] is None
                armed[0] = None
                fs.fault = None
                done.append(1)
                if hit:
                    if err is None:
                        raise Violation('fault-hidden', 'a file operation failed but run() returned normally')
                    run.count('probe.failure reported')
                elif err is not None:
                    raise Violation('exception', 'run() raised %r although no file operation failed' % err)
            mine[:] = []
            p.run()
            fs.fault = None
            what = 'run %d rank %d' % (k + 1, rank)
            # other processes may already be writing their files of the next run
            sync = scn['nproc'] > 1 and (scn['sync'] or k == len(scn['runs']) - 1)
            if sync:
                p.root.comm.barrier()
            ncmp[0] += check(scn, p, root, pname, mine, vals, ins, what, by,
                             sync or scn['nproc'] == 1)
            if sync:
                p.root.comm.barrier()
        p.cleanup()
    with simfs.SimFS(run.tmp, run) as fs:
        if scn.get('impl') == 'basic':
            with H.no_mpi():
                job.start(body)
        else:
            job.start(body)
        fs.fault = None
    run.count('values compared', ncmp[0])
    conns = [i['t'] for c in scn['comps'] for i in c['ins'] if i['src']]
    run.key = p01.hash_key(scn)
    run.nontrivial = bool(conns) and len(scn['runs']) > 1
    run.sample = {'nproc': scn['nproc'], 'connections': conns, 'runs': len(scn['runs']),
                  'fault': scn['fault'], 'steps': job.kern.steps}
    for c in scn['comps']:
        if c['mut']:
            run.count('probe.mutated in place')
        if c['dir'] == 'rank':
            run.count('probe.directory per process')
        for i in c['ins']:
            if i['src']:
                if i['t'] in ('num', 'narr'):
                    run.count('probe.unit conversion')
                if i['t'] == 'bfile':
                    run.count('probe.binary file')
                if 'file' in i['t']:
                    run.count('probe.same file' if i['same'] else 'probe.file copied')
    run.count('probe.value went to another process', job.world.opcount.get('isend', 0) +
              job.world.opcount.get('send', 0))


def canon_free(t, text):
    if t == 'num':
        return 1.0
    if t == 'arr':
        return np.zeros(3)
    if t == 'narr':
        return np.ones(3)
    return value(t, text)


def find(root, c):
    g = root
    for x in c['path']:
        g = g._subsystems[x]
    return g._subsystems[c['n']]


def same(a, b):
    return canon(a) == canon(b)


def check(scn, p, root, pname, mine, vals, ins, what, by, files):
    n = 0
    nexec = {}
    for c, got in mine:
        nexec[c] = nexec.get(c, 0) + 1
        for i, g, e in zip(by[c]['ins'], got, ins[c]):
            n += 1
            if not same(g, e):
                raise Violation('stale-input' if not wrongtype(g, e) else 'wrong-input',
                                '%s: %s ran with %s = %r, its source gave %r' % (what, c, i['n'], g, e))
    for c in scn['comps']:
        sysm = find(root, c)
        if not sysm.is_active():
            continue
        if not c.get('indep') and not nexec.get(c['n']):
            raise Violation('not-run', '%s: %s did not run' % (what, c['n']))
        for o in c['outs']:
            if 'file' in o['t'] and not files:
                continue
            for where, g in (('unknowns', get(sysm.unknowns, o['n'], o['t'])),
                             ('problem', get(p, pname(c, o['n']), o['t']))):
                n += 1
                if not same(g, vals[o['n']]):
                    raise Violation('wrong-value', '%s: %s of %s is %r in the %s, it was set to %r' % (
                        what, o['n'], c['n'], g, where, vals[o['n']]))
        if c.get('indep'):
            continue
        for i, e in zip(c['ins'], ins[c['n']]):
            if 'file' in i['t'] and not files:
                continue
            g = get(sysm.params, i['n'], i['t'])
            n += 1
            if not same(g, e):
                raise Violation('wrong-value', '%s: after the run %s of %s is %r, its source gave %r' % (
                    what, i['n'], c['n'], g, e))
    return n


def wrongtype(a, b):
    return type(a) is not type(b) and not isinstance(a, type(b))
