"""Seeded search: run many simulated executions, minimise and report.

A check module provides
    PROPERTY, MODE ('mpi' or 'plain'), RULE (str), QUICK/THOROUGH = (runs, wall_s)
    prepare()                     once per worker, imports the code under test
    gen(rng, i, tier) -> scenario JSON-able dict (everything but the decisions)
    execute(scn, chooser, run) -> None; uses run.violate / run.count / run.key
    shrink(scn) -> iterator of smaller scenarios        (optional)
    DIRECTED = [scenario, ...]                          (optional, run first)
    COMPONENTS = {'real': [...], 'stub': [...]}
"""
import gc
import hashlib
import io
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from sim.kernel import Chooser, Violation, HarnessError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 60          # CPU seconds for one simulated run (typical: 0.05-1 s)
NWORKERS = 8


class CpuLimit(BaseException):
    pass


class Run(object):
    """What one simulated execution reports."""

    def __init__(self, tmp):
        self.stats = {}
        self.key = None
        self.nontrivial = False
        self.viol = None
        self.steps = 0
        self.simtime = 0.0
        self.switches = 0
        self.h = hashlib.sha1()
        self.tmp = tmp
        self.sample = None

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def event(self, *w):
        self.h.update((' '.join(str(x) for x in w) + '\n').encode('utf8', 'replace'))

    def absorb(self, kern):
        """Take over the statistics of a kernel that has run."""
        self.steps += kern.steps
        self.switches += kern.switches
        self.simtime += kern.now
        self.h.update(kern.loghash.digest())
        for k, v in kern.stats.items():
            self.count(k, v)

    def violate(self, cls, msg):
        raise Violation(cls, msg)


def run_seed(prop, seed, i):
    return int.from_bytes(hashlib.sha256(('%s/%s/%s' % (prop, seed, i)).encode()).digest()[:7], 'big')


def _alarm(*a):
    raise CpuLimit()


def execute_here(mod, scn, decisions, seed, cpu=CPU_LIMIT):
    """Run one scenario in this process; returns a plain dict."""
    tmp = tempfile.mkdtemp(prefix='omsim_')
    cwd = os.getcwd()
    r = Run(tmp)
    ch = Chooser(seed=seed, script=decisions)
    out = {'err': None, 'viol': None}
    os.chdir(tmp)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    t0 = time.time()
    real_out, sys.stdout = sys.stdout, io.StringIO()
    try:
        mod.execute(scn, ch, r)
    except Violation as v:
        out['viol'] = {'cls': v.cls, 'msg': v.msg[:3000]}
    except CpuLimit:
        out['viol'] = {'cls': 'no-progress', 'msg': 'the run used more than %d s of CPU without '
                       'ending (a run of this kind takes well under a second or two)' % cpu}
    except BaseException:
        out['err'] = traceback.format_exc()[-6000:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout = real_out
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    if out['viol'] is not None:
        r.event('violation', out['viol']['cls'])
    out.update(stats=r.stats, key=r.key, nontrivial=r.nontrivial, steps=r.steps,
               simtime=r.simtime, switches=r.switches, loghash=r.h.hexdigest(), sample=r.sample,
               decisions=ch.decisions if out['viol'] else None, ndec=len(ch.decisions),
               wall=time.time() - t0)
    return out


def _write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


def forked(mod, scn, decisions, seed, cpu=CPU_LIMIT, wall=None):
    """Run one scenario in a fork of this (pristine) process."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            os.setpgid(0, 0)
            out = execute_here(mod, scn, decisions, seed, cpu)
            data = pickle.dumps(out, 2)
            _write_all(wfd, data)
            os.close(wfd)
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(wfd)
    buf = []
    t0 = time.time()
    wall = wall or cpu * 5 + 60
    killed = False
    while True:
        left = wall - (time.time() - t0)
        rl, _, _ = select.select([rfd], [], [], max(0.0, min(left, 5.0)))
        if rl:
            b = os.read(rfd, 1 << 16)
            if not b:
                break
            buf.append(b)
        elif left <= 0:
            killed = True
            break
    os.close(rfd)
    try:
        if killed:
            os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)       # anything the run left behind
    except OSError:
        pass
    if killed:
        return {'err': 'run hung in real time (%ds) outside the simulator' % wall, 'viol': None,
                'stats': {}, 'key': None, 'nontrivial': False, 'steps': 0, 'simtime': 0,
                'switches': 0, 'loghash': '', 'sample': None, 'decisions': None, 'ndec': 0,
                'wall': wall}
    try:
        return pickle.loads(b''.join(buf))
    except Exception:
        return {'err': 'run process died, status %r' % st, 'viol': None, 'stats': {}, 'key': None,
                'nontrivial': False, 'steps': 0, 'simtime': 0, 'switches': 0, 'loghash': '',
                'sample': None, 'decisions': None, 'ndec': 0, 'wall': 0}


# -- known findings -----------------------------------------------------------
def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d['property'] == prop and d['status'] == 'known':
                    out.append(d)
    return out


def is_known(kfs, scn, viol):
    """A finding is identified by its directed scenario's name and class."""
    for k in kfs:
        if scn.get('directed') == k['id'] and viol['cls'] == k['cls']:
            return k
    return None


# -- one batch -----------------------------------------------------------------
def scenario(mod, seed, i, tier):
    rs = run_seed(mod.PROPERTY, seed, i)
    d = getattr(mod, 'DIRECTED', [])
    if i < len(d):
        return dict(d[i]), rs
    return mod.gen(random.Random(rs), i, tier), rs


def _worker(mod, tier, seed, w, nw, runs, deadline, fd):
    gc.collect()
    gc.freeze()
    for i in range(w, runs, nw):
        if time.time() > deadline:
            break
        try:
            scn, rs = scenario(mod, seed, i, tier)
            out = forked(mod, scn, None, rs)
        except BaseException:
            scn, out = None, {'err': traceback.format_exc(), 'viol': None}
        if out.get('err') is None and out['viol'] is None:
            out.pop('decisions', None)
        if i % 37 and out.get('sample') is not None and out['viol'] is None:
            out['sample'] = None
        data = pickle.dumps((i, scn if (out['viol'] or out.get('err')) else None, out), 2)
        _write_all(fd, struct.pack('<I', len(data)) + data)
    os._exit(0)


def batch(mod, tier, seed, runs, wall, nworkers=NWORKERS, stop_on_viol=True, on_result=None):
    """Yields nothing; returns (results, wall used, unfinished)."""
    t0 = time.time()
    deadline = t0 + wall
    fds, pids = [], []
    sys.stdout.flush()
    for w in range(nworkers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                for f in fds:
                    os.close(f)
                _worker(mod, tier, seed, w, nworkers, runs, deadline, wfd)
            except BaseException:
                traceback.print_exc()
            os._exit(9)
        os.close(wfd)
        fds.append(r)
        pids.append(pid)
    bufs = dict((f, b'') for f in fds)
    results = []
    stop = False
    open_fds = list(fds)
    while open_fds and not stop:
        rl, _, _ = select.select(open_fds, [], [], 5.0)
        if time.time() > deadline + 500:
            break
        for f in rl:
            b = os.read(f, 1 << 16)
            if not b:
                open_fds.remove(f)
                continue
            bufs[f] += b
            while len(bufs[f]) >= 4:
                n = struct.unpack('<I', bufs[f][:4])[0]
                if len(bufs[f]) < 4 + n:
                    break
                i, scn, out = pickle.loads(bufs[f][4:4 + n])
                bufs[f] = bufs[f][4 + n:]
                results.append((i, scn, out))
                if on_result is not None and on_result(i, scn, out) and stop_on_viol:
                    stop = True
    for p in pids:
        try:
            os.killpg(p, signal.SIGKILL if stop else signal.SIGTERM)
        except OSError:
            pass
    bad = 0
    for p in pids:
        _, st = os.waitpid(p, 0)
        if st not in (0, signal.SIGKILL, signal.SIGTERM):
            bad += 1
    for f in fds:
        os.close(f)
    if bad and not stop:
        raise HarnessError('%d workers died' % bad)
    results.sort(key=lambda t: t[0])
    return results, time.time() - t0


# -- minimisation ----------------------------------------------------------------
def minimise(mod, scn, decisions, seed, cls, wall=60):
    """Shrink scenario, then decisions, keeping the violation class."""
    t0 = time.time()
    tries = [0]

    def fails(s, d):
        tries[0] += 1
        out = forked(mod, s, d, seed, cpu=CPU_LIMIT if cls == 'no-progress' else 30)
        if out['viol'] is not None and out['viol']['cls'] == cls:
            return out
        return None
    best = (scn, decisions)
    last = fails(scn, decisions)
    if last is None:
        return scn, decisions, None, tries[0]
    cur_seed = seed
    improved = True
    while improved and time.time() - t0 < wall:
        improved = False
        for s in (mod.shrink(best[0]) if hasattr(mod, 'shrink') else ()):
            if time.time() - t0 > wall:
                break
            # first with the recorded decisions, then with a few fresh seeds
            o = fails(s, best[1])
            if o is None:
                o = fails(s, [])
            k = 0
            while o is None and k < 3 and time.time() - t0 < wall:
                o = None
                out = forked(mod, s, None, seed + 1 + k, cpu=30)
                tries[0] += 1
                if out['viol'] is not None and out['viol']['cls'] == cls:
                    o = out
                k += 1
            if o is not None:
                best = (s, list(o['decisions']))
                last = o
                improved = True
                break
    # decisions: cut the tail, then zero blocks
    d = list(best[1])
    o = fails(best[0], [])
    if o is not None:
        d, last = [], o
    else:
        lo, hi = 0, len(d)
        while lo < hi and time.time() - t0 < wall + 30:
            m = (lo + hi) // 2
            o = fails(best[0], d[:m])
            if o is not None:
                hi, last = m, o
            else:
                lo = m + 1
        d = d[:hi]
        blk = max(1, len(d) // 2)
        while blk >= 1 and time.time() - t0 < wall + 60 and d:
            i = 0
            while i < len(d) and time.time() - t0 < wall + 60:
                if any(d[i:i + blk]):
                    e = d[:i] + [0] * len(d[i:i + blk]) + d[i + blk:]
                    o = fails(best[0], e)
                    if o is not None:
                        d, last = e, o
                i += blk
            blk //= 2
            if len(d) > 400 and blk < len(d) // 64:
                break
        while d and d[-1] == 0:
            d.pop()
    final = fails(best[0], d)
    if final is None:
        return scn, decisions, None, tries[0]
    return best[0], d, final, tries[0]


def replay_file(mod, scn, decisions, viol, seed, runseed, tier, orig):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': mod.PROPERTY, 'tier': tier, 'verif_seed': seed, 'run_seed': runseed,
            'violation': viol, 'scenario': scn, 'decisions': decisions, 'minimised_from': orig}
    txt = json.dumps(body, indent=1, sort_keys=True)
    p = os.path.join(d, '%s-%s.json' % (mod.PROPERTY, hashlib.sha1(txt.encode()).hexdigest()[:10]))
    with open(p, 'w') as f:
        f.write(txt + '\n')
    return p
