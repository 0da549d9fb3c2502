"""Command line behind check.py."""
import importlib
import json
import os
import re
import resource
import subprocess
import sys
import tempfile
import time
import traceback

from sim import runner
from sim.runner import VERIF


def load(prop):
    mod = importlib.import_module('checks.%s' % prop.lower())
    mod.prepare()
    return mod


def main(a):
    os.environ.pop('VERIF_TIER', None)
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    base = tempfile.mkdtemp(prefix='omsimb_')
    tempfile.tempdir = base
    os.environ['TMPDIR'] = base
    try:
        return _main(a, seed)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('HARNESS-ERROR')
        return 3
    finally:
        import shutil
        os.chdir(VERIF)
        shutil.rmtree(base, ignore_errors=True)


def _main(a, seed):
    # a stray signal of a run must not reach us
    if a.replay:
        body = json.load(open(a.replay))
        mod = load(body['property'])
        out = runner.forked(mod, body['scenario'], body['decisions'], body['run_seed'])
        if out['err']:
            print(out['err'])
            return 3
        if out['viol'] is None:
            print('replay: no violation (recorded: %s)' % body['violation']['cls'])
            return 0
        print('replay: %s: %s' % (out['viol']['cls'], out['viol']['msg']))
        print('VIOLATION property=%s replay=%s' % (body['property'], os.path.abspath(a.replay)))
        return 1
    prop = a.property.upper()
    mod = load(prop)
    if a.one is not None:
        scn, rs = runner.scenario(mod, seed, a.one, a.tier)
        print(json.dumps(scn)[:4000])
        out = runner.execute_here(mod, scn, None, rs)
        out['decisions'] = None
        print(json.dumps(out, indent=1, default=str))
        return 1 if out['viol'] else 0
    runs, wall = getattr(mod, 'THOROUGH' if a.tier == 'thorough' else 'QUICK')
    runs = a.runs or runs
    wall = a.wall or wall
    print('%s tier=%s VERIF_SEED=%d runs<=%d wall<=%ds' % (prop, a.tier, seed, runs, wall))
    sys.stdout.flush()
    t0 = time.time()
    kfs = runner.known_findings(prop)
    seen = {}
    found = []
    errs = []

    def on(i, scn, out):
        if out.get('err'):
            errs.append((i, scn, out))
            return len(errs) > 3
        if out['viol'] is not None:
            k = runner.is_known(kfs, scn, out['viol'])
            if k is not None:
                seen[k['id']] = (k, out['viol'])
                return False
            found.append((i, scn, out))
            return not a.keep_going
        return False
    results, used = runner.batch(mod, a.tier, seed, runs, wall, nworkers=a.workers,
                                 stop_on_viol=True, on_result=on)
    if a.hashes:
        with open(a.hashes, 'w') as f:
            for i, _, o in results:
                f.write('%d %s\n' % (i, o.get('loghash')))
    for k, v in sorted(seen.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, v[0]['what']))
    status = 0
    if a.keep_going:
        for i, scn, out in sorted(found, key=lambda t: t[0]):
            print('run %d: %s: %s' % (i, out['viol']['cls'], out['viol']['msg'][:300]))
            if a.knobs:
                print('   ', {k: v for k, v in scn.items() if k != 'spec'})
    if found:
        found.sort(key=lambda t: t[0])
        i, scn, out = found[0]
        rs = runner.run_seed(prop, seed, i)
        viol = out['viol']
        print('run %d (run seed %d): %s: %s' % (i, rs, viol['cls'], viol['msg']))
        orig = {'run': i, 'decisions': out['ndec'], 'scenario_bytes': len(json.dumps(scn))}
        s2, d2, o2, tries = scn, out['decisions'], None, 0
        if not a.no_minimise:
            s2, d2, o2, tries = runner.minimise(mod, scn, out['decisions'], rs, viol['cls'],
                                                wall=45 if a.tier == 'quick' else 240)
        if o2 is None:
            s2, d2 = scn, out['decisions']
        else:
            viol = o2['viol']
            print('minimised: scenario %d -> %d bytes, decisions %d -> %d (%d executions)' % (
                orig['scenario_bytes'], len(json.dumps(s2)), orig['decisions'], len(d2), tries))
            print('  %s: %s' % (viol['cls'], viol['msg']))
        path = runner.replay_file(mod, s2, d2, viol, seed, rs, a.tier, orig)
        ok = _confirm(path, viol['cls'])
        if not ok and (s2, d2) != (scn, out['decisions']):
            path = runner.replay_file(mod, scn, out['decisions'], out['viol'], seed, rs, a.tier, orig)
            ok = _confirm(path, out['viol']['cls'])
        print('replay in a fresh process: %s' % ('reproduced' if ok else 'NOT reproduced'))
        status = 1 if ok else 4
    if errs and status == 0:
        i, scn, out = sorted(errs, key=lambda t: t[0])[0]
        print('HARNESS-ERROR in run %d of %d failing: %s' % (i, len(errs), out['err']))
        status = 3
    evidence(mod, a, seed, results, time.time() - t0, len(found), seen)
    if status == 1:
        print('VIOLATION property=%s replay=%s' % (prop, path))
    elif status == 0:
        print('%s held on %d runs (%.1fs)' % (prop, len(results), time.time() - t0))
    return status


def _confirm(path, cls):
    env = dict(os.environ)
    env.pop('OMSIM_ENV', None)
    for hs in ('0', '12345'):
        env['OMSIM_HASHSEED'] = hs
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), '--replay', path],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        txt = p.stdout.decode('utf8', 'replace')
        if p.returncode == 1 and ('replay: %s:' % cls) in txt:
            return True
    return False


def evidence(mod, a, seed, results, wall, nviol, seen):
    stats = {}
    keys = set()
    steps = switches = 0
    simtime = 0.0
    nontriv = set()
    samples = []
    rw = 0.0
    for i, scn, o in results:
        for k, v in (o.get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + v
        steps += o.get('steps') or 0
        switches += o.get('switches') or 0
        simtime += o.get('simtime') or 0
        rw += o.get('wall') or 0
        if o.get('key') is not None:
            keys.add(o['key'])
            if o.get('nontrivial'):
                nontriv.add(o['key'])
        if o.get('sample') is not None and len(samples) < 3:
            samples.append({'run': i, 'case': o['sample']})
    n = len(results)
    faults = {k[6:]: v for k, v in stats.items() if k.startswith('fault.')}
    probes = {k[6:]: v for k, v in stats.items() if k.startswith('probe.')}
    other = {k: v for k, v in stats.items() if not k.startswith(('fault.', 'probe.'))}
    for p in getattr(mod, 'PROBES', ()):
        probes.setdefault(p, 0)
    for p in getattr(mod, 'FAULTS', ()):
        faults.setdefault(p, 0)
    ev = {
        'property': mod.PROPERTY, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': n, 'distinct_nontrivial': len(nontriv), 'rule': mod.RULE,
            'samples': samples,
            'simulated_runs_per_hour (one seed each)': round(n / wall * 3600) if wall else 0,
            'simulated_time_s': round(simtime, 3), 'scheduling_steps': steps,
            'task_switches': switches,
            'distinct_executions': len(set(o.get('loghash') for _, _, o in results)),
            'distinct_executions_measure': 'different event-log hashes (every communication, fault, '
                                           'component call and task end, in order)',
            'distinct_scenarios': len(keys),
            'faults_fired': faults, 'probes': probes, 'workload': other,
            'components': getattr(mod, 'COMPONENTS', {}),
            'known_findings_seen': sorted(seen),
            'determinism': 'each run is a fork of a pristine process; seeds decide all choices',
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': nviol,
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, '%s.json' % mod.PROPERTY), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write('\n')
