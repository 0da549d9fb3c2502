#!/usr/bin/env python3
"""check.py --property P01 [--tier quick|thorough] | --replay FILE |
   --property P01 --determinism N | --list"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('OMSIM_REPO', '/repo')


def _reexec():
    if os.environ.get('OMSIM_ENV') == '1':
        return
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('OMPI_', 'MPIR_', 'MPICH_', 'MPIEXEC', 'OPENMDAO_', 'PYTHON'))
           and k != 'USE_PROC_FILES'}
    env.update(OMSIM_ENV='1', PYTHONPATH='%s:/opt/vp/compat' % REPO,
               PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED=os.environ.get('OMSIM_HASHSEED', '0'),
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
               PYTHONWARNINGS='ignore', LC_ALL='C.UTF-8', HOME='/root')
    py = '/opt/venv/bin/python'
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--hashes', help='write run index and event-log hash of every run here')
    ap.add_argument('--one', type=int, help='run only this index, in this process')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--no-minimise', action='store_true')
    ap.add_argument('--knobs', action='store_true')
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    from sim import driver
    return driver.main(a)


if __name__ == '__main__':
    _reexec()
    sys.exit(main())
