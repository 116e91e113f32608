#!/usr/bin/env python3-vt
"""Decide one property: run.py C01 [--tier quick|thorough] [--replay FILE]

exit 0: every obligation accounted for and no violation found
exit 1: VIOLATION property=<id> replay=<path> (see engine/runner.py)
"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'      # reproducible runs
    os.execv(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv)

sys.dont_write_bytecode = True
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(k, '1')
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.setrecursionlimit(20000)

import warnings
warnings.simplefilter('ignore')

from engine import runner

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
