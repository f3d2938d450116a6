#!/usr/bin/env python3
"""run.py C01 [--thorough] [--seed N] | run.py C01 --replay FILE"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or 'VERIF_CHILD' not in os.environ:
    os.environ.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', VERIF_CHILD='1')
    os.environ.pop('PYTHONPYCACHEPREFIX', None)
    os.environ.pop('PYTHONPATH', None)
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
sys.pycache_prefix = None
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.runner import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main())
