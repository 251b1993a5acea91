#!/usr/bin/env python3
"""python3 run.py <property id> [--replay FILE]   (VERIF_TIER=quick|thorough, VERIF_SEED=n, VERIF_REPO=/repo)"""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['PYTHONPYCACHEPREFIX'] = '/nonexistent/pycache'
for k in [k for k in os.environ if k.startswith('LC_') or k == 'LANG']:
    del os.environ[k]
os.environ['LC_ALL'] = 'C'
from mc import core
if __name__ == '__main__':
    mod = importlib.import_module('mc.checks.' + sys.argv[1].lower())
    sys.stdout.reconfigure(encoding='utf-8', errors='backslashreplace')
    sys.stderr.reconfigure(encoding='utf-8', errors='backslashreplace')
    sys.exit(core.main(mod, sys.argv[2:]))
