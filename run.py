#!/opt/venv/bin/python
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import argparse
p = argparse.ArgumentParser()
p.add_argument('check')
p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
p.add_argument('--replay')
p.add_argument('--workers', type=int)
a = p.parse_args()
for k, v in {'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MPLBACKEND': 'agg',
             'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0'}.items():
    if os.environ.get(k) != v:
        os.environ[k] = v
        os.environ.setdefault('VERIF_REEXEC', '0')
if os.environ.get('VERIF_REEXEC') == '0':
    os.environ['VERIF_REEXEC'] = '1'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B', os.path.abspath(__file__)] + sys.argv[1:])
from vm import core
sys.exit(core.main(a.check, a.tier, a.seed, a.replay, a.workers))
