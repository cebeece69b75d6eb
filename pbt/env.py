"""Process environment for the checks: imported before anything else.

Puts /repo first on sys.path (the code under test) and hypothesis (pure python,
from the tooling venv) last, so that numpy/scipy/numba come from the project's
own environment.
"""
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
    os.environ[k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ['PYTHONHASHSEED'] = '0'
sys.dont_write_bytecode = True

sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.join(VERIF, 'pbt')]
sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.append(VERIF)
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if HYP not in sys.path:
    sys.path.append(HYP)

warnings.simplefilter('ignore')
