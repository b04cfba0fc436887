"""python check.py <property> [quick|thorough]"""
import os
import sys

sys.dont_write_bytecode = True
for var in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[var] = '1'
os.environ.setdefault('PYTHONHASHSEED', '0')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
if not sys.flags.hash_randomization == 0 and os.environ.get('VERIF_REEXEC') != '1':
    os.environ.update(PYTHONHASHSEED='0', VERIF_REEXEC='1')
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings
warnings.simplefilter('ignore')
import importlib
import core

if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    module = importlib.import_module('props.' + pid.lower())
    sys.exit(core.main(module, tier, seed))
