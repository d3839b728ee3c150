#!/usr/bin/env python3
"""python check.py C01 [--tier quick|thorough] [--replay FILE] [--runs N] [--start I]"""
import os
import sys

PY = '/opt/venv/bin/python'
if os.environ.get('SIM_CHILD') != '1':
    import shutil
    import subprocess
    import tempfile
    tmp = tempfile.mkdtemp(prefix='sim_')
    env = dict(os.environ, SIM_CHILD='1', PYTHONHASHSEED=os.environ.get('SIM_HASHSEED', '0'),
               PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'), NUMBA_DISABLE_JIT='1', SIM_TMP=tmp,
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLBACKEND='Agg',
               PYTHONDONTWRITEBYTECODE='0')
    try:
        rc = subprocess.call([PY, '-W', 'ignore', '-X', 'faulthandler', os.path.abspath(__file__)] + sys.argv[1:],
                             env=env)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 2)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim.runner import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
