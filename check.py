#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay FILE]

Decides one property of /repo (GPyOpt) with the TLA+ specifications in /verif/spec and the
conformance drivers in /verif/harness.  Exit 0: held on everything explored.  Exit 1 with a
VIOLATION line: broken.  Anything else: the machinery failed."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           MPLBACKEND='agg', PYTHONWARNINGS='ignore', VERIF_REEXEC='1')
PY = '/opt/venv/bin/python'
if os.environ.get('VERIF_REEXEC') != '1':
    env = dict(os.environ); env.update(ENV)
    os.execve(PY, [PY, os.path.join(HERE, 'check.py')] + sys.argv[1:], env)
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
from harness import vlib
if __name__ == '__main__':
    vlib.main(sys.argv[1:])
