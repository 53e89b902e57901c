#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--replay file] [-v]: run one check against /repo's working tree."""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.environ.get('MC_CHILD') != '1':
    env = dict(os.environ, MC_CHILD='1', JAX_PLATFORMS='cpu', OMP_NUM_THREADS='1',
               MKL_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', NUMEXPR_NUM_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', TF_CPP_MIN_LOG_LEVEL='3',
               XLA_FLAGS='--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true '
                         '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
    env['PYTHONPATH'] = os.pathsep.join([HERE, env.get('MEENT_REPO', '/repo')])
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from mc import explore  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
ap.add_argument('--replay')
ap.add_argument('-v', action='store_true')
a = ap.parse_args()
sys.exit(explore.main(a.id.upper(), a.tier, a.replay, verbose=a.v))
