"""Imports optax from /repo's working tree in a controlled environment.

Must be imported before jax. Every source of process-level variation that is
not the subject of a property is fixed here.
"""
import os
import sys

os.environ['JAX_PLATFORMS'] = 'cpu'
os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false '
                      'intra_op_parallelism_threads=1 --xla_backend_optimization_level=0')
os.environ['OMP_NUM_THREADS'] = '1'
os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
for p in ('/opt/optax-compat', REPO):
  if p in sys.path:
    sys.path.remove(p)
  sys.path.insert(0, p)

import warnings  # noqa
warnings.filterwarnings('ignore')
import logging  # noqa
logging.disable(logging.WARNING)

import jax_removed_names  # noqa
import numpy as np  # noqa
import jax  # noqa
import jax.numpy as jnp  # noqa
import optax  # noqa
from optax._src import wrappers as _wrappers  # noqa
from absl import logging as _absl  # noqa
_absl.set_verbosity(_absl.FATAL)

assert os.path.realpath(optax.__file__).startswith(
    os.path.realpath(REPO) + os.sep), optax.__file__


def set_x64(on):
  if bool(jax.config.jax_enable_x64) != bool(on):
    jax.config.update('jax_enable_x64', bool(on))
