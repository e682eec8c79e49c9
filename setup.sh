#!/bin/bash
# Checks that the simulator starts against /repo's working tree. Builds nothing:
# every check imports optax from /repo afresh.
cd "$(dirname "$0")" || exit 1
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/optax-compat
exec /opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, '.')
from sim import boot
print('optax', boot.optax.__file__, 'jax', boot.jax.__version__)"
