"""A second operating system process that takes over a training run.

It differs from the first one in everything a real replacement host differs
in: process id, hash seed of strings, addresses. Requests and answers are
length-prefixed pickles on the standard streams.
"""
import os
import pickle
import struct
import subprocess
import sys

_child = {}


def _read(f):
  n = f.read(8)
  if len(n) < 8:
    raise EOFError
  return pickle.loads(f.read(struct.unpack('<q', n)[0]))


def _write(f, x):
  b = pickle.dumps(x)
  f.write(struct.pack('<q', len(b)) + b)
  f.flush()


def ask(hashseed, **req):
  """Sends a request to the process with that hash seed, starting it."""
  c = _child.get(hashseed)
  if c is None or c.poll() is not None:
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    c = _child[hashseed] = subprocess.Popen(
        [sys.executable, '-B', os.path.abspath(__file__)], env=env,
        stdin=subprocess.PIPE, stdout=subprocess.PIPE,
        stderr=subprocess.DEVNULL)
  _write(c.stdin, req)
  return _read(c.stdout)


def _serve():
  fin = os.fdopen(os.dup(0), 'rb')
  out = os.fdopen(os.dup(1), 'wb')
  os.dup2(2, 1)
  sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
  import jax_removed_names  # noqa
  from sim import boot, trees, zoo  # noqa
  from sim.engine import Process
  n = 0
  while True:
    try:
      req = _read(fin)
    except EOFError:
      return
    try:
      boot.set_x64(req['x64'])
      proc = Process(lambda: zoo.build(req['tx'], req['tree']))
      p = trees.to_jnp(req['params'])
      s = req['state']
      init = trees.to_np(proc.tx.init(trees.to_jnp(req['start'])))
      s = trees.to_jnp(init if s is None else s)
      outs = []
      for g in req['grads']:
        u, s, p = getattr(proc, req['mode'])(trees.to_jnp(g), s, p)
        outs.append(trees.to_np((u, s, p)))
      _write(out, ('ok', init, outs))
    except Exception as e:  # pylint: disable=broad-except
      _write(out, ('raised', f'{type(e).__name__}: {str(e)[:300]}', None))
    n += 1
    if n % 50 == 0:
      boot.jax.clear_caches()


if __name__ == '__main__':
  # imported by name everywhere else, so that pickles agree
  _serve()
