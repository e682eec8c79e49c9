"""Comparing trees: exactly, or to within floating point rounding."""
from sim.boot import np, jax
from sim.base import Violation
from sim import trees


def _paths(tree):
  return [(jax.tree_util.keystr(k), v) for k, v in
          jax.tree_util.tree_flatten_with_path(tree)[0]]


def same_bits(a, b):
  """None, or how a differs from b (structure, dtype, shape or any bit)."""
  if trees.structure(a) != trees.structure(b):
    return f'structure {trees.structure(a)} is not {trees.structure(b)}'
  for (path, x), (_, y) in zip(_paths(a), _paths(b)):
    x, y = np.asarray(x), np.asarray(y)
    if x.dtype != y.dtype or x.shape != y.shape:
      return f'{path}: {x.dtype}{x.shape} is not {y.dtype}{y.shape}'
    if x.tobytes() != y.tobytes():
      try:
        eq = (x == y) | ((x != x) & (y != y))
        if bool(np.all(eq)) and bool(np.all(
            np.signbit(x.astype(np.float64)) == np.signbit(
                y.astype(np.float64)) | (x != x))):
          continue  # NaN payloads
      except TypeError:
        pass
      return f'{path}: {_show(x)} is not {_show(y)}'
  return None


def _show(x):
  x = np.asarray(x)
  s = np.array2string(x.reshape(-1)[:6].astype(np.float64), precision=9)
  return s + ('...' if x.size > 6 else '')


def close(actual, expected, rtol, atol=0.0, arel=None):
  """None, or how the tree differs from the expected one beyond rounding."""
  arel = rtol if arel is None else arel
  la, le = trees.leaves(actual), trees.leaves(expected)
  if len(la) != len(le):
    return f'{len(la)} leaves instead of {len(le)}'
  for i, (x, y) in enumerate(zip(la, le)):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
      return f'leaf {i}: shape {x.shape} instead of {y.shape}'
    if x.size == 0:
      continue
    if x.dtype == bool or y.dtype == bool:
      if not np.array_equal(x.astype(bool), y.astype(bool)):
        return f'leaf {i}: {x} instead of {y}'
      continue
    x, y = x.astype(np.float64), y.astype(np.float64)
    fin = np.isfinite(y)
    nf = ~fin
    if nf.any():
      bad = np.isfinite(x) & nf
      if bad.any():
        return f'leaf {i}: {_show(x)} instead of {_show(y)}'
    if not fin.any():
      continue
    scale = np.max(np.abs(y[fin])) if y.ndim else abs(float(y))
    with np.errstate(invalid='ignore', over='ignore'):
      err = np.abs(x - y)
      ok = err <= rtol * np.abs(y) + arel * scale + atol
    bad = ~(ok | nf)
    if bad.any():
      return (f'leaf {i}: {_show(x)} instead of {_show(y)} '
              f'(error {np.nanmax(np.where(bad, err, 0)):.3g}, '
              f'allowed {rtol:.1g}*{scale:.3g})')
  return None


def finite(tree):
  for path, x in _paths(tree):
    x = np.asarray(x)
    if x.dtype.kind in 'fV' and x.size and not np.isfinite(
        x.astype(np.float64)).all():
      return f'{path}: {_show(x)}'
  return None


def need(problem, kind, where=''):
  if problem is not None:
    raise Violation(kind, f'{where}{": " if where else ""}{problem}')


def perturbed(tree, eps, key):
  """The tree with every float multiplied by 1 + eps * uniform(-1, 1)."""
  n = [0]

  def f(x):
    a = np.asarray(x)
    if a.dtype.kind not in 'fV':
      return x
    n[0] += 1
    r = np.random.RandomState((key * 1009 + n[0]) & 0x7fffffff)
    with np.errstate(invalid='ignore', over='ignore'):
      return np.asarray(a.astype(np.float64) * (
          1 + eps * r.uniform(-1, 1, a.shape)), a.dtype)
  return jax.tree_util.tree_map(f, tree)


def explained(actual, expected, others, factor, rtol, atols=None):
  """Whether the deviation is no more than what rounding the inputs causes.

  `others` are results for inputs changed by about their rounding error.
  """
  la, le = trees.leaves(actual), trees.leaves(expected)
  lo = [trees.leaves(o) for o in others]
  if len(la) != len(le):
    return False
  for i, (a, e) in enumerate(zip(la, le)):
    a, e = np.asarray(a), np.asarray(e)
    if a.shape != e.shape:
      return False
    if a.size == 0:
      continue
    a, e = a.astype(np.float64), e.astype(np.float64)
    os = [np.asarray(o[i]).astype(np.float64) for o in lo]
    with np.errstate(invalid='ignore', over='ignore'):
      d = np.zeros(a.shape)
      for o in os:
        x = np.abs(o - e)
        same = (o == e) | (~np.isfinite(o) & ~np.isfinite(e))
        d = np.maximum(d, np.where(same, 0, np.where(np.isnan(x), np.inf, x)))
      err = np.abs(a - e)
      err = np.where((a == e) | (~np.isfinite(a) & ~np.isfinite(e)), 0,
                     np.where(np.isnan(err), np.inf, err))
      fin = np.abs(e[np.isfinite(e)])
      scale = fin.max() if fin.size else 0.0
      dm = d.max()
      slack = atols[i] if atols is not None else 0.0
      # neighbours in a leaf may share the cause (norms, means)
      ok = (err <= factor * np.maximum(d, 0.1 * dm)) | (
          err <= rtol * (np.abs(np.where(np.isfinite(e), e, 0)) + scale)
          + slack)
    if not ok.all():
      return False
  return True
