"""Judging noise: standard normal, fresh, and a function of seed and step.

Bounds are tail bounds that a fair source exceeds with probability below
1e-12 per test, whatever the sample size.
"""
from sim.boot import np
from sim.base import Violation

X = 32.0  # -log of the probability of a false alarm


class NoiseLab:
  """Collects normalised noise: step -> list of float64 arrays by leaf."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.z = {}

  def add(self, pos, zs, tol=1e-3):
    """tol: how exact the normalised values are."""
    if pos in self.z:  # re-executed after a restart
      for n, (a, b) in enumerate(zip(zs, self.z[pos])):
        if a.size and np.max(np.abs(a - b)) > tol:
          raise Violation('not-reproduced', f'step {pos}, leaf {n}: noise '
                          f'{a.reshape(-1)[:4]} after a restart, '
                          f'{b.reshape(-1)[:4]} before')
      self.ctx.probe('noise_reproduced')
    self.z[pos] = zs

  # ------------------------------------------------------------------ tests
  @staticmethod
  def moments(v, where):
    n = v.size
    if n == 0:
      return
    if not np.isfinite(v).all():
      raise Violation('noise-not-finite', where)
    m = float(np.mean(v))
    if abs(m) > np.sqrt(2 * X / n):
      raise Violation('noise-mean', f'{where}: mean {m:.4g} standard '
                      f'deviations over {n} values')
    q = float(np.mean(v * v))
    up, down = 2 * np.sqrt(X / n) + 2 * X / n, 2 * np.sqrt(X / n)
    if q - 1 > up or 1 - q > down:
      raise Violation('noise-variance', f'{where}: {q:.4g} times the '
                      f'documented variance over {n} values')
    if n >= 2000:
      # fourth moment tells other shapes from a normal one
      k = float(np.mean(np.clip(v, -6, 6)**4))
      if abs(k - 3) > 60 * np.sqrt(96.0 / n) / 3:
        raise Violation('noise-shape', f'{where}: fourth moment {k:.4g}')

  def judge(self, decays=None):
    """All tests over what was collected."""
    if not self.z:
      return
    steps = sorted(self.z)
    nl = len(self.z[steps[0]])
    every = []
    for n in range(nl):
      v = np.concatenate([self.z[s][n].reshape(-1) for s in steps])
      self.moments(v, f'leaf {n}')
      every.append(v)
    self.moments(np.concatenate(every), 'all leaves')
    for s in steps:
      self.moments(np.concatenate([x.reshape(-1) for x in self.z[s]]),
                   f'step {s}')
    # late and early steps separately: annealing errors grow with the step
    half = len(steps) // 2
    for name, part in (('early steps', steps[:half]),
                       ('late steps', steps[half:])):
      if part:
        self.moments(np.concatenate([x.reshape(-1) for s in part
                                     for x in self.z[s]]), name)
    # elements: over the steps, each position has the variance
    if len(steps) >= 150:
      for n in range(nl):
        a = np.stack([self.z[s][n].reshape(-1) for s in steps])
        for j in range(min(a.shape[1], 8)):
          self.moments(a[:, j], f'leaf {n}, element {j}')
    self.fresh(steps, nl)

  def fresh(self, steps, nl):
    blocks = [((s, n), self.z[s][n].reshape(-1)) for s in steps
              for n in range(nl) if self.z[s][n].size >= 6]
    for (s, n), v in blocks:
      self.inside(self.z[s][n], f'step {s}, leaf {n}')
    for s in steps[:2]:
      self.repeats(np.concatenate([x.reshape(-1) for x in self.z[s]]),
                   f'step {s}')
    # the same block twice, up to sign: look up rounded prefixes
    seen = {}
    for k, v in blocks:
      for sign in (1, -1):
        h = v[:6] * sign
        key = tuple(np.floor(h[:2] * 20).astype(int))
        for d0 in (0, 1):
          for d1 in (0, 1):
            for k2, w in seen.get((key[0] + d0 - 1, key[1] + d1 - 1), ()) \
                if d0 or d1 else seen.get(key, ()):
              if np.max(np.abs(w[:6] - h)) < 2e-3:
                raise Violation('noise-reused', f'step {k[0]}, leaf {k[1]} '
                                f'repeats step {k2[0]}, leaf {k2[1]}: '
                                f'{v[:4]}')
      key = tuple(np.floor(v[:2] * 20).astype(int))
      for d0 in (-1, 0, 1):
        for d1 in (-1, 0, 1):
          seen.setdefault((key[0] + d0, key[1] + d1), []).append((k, v))
    # elements at the same place in every step
    for n in range(nl):
      a = np.stack([self.z[s][n].reshape(-1) for s in steps])
      if a.shape[0] >= 6 and a.shape[1] >= 1:
        for lag in range(1, min(4, a.shape[0] - 5)):
          d = np.abs(a[lag:] - a[:-lag]).reshape(-1)
          if d.size >= 6 and np.mean(d < 1e-3) > 0.5:
            raise Violation('noise-reused', f'leaf {n}: the same noise '
                            f'{lag} steps later')
    # correlation between consecutive steps and between leaves
    tot = {}
    for n in range(nl):
      a = np.stack([self.z[s][n].reshape(-1) for s in steps])
      for lag in (1, 2):
        if a.shape[0] > lag:
          tot.setdefault(('lag', lag), []).append(
              (a[lag:] * a[:-lag]).reshape(-1))
      for m in range(n):
        b = np.stack([self.z[s][m].reshape(-1) for s in steps])
        w = min(a.shape[1], b.shape[1])
        if w:
          tot.setdefault(('leaves', m, n), []).append(
              (a[:, :w] * b[:, :w]).reshape(-1))
    for k, vs in tot.items():
      v = np.concatenate(vs)
      if v.size >= 50:
        c = float(np.mean(v))
        if abs(c) > 2 * np.sqrt(X / v.size) + 2 * X / v.size:
          raise Violation('noise-correlated', f'{k}: {c:.3f} over {v.size}')

  @staticmethod
  def repeats(v, where):
    """A stretch of the noise of one step that occurs again in it."""
    for lag in range(1, min(v.size, 2500) - 40):
      n = int(np.count_nonzero(np.abs(v[lag:] - v[:-lag]) < 1e-3))
      if n > 12 and n > 0.3 * (v.size - lag):
        raise Violation('noise-reused', f'{where}: {n} of {v.size - lag} '
                        f'elements occur again {lag} places later')

  @staticmethod
  def inside(x, where):
    """Noise shared between the elements of one array."""
    v = x.reshape(-1)
    if v.size >= 8:
      d = np.abs(v[1:] - v[:-1])
      if np.mean(d < 1e-3) > 0.5:
        raise Violation('noise-shared', f'{where}: {v[:5]}')
    for ax in range(x.ndim):
      a = np.moveaxis(x, ax, 0)
      if a.shape[0] >= 2 and a[0].size >= 6:
        if np.max(np.abs(a[0] - a[1])) < 1e-3:
          raise Violation('noise-shared', f'{where}: the same along axis {ax}')
