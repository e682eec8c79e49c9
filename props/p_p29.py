"""Stochastic gradient estimators: the randomness they consume is simulated.

Two kinds of run. In scripted runs the distribution handed to the estimator
(a public seam: `dist_builder`) returns draws decided by the simulator, so
every row of the result has one right value, computed here in float64 from
closed forms. In replica runs the real distribution and generator are used by
thousands of simulated trainers that differ in their key only; their mean is
compared to the exact gradient by a test which has to reject twice, on
independent keys, before it counts.
"""
import itertools
import pickle

from sim.boot import np, jnp, jax, optax
from optax._src import control_variates as cv
from optax._src import stochastic_gradient_estimators as sge
from optax._src import utils as outils
from sim.base import Violation, wchoice
from sim import trees, cmp
from sim.engine import sut
from props.common import register
from props.p_p26_p27_p28 import EventProp


class Func:
  """b + a.x + x'Qx/2 + sum(c x^3)/6 + sum(e cos(w x)), with derivatives."""

  def __init__(self, spec, d):
    rs = np.random.RandomState(spec['s'])
    r = lambda *s: np.round(rs.randn(*s) * 16) / 16
    q = r(d, d)
    z = lambda on, v: v if on in spec['on'] else np.zeros_like(v)
    self.b = spec['off']
    self.a, self.q, self.c = z('a', r(d)), z('q', (q + q.T) / 2), z('c', r(d))
    self.e, self.w = z('e', r(d)), 1.0 + 0.5 * rs.rand(d)

  def jax(self, x):
    y = self.b + jnp.dot(self.a, x) + jnp.dot(x, jnp.dot(self.q, x)) / 2
    return y + jnp.sum(self.c * x**3) / 6 + jnp.sum(
        self.e * jnp.cos(self.w * x))

  def val(self, x):
    return (self.b + x @ self.a + np.sum((x @ self.q) * x, -1) / 2 +
            np.sum(self.c * x**3, -1) / 6 + np.sum(
                self.e * np.cos(self.w * x), -1))

  def grad(self, x):
    return (self.a + x @ self.q + self.c * x**2 / 2 -
            self.e * self.w * np.sin(self.w * x))

  def hess(self, m):
    return self.q + np.diag(self.c * m - self.e * self.w**2 * np.cos(
        self.w * m))

  def third(self, m):  # diagonal of the third derivative
    return self.c + self.e * self.w**3 * np.sin(self.w * m)

  def true_grads(self, mu, ls):
    """Gradients of the Gaussian expectation, exact."""
    s2 = np.exp(2 * ls)
    damp = np.exp(-0.5 * self.w**2 * s2)
    g = (self.a + self.q @ mu + self.c * (mu**2 + s2) / 2 -
         self.e * self.w * np.sin(self.w * mu) * damp)
    # d/dlog_scale E f = s2 E f''
    h = (np.diag(self.q) + self.c * mu - self.e * self.w**2 *
         np.cos(self.w * mu) * damp)
    return [g, s2 * h]


class Delta:
  """The second order expansion of a function at the mean, documented."""

  def __init__(self, f, mu):
    self.f0, self.g = f.val(mu), f.grad(mu)
    self.h, self.t, self.mu = f.hess(mu), f.third(mu), mu

  def val(self, x):
    z = x - self.mu
    return self.f0 + z @ self.g + np.sum((z @ self.h) * z, -1) / 2

  def grad(self, x):
    return self.g + (x - self.mu) @ self.h


class Const:

  def __init__(self, v):
    self.v = v

  def val(self, x):
    return np.full(x.shape[0], self.v)

  def grad(self, x):
    return np.zeros_like(x)


SIZE = 1024  # scripted draws; a power of two


def start_of(key):
  """Where in the script a key starts to read."""
  return (key[0] * 7 + key[1] * 13 + (key[1] >> 9) + (key[0] >> 15)) % SIZE


def scripted(table, kind):
  """A distribution whose draws are decided by the simulator."""
  tab = jnp.asarray(np.concatenate([table, table]))

  class Dist:

    def __init__(self, loc, log_scale=None):
      self.loc = loc
      self.ls = jnp.zeros_like(loc) if log_scale is None else log_scale

    def sample(self, shape, seed):
      n, = shape
      at = start_of(jnp.asarray(seed, jnp.uint32)).astype(jnp.int32)
      e = jnp.take(tab, at + jnp.arange(n, dtype=jnp.int32), axis=0)
      e = e.astype(self.loc.dtype)
      if kind == 'bernoulli':
        return (e < jax.nn.sigmoid(self.loc)).astype(self.loc.dtype)
      return self.loc + jnp.exp(self.ls) * e

    def log_prob(self, x):
      if kind == 'bernoulli':
        return jnp.sum(x * jax.nn.log_sigmoid(self.loc) +
                       (1 - x) * jax.nn.log_sigmoid(-self.loc), -1)
      return jnp.sum(-0.5 * ((x - self.loc) / jnp.exp(self.ls))**2 -
                     self.ls - 0.5 * np.log(2 * np.pi), -1)

  if kind == 'loc':
    return lambda loc: Dist(loc)
  return Dist


def weight(i, d, early):
  """The documented decay of the baseline at its i-th update."""
  return min(d, (1 + i) / (10 + i)) if early else d


def average(v, i, m, prog):
  di = weight(i, prog['decay'], prog['early'])
  if prog['debias']:
    v = v * (1 - di**i)
  v = di * v + (1 - di) * m
  if prog['debias']:
    v /= 1 - di**(i + 1)
  return v


def share(i, prog):
  """The part of the newest mean in the baseline after its i-th update."""
  return average(0.0, i, 1.0, prog)


@register
class P29(EventProp):
  id = 'P29'
  quick = 110
  method = ('draws scripted by the simulator through the distribution seam, '
            'with tail, repeated and equal-weight quadrature draws: rows '
            'against float64 closed forms; thousands of replicas differing '
            'in their key only: mean against the exact gradient')
  note = ('sampled smooth functions up to dimension 4; replica runs see a '
          'bias above about five standard errors of 4096 replicas')
  rule = 'two or more estimates, one of them disturbed'
  stubs = ['draws of the distribution (in scripted runs)', 'trainer, disk, '
           'crashes (simulated)']

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 2 and bool(ctx.faults)

  def generate(self, rng, i, tier):
    replica = rng.random() < 0.45
    d = rng.choice([1, 2, 3] if replica else [1, 1, 2, 2, 3, 4])
    kind = 'normal'
    est = rng.choice(['score', 'path', 'mv', 'mv', 'mv0'] if replica else
                     ['score', 'score', 'path'])
    if not replica:
      kind = wchoice(rng, [(7, 'normal'), (1, 'loc'),
                           (2 if est == 'score' else 0, 'bernoulli')])
    with_cv = wchoice(rng, [(4, None), (4, 'delta' if kind == 'normal' else
                                        'mavg'), (3, 'mavg')])
    coeffs = with_cv is not None and rng.random() < 0.45
    if replica and with_cv == 'mavg':
      coeffs = False
    draws = 'tails'
    if not replica:
      draws = rng.choice(['tails', 'tails', 'plain', 'quadrature'])
    n = rng.choice([1, 1, 2, 3, 4, 8, 16])
    if draws == 'quadrature':
      d = min(d, 2)
      n = 6**d
      kind = 'normal'
    prog = dict(
        x64=rng.random() < 0.35, replica=replica, d=d, kind=kind, est=est,
        cv=with_cv, coeffs=coeffs, m=rng.choice([2, 3, 8, 20]), n=n,
        draws=draws, table=rng.randrange(1 << 24),
        fn=dict(s=rng.randrange(1 << 24),
                off=rng.choice([0.0, 0.0, 1.0, -4.0, 2.5]),
                on=rng.choice(['a', 'aq', 'aqc', 'q', 'c', 'aqce', 'e',
                               'ae'] if draws != 'quadrature' else
                              ['a', 'aq', 'aqc', 'qc', 'c'])),
        loc=rng.randrange(1 << 24), lr=rng.choice([0.0, 0.03125, 0.125]),
        lsmin=rng.choice([-1.0, -0.5, 0.0]),
        decay=rng.choice([0.99, 0.9, 0.5, 0.0]), debias=rng.random() < 0.6,
        early=rng.random() < 0.5)
    ev = []
    for _ in range(rng.randint(2, 3) if replica else rng.randint(4, 10)):
      e = dict(key=rng.randrange(1 << 31),
               mode='jit' if rng.random() < 0.9 else 'eager')
      if replica:
        e['mode'] = 'jit'
      r = rng.random()
      if r < 0.16:
        e['f'] = 'crash'
      elif r < 0.3:
        e['f'] = 'repeat'
      elif r < 0.4:
        e['f'] = 'rival'
      elif r < 0.5:
        e['f'] = 'oldkey'   # the generator was rolled back: a key comes again
        if ev:
          e['key'] = ev[-1]['key']
      # each of these costs compilations: at most once per run
      if e.get('f') in ('crash', 'rival') and any(
          b.get('f') == e['f'] for b in ev) or replica and e.get(
              'f') == 'rival':
        e['f'] = 'oldkey'
        if ev:
          e['key'] = ev[-1]['key']
      if rng.random() < 0.35:
        e['ckpt'] = 1
      ev.append(e)
    prog['events'] = ev
    return prog

  # ----------------------------------------------------------------- set-up
  def table(self, prog):
    d = prog['d']
    rs = np.random.RandomState(prog['table'])
    if prog['draws'] == 'quadrature':
      # equal weights; integrates polynomials of degree 5 in each variable
      s = np.sqrt(3.0)
      grid = np.array(list(itertools.product([0, 0, 0, 0, s, -s], repeat=d)))
      grid = grid[rs.permutation(len(grid))]
      return np.tile(grid, (SIZE // len(grid) + 1, 1))
    if prog['kind'] == 'bernoulli':
      return rs.rand(SIZE, d) * 0.998 + 0.001
    e = rs.randn(SIZE, d)
    if prog['draws'] == 'tails':
      far = rs.rand(SIZE, d) < 0.06
      e = np.where(far, np.sign(e) * rs.choice([5.0, 7.0], size=e.shape), e)
      e[rs.rand(SIZE) < 0.05] = 0.0       # exactly at the mean
      dup = np.flatnonzero(rs.rand(SIZE) < 0.15)
      e[dup] = e[(dup - 1) % SIZE]        # the same draw again
    return np.round(e * 256) / 256

  def build(self, prog):
    f = Func(prog['fn'], prog['d'])
    fn = f.jax
    est = {'score': sge.score_function_jacobians,
           'path': sge.pathwise_jacobians,
           'mv': sge.measure_valued_jacobians,
           'mv0': lambda *a: sge.measure_valued_jacobians(*a, coupling=False),
           }[prog['est']]
    if prog['replica']:
      db = outils.multi_normal
    else:
      tab = self.table(prog)
      # a restart reads the same script; quadrature wraps around exactly
      if prog['draws'] == 'quadrature':
        per = 6**prog['d']
        tab = tab[:SIZE // per * per]
        tab = np.concatenate([tab, tab])[:SIZE + 2 * per]
      db = scripted(tab, prog['kind'])
    if prog['cv'] == 'delta':
      mk = cv.control_delta_method
    elif prog['cv'] == 'mavg':
      mk = lambda h: cv.moving_avg_baseline(h, prog['decay'], prog['debias'],
                                            prog['early'])
    else:
      mk = None

    def call(params, key, state):
      if mk is None:
        return est(fn, params, db, key, prog['n']), state
      return cv.control_variates_jacobians(
          fn, mk, est, params, db, key, prog['n'], state,
          estimate_cv_coeffs=prog['coeffs'],
          estimate_cv_coeffs_num_samples=prog['m'])
    if prog['replica']:
      # means over the samples only, so that rows need not be kept
      self.go = jax.jit(jax.vmap(lambda key, p, s: [
          jnp.mean(q, axis=0) for q in call(p, key, s)[0]], (0, None, None)))
    return f, call, jax.jit(call)

  def draws(self, prog, at, n):
    """Rows of the script as seen from a start, in float64."""
    tab = self.table(prog)
    if prog['draws'] == 'quadrature':
      per = 6**prog['d']
      tab = tab[:SIZE // per * per]
      tab = np.concatenate([tab, tab])[:SIZE + 2 * per]
    tab = np.concatenate([tab, tab])
    return tab[at:at + n]

  # ------------------------------------------------------------------- runs
  def run(self, prog, ctx):
    d = prog['d']
    dt = jnp.float64 if prog['x64'] else jnp.float32
    rs = np.random.RandomState(prog['loc'])
    mu = np.round(rs.randn(d) * 8) / 8
    ls = np.round((prog['lsmin'] + 0.5 * rs.rand(d)) * 8) / 8
    one = prog['kind'] in ('loc', 'bernoulli')
    params = (jnp.asarray(mu, dt),) if one else (
        jnp.asarray(mu, dt), jnp.asarray(ls, dt))
    state = (jnp.zeros([], dt), 0) if prog['cv'] == 'mavg' else None
    if prog['cv'] == 'mavg':
      state = (jnp.zeros([], dt), jnp.zeros([], jnp.int32))
    f, eager, jit = sut(self.build, prog)
    disk = pickle.dumps((trees.to_np(params), trees.to_np(state), 0))
    count, own = 0, []
    for j, e in enumerate(prog['events']):
      x = e.get('f')
      if x:
        ctx.fault({'crash': 'crash', 'repeat': 'speculative_execution',
                   'rival': 'interleaved_instance',
                   'oldkey': 'key_rolled_back'}[x])
      if x == 'crash':
        params, state, count = pickle.loads(disk)
        params, state = jax.tree_util.tree_map(jnp.asarray, (params, state))
        f, eager, jit = sut(self.build, prog)
      if x == 'rival':
        other = dict(prog, fn=dict(prog['fn'], s=prog['fn']['s'] + 1))
        keep = getattr(self, 'go', None)
        sut(sut(self.build, other)[2], params, jax.random.PRNGKey(e['key']),
            state)
        self.go = keep
      key = jax.random.PRNGKey(e['key'])
      go = eager if e['mode'] == 'eager' else jit
      jac, s2 = sut(go, params, key, state)
      if x == 'repeat':
        cmp.need(cmp.same_bits(trees.to_np(sut(go, params, key, state)),
                               trees.to_np((jac, s2))), 'not-repeatable')
      jac = [np.asarray(q) for q in jac]
      if len(jac) != len(params):
        raise Violation('jacobians', f'{len(jac)} for {len(params)} params')
      for q, w in zip(jac, params):
        if q.shape != (prog['n'],) + w.shape or q.dtype != w.dtype:
          raise Violation('jacobians', f'step {j}: {q.dtype}{q.shape} for '
                          f'{prog["n"]} samples of {w.dtype}{w.shape}')
      p64 = [np.asarray(w, np.float64) for w in params]
      s64 = None if state is None else (float(state[0]), int(state[1]))
      n64 = None if s2 is None else (float(s2[0]), int(s2[1]))
      if j == 1 and prog['kind'] == 'normal' and not prog['replica']:
        self.foreign(ctx, params, key)
      ctx.op(prog['est'] + '+' + str(prog['cv']) +
             ('+coeffs' if prog['coeffs'] else ''))
      if prog['replica']:
        if prog['est'] in ('mv', 'mv0') and not e.get('f'):
          self.coupled(prog, ctx, params, p64, key, j)
        self.replicas(prog, ctx, f, eager, params, p64, state, s64, e, j)
      else:
        own += self.rows(prog, ctx, f, p64, s64, n64, np.asarray(key),
                         [q.astype(np.float64) for q in jac], j)
      state = s2
      if prog['cv'] == 'mavg':
        count += 1
        if n64[1] != count:
          raise Violation('count', f'{count} updates, state counts {n64[1]}')
      g = [np.mean(q, axis=0) for q in jac]
      params = tuple(w - prog['lr'] * np.clip(np.nan_to_num(q), -1, 1)
                     for w, q in zip(params, g))
      params = tuple(jnp.asarray(w, dt) for w in params)
      if e.get('ckpt'):
        ctx.op('ckpt_durable')
        disk = pickle.dumps((trees.to_np(params), trees.to_np(state), count))
      ctx.steps += 1
      ctx.sig(e.get('f'), e['mode'], prog['est'], prog['cv'])
      ctx.log(j, [q.tobytes() for q in jac])
    if len(own) >= 3 and all(own):
      raise Violation('biased-coefficients', f'all {len(own)} coefficient '
                      'estimates used the samples they are applied to')

  def jacobian(self, prog, h, x, p64):
    """Per-sample rows for function h at samples x."""
    mu = p64[0]
    if prog['kind'] == 'bernoulli':
      return [h.val(x)[:, None] * (x - 1 / (1 + np.exp(-mu)))]
    ls = p64[1] if len(p64) > 1 else np.zeros_like(mu)
    z = (x - mu) / np.exp(ls)
    if prog['est'] == 'score':
      v = h.val(x)[:, None]
      out = [v * z / np.exp(ls), v * (z**2 - 1)]
    else:
      g = h.grad(x)
      out = [g, g * (x - mu)]
    return out[:len(p64)]

  def sample(self, prog, p64, at, n):
    e = self.draws(prog, at, n)
    if prog['kind'] == 'bernoulli':
      return (e < 1 / (1 + np.exp(-p64[0]))).astype(np.float64)
    s = np.exp(p64[1]) if len(p64) > 1 else 1.0
    return p64[0] + s * e

  def rows(self, prog, ctx, f, p64, s64, n64, key, jac, j):
    ctx.check()
    ctx.fault('scripted_' + prog['draws'])
    at = int(np.asarray(start_of(key.astype(np.uint32)), np.int64))
    n, mu = prog['n'], p64[0]
    if prog['kind'] == 'bernoulli' and np.min(np.abs(
        self.draws(prog, 0, SIZE) - 1 / (1 + np.exp(-mu)))) < 1e-5:
      ctx.probe('draw_at_threshold')
      return []
    x = self.sample(prog, p64, at, n)
    want = self.jacobian(prog, f, x, p64)
    size = [np.abs(w) for w in want]
    own = []
    if prog['cv']:
      fx = float(np.mean(f.val(x)))
      if prog['cv'] == 'mavg':
        v = average(s64[0], s64[1], fx, prog)
        tol = (1e-9 if prog['x64'] else 3e-4) * (
            1 + abs(v) + abs(s64[0]) + np.mean(np.abs(f.val(x))))
        if not abs(v - n64[0]) <= tol:
          raise Violation('baseline', f'step {j}: {n64[0]} instead of {v}')
        h, old = Const(n64[0]), Const(s64[0])
      else:
        h = old = Delta(f, mu)
      hj = self.jacobian(prog, h, x, p64)
      z = x - mu
      if prog['cv'] == 'delta':
        vr = np.exp(2 * p64[1])
        first = np.mean(0.5 * h.t * z**2, axis=0)
        mean = [first, np.zeros_like(mu)]
        exact = [h.g + 0.5 * vr * h.t, vr * np.diag(h.h)]
      else:
        mean = exact = [np.zeros_like(w) for w in p64]
      for k in range(len(p64)):
        b = hj[k] + mean[k] - exact[k]
        c = 1.0
        size[k] = size[k] + np.abs(hj[k]) + np.abs(mean[k]) + np.abs(exact[k])
        if prog['coeffs']:
          c, mine = self.coefficient(prog, ctx, old, f, p64, at, want[k], b,
                                     jac[k], k, j, size[k])
          own += mine
        want[k] = want[k] - c * b
    eps = 1e-10 if prog['x64'] else 2e-5
    for k in range(len(p64)):
      top = np.max(size[k], axis=0)
      bad = np.abs(jac[k] - want[k]) > eps * (size[k] + top) + eps
      if np.any(bad) or not np.all(np.isfinite(jac[k])):
        i = int(np.argmax(np.abs(jac[k] - want[k]).max(-1)))
        raise Violation('wrong-rows', f'step {j}, params[{k}], sample {i}: '
                        f'{jac[k][i]} instead of {want[k][i]}')
    if prog['draws'] == 'quadrature':
      fac = 1.0
      if prog['cv'] == 'mavg' and prog['est'] == 'score':
        fac = None  # the baseline contains the samples themselves
      if fac:
        true = f.true_grads(*p64)
        for k in range(2):
          ctx.probe('exact_expectation')
          tol = 20 * eps * (1 + np.max(size[k]))
          if not np.all(np.abs(jac[k].mean(0) - true[k]) <= tol):
            raise Violation('biased', f'step {j}, params[{k}]: mean of an '
                            f'exact quadrature {jac[k].mean(0)} instead of '
                            f'{true[k]}')
    return own

  def coefficient(self, prog, ctx, h, f, p64, at, a, b, got, k, j, size):
    """The coefficient used, and whether it is a documented one."""
    ctx.probe('coefficient')
    m, d = prog['m'], prog['d']
    # least squares: rows = a - c * b
    bb = float(np.sum(b * b))
    scale = float(np.max(size)) + 1e-9
    x = self.sample(prog, p64, 0, SIZE + m)
    jf = self.jacobian(prog, f, x, p64)[k]
    jh = self.jacobian(prog, h, x, p64)[k]
    win = lambda y: np.lib.stride_tricks.sliding_window_view(y, m, axis=0)
    wf, wh = win(jf), win(jh)  # start, d, m
    df = wf - wf.mean(-1, keepdims=True)
    dh = wh - wh.mean(-1, keepdims=True)
    cs = (df * dh).mean(-1).sum(-1) / ((dh**2).mean(-1).sum(-1) + 1e-3)
    cs = cs[:SIZE]
    if bb == 0:
      return 0.0, []
    c = float(np.sum((a - got) * b) / bb)
    if bb < (1e-3 * scale)**2:
      return c, []  # too small to tell the coefficient
    tol = (1e-7 if prog['x64'] else 3e-3) * (1 + abs(c))
    tol += (1e-10 if prog['x64'] else 1e-4) * scale / np.sqrt(bb)
    near = np.flatnonzero(np.abs(cs - c) <= tol)
    if not len(near):
      raise Violation('coefficient', f'step {j}, params[{k}]: {c} is not the '
                      'coefficient of any window of samples; nearest '
                      f'{cs[np.argmin(np.abs(cs - c))]}')
    mine = []
    if m > 1 and np.ptp(cs) > 50 * tol and len(near) < 8:
      mine = [bool(abs(cs[at] - c) <= tol)]
    return c, mine

  def foreign(self, ctx, params, key):
    """A distribution the estimator does not support has to be refused."""
    ctx.probe('foreign_distribution')
    build = lambda *p: outils.multi_normal(*p)
    try:
      sge.measure_valued_jacobians(jnp.sum, params, build, key, 2)
    except ValueError:
      return
    except Exception as e:  # pylint: disable=broad-except
      raise Violation('foreign', f'{type(e).__name__} instead of ValueError')
    raise Violation('foreign', 'an unsupported distribution was accepted')

  def coupled(self, prog, ctx, params, p64, key, j):
    """Rows for the distance to the mean, which coupling makes one-sided."""
    f = lambda x: jnp.sum(jnp.abs(x - params[0]))
    kw = {} if prog['est'] == 'mv' else dict(coupling=False)
    a, b = [np.asarray(q, np.float64) for q in sut(
        sge.measure_valued_jacobians, f, params, outils.multi_normal, key, 160,
        **kw)]
    ctx.probe('coupling')
    eps = 1e-3 * (1 + np.max(np.abs(p64[0])))
    # the same distance to both sides; a part of the distance
    one = [bool(np.all(np.abs(a) < eps)), bool(np.all(b > -eps))]
    want = prog['est'] == 'mv'
    for k in range(2):
      if one[k] != want:
        raise Violation('coupling', f'step {j}, params[{k}]: samples are '
                        f'{"not " if want else ""}coupled')

  def replicas(self, prog, ctx, f, call, params, p64, state, s64, e, j):
    ctx.check()
    ctx.fault('independent_keys')
    true = f.true_grads(*p64)
    if prog['cv'] == 'mavg' and prog['est'] == 'score':
      fac = 1 - share(s64[1], prog) / prog['n']
      true = [t * fac for t in true]
    go = self.go

    def test(tag, size):
      keys = jax.vmap(lambda i: jax.random.fold_in(jax.random.PRNGKey(
          e['key'] + tag), i))(jnp.arange(size))
      out = [np.asarray(q, np.float64) for q in sut(go, keys, params, state)]
      res = []
      for q, t in zip(out, true):
        if not np.all(np.isfinite(q)):
          raise Violation('not-finite', f'step {j}')
        se = q.std(axis=0) / np.sqrt(size)
        dev = q.mean(axis=0) - t
        eps = (1e-9 if prog['x64'] else 1e-4) * (
            np.abs(t) + np.abs(q).mean(0) + 1e-3)
        res.append(np.where(np.abs(dev) > eps, dev / (se + eps), 0.0))
      return res, [q.mean(axis=0) for q in out]
    first, _ = test(1, 4096)
    ctx.steps += 4096
    if max(np.max(np.abs(r)) for r in first) < 5:
      return
    ctx.probe('second_look')
    second, mean = test(2, 16384)
    for k, (a, b) in enumerate(zip(first, second)):
      bad = (np.abs(a) >= 5) & (np.abs(b) >= 6) & (a * b > 0)
      if np.any(bad):
        raise Violation('biased', f'step {j}, params[{k}]: mean over 16384 '
                        f'keys {mean[k]} instead of {true[k]}, off by '
                        f'{np.max(np.abs(b[bad])):.1f} standard errors (twice)')
