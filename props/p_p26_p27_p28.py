"""Targets, baselines and iterative linear algebra: small stateful parts."""
import pickle

from sim.boot import np, jnp, jax, optax
from optax._src import linear_algebra as la
from optax._src import control_variates as cv
from optax._src import stochastic_gradient_estimators as sge
from optax._src import utils as outils
from sim.base import Violation, wchoice
from sim import trees, cmp
from sim.engine import sut
from props.common import Prop, register, _chunks_removed


def f64(x):
  return np.asarray(x).astype(np.float64)


EPS = {'float32': 1e-6, 'float64': 1e-14, 'bfloat16': 0.01, 'int32': 0,
       'float16': 2e-3}


class EventProp(Prop):
  """A process that handles timed events; programs list them."""

  def shrink_more(self, prog):
    for c in _chunks_removed(prog['events']):
      if c:
        yield dict(prog, events=c)

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 5 and bool(ctx.faults)


def clock(rng, n, stats):
  """Step numbers as an unreliable clock shows them."""
  t, out = rng.choice([0, 0, 1, 5]), []
  if rng.random() < 0.12:  # a long run that was resumed
    t = rng.choice([2**24, 2**25, 2**30, 2**31 - 80]) + rng.randint(1, 9)
  for _ in range(n):
    r = rng.random()
    if r < 0.62:
      t += 1
      f = None
    elif r < 0.72:
      f = 'repeat'
    elif r < 0.84:
      t += rng.randint(2, 40)
      f = 'skip'
    elif r < 0.93:
      t = max(0, t - rng.randint(1, 12))
      f = 'rollback'
    elif r < 0.97:
      t += rng.choice([1000, 2**20])
      f = 'far'
    else:
      t = 0
      f = 'reset'
    t = min(t, 2**31 - 2)
    out.append((t, f))
  return out


@register
class P26(EventProp):
  id = 'P26'
  quick = 500
  method = ('training loop with target networks under clock skips, rollbacks, '
            'lost steps and restarts, against a float64 model of the targets')
  note = 'sampled trees, dtypes, step sizes, periods and clock histories'
  rule = 'five or more steps with a clock or process fault'

  def generate(self, rng, i, tier):
    x64 = rng.random() < 0.25
    dts = rng.choice([('f32',), ('f32', 'bf16'), ('f32', 'f16', 'bf16'),
                      ('bf16',)])
    if x64:
      dts = rng.choice([('f64',), ('f64', 'f32'), ('f64', 'bf16')])
    tree = trees.gen_tree(rng, dts, max_leaves=6)
    udt = rng.choice(['same', 'same', 'f32', 'bf16'] + (
        ['f64'] if x64 else []))
    ev = []
    n = rng.randint(8, 40)
    for t, f in clock(rng, n, None):
      e = dict(t=t, f=f, s=rng.randrange(1 << 24), e=rng.randint(-2, 2),
               mode=rng.choice(['jit', 'jit', 'eager', 'host']),
               tform=rng.choice(['dev', 'dev', 'py', 'np']))
      r = rng.random()
      if r < 0.06:
        e['crash'] = 1
      elif r < 0.2:
        e['ckpt'] = 1
      if rng.random() < 0.15:
        e['lost'] = 1  # no update arrived at this step
      elif rng.random() < 0.06:
        e['extreme'] = rng.choice([127, 127, 120, -100, -60])
      ev.append(e)
    return dict(tree=tree, x64=x64, udt=udt, events=ev,
                period=rng.choice([1, 2, 3, 5, 7, 10]),
                size=rng.choice([0.5, 0.1, 0.01, 1.0, 0.0, 0.875,
                                 round(rng.random(), 3)]),
                sform=rng.choice(['py', 'py', 'var']), ints=rng.random() < 0.2)

  def run(self, prog, ctx):
    dt = None if prog['udt'] == 'same' else trees.DT[prog['udt']]
    spec = prog['tree']
    p = trees.to_jnp(trees.params_tree(spec))
    if prog['ints']:  # counters among the parameters
      p = {'net': p, 'n': jnp.asarray([3, -4], jnp.int32),
           'm': jnp.asarray(7, jnp.int32)}

    def upd(e):
      if e.get('lost'):
        u = trees.grads_tree(spec, dict(k='z'), dt)
      else:
        u = trees.grads_tree(spec, dict(k='n', s=e['s'], e=e['e']), dt)
      if prog['ints']:
        u = {'net': u, 'n': np.asarray([1, e['s'] % 5], np.int32),
             'm': np.asarray(-2, np.int32)}
      return u
    size, period = prog['size'], prog['period']

    def step(p, inc, per, u, t):
      p2 = optax.apply_updates(p, u)
      return (p2, optax.incremental_update(p2, inc, self.sz(prog)),
              optax.periodic_update(p2, per, t, period))
    jstep = jax.jit(step)
    inc, per = p, p
    disk = pickle.dumps(trees.to_np((p, inc, per)))
    for e in prog['events']:
      if e['f']:
        ctx.fault('clock_' + e['f'])
      if e.get('lost'):
        ctx.fault('grad_lost')
      if e.get('extreme'):
        self.extreme(prog, e, ctx)
      if e.get('crash'):
        ctx.fault('crash')
        p, inc, per = pickle.loads(disk)
        if e['mode'] != 'host':
          p, inc, per = trees.to_jnp((p, inc, per))
        jstep = jax.jit(step)
      u = upd(e)
      if e['mode'] != 'host':
        u = trees.to_jnp(u)
      t = {'dev': lambda x: jnp.asarray(x, jnp.int32), 'py': int,
           'np': np.int32}[e['tform']](e['t'])
      before = trees.to_np((p, inc, per))
      f = jstep if e['mode'] in ('jit', 'host') else step
      p2, inc2, per2 = sut(f, p, inc, per, u, t)
      cmp.need(cmp.same_bits(trees.to_np((p, inc, per)), before), 'mutated')
      self.judge(prog, e, before, trees.to_np(u), p2, inc2, per2, ctx)
      # promotions of the target are the caller's to undo: keep its dtypes
      inc2 = jax.tree_util.tree_map(
          lambda a, b: jnp.asarray(a, b.dtype), inc2, p)
      p, inc, per = p2, inc2, per2
      if e.get('ckpt'):
        ctx.op('ckpt_durable')
        disk = pickle.dumps(trees.to_np((p, inc, per)))
      ctx.steps += 1
      ctx.sig(e['t'], e['f'], e['mode'], e.get('crash'))
      ctx.log(e['t'], trees.digest(p), trees.digest(inc), trees.digest(per))

  def extreme(self, prog, e, ctx):
    """Averages of values near the ends of the range of the type."""
    ctx.probe('extreme_values')
    dt = 'float32' if e['s'] % 2 else 'bfloat16'
    r = np.random.RandomState(e['s'])
    s = prog['size']
    new, old = (np.asarray(r.choice([-1, 1], 6) * r.choice(
        [1.0, 1.5, 1.75], 6) * 2.0**e['extreme'], trees.DT[
            'f32' if dt == 'float32' else 'bf16']) for _ in range(2))
    # XLA turns a/2 + b/2 into (a+b)/2, which may overflow for equal signs
    old = np.where(np.sign(f64(new)) == np.sign(f64(old)), -old, old).astype(
        old.dtype)
    f = lambda a, b: optax.incremental_update(a, b, self.sz(prog))
    got = sut(jax.jit(f) if e['mode'] in ('jit', 'host') else f,
              {'a': jnp.asarray(new)}, {'a': jnp.asarray(old)})['a']
    want = s * f64(new) + (1 - s) * f64(old)
    tol = 4 * EPS[dt] * (np.abs(f64(new)) + np.abs(f64(old)))
    ctx.check()
    if not (np.abs(f64(got) - want) <= tol).all():
      raise Violation('incremental', f'{cmp._show(got)} instead of '
                      f'{cmp._show(want)}: {s} of {cmp._show(new)} with '
                      f'{cmp._show(old)}')

  def sz(self, prog):
    if prog['sform'] == 'var':
      return jnp.asarray(prog['size'], jnp.float32)
    return prog['size']

  def judge(self, prog, e, before, u, p2, inc2, per2, ctx):
    ctx.check()
    p, inc, per = before
    where = f'clock {e["t"]} ({e["mode"]})'
    for x in (p2, inc2, per2):
      if trees.structure(x) != trees.structure(p):
        raise Violation('structure', f'{where}: {trees.structure(x)}')
    rows = zip(*map(trees.leaves, (p, u, p2, inc, inc2, per, per2)))
    s = prog['size']
    for n, (a, b, c, i, j, q, r) in enumerate(rows):
      c, j, r = map(np.asarray, (c, j, r))
      dt = str(a.dtype)
      if c.dtype != a.dtype or c.shape != a.shape:
        raise Violation('dtype', f'{where}, leaf {n}: parameters '
                        f'{a.dtype}{a.shape} became {c.dtype}{c.shape}')
      low = max(EPS[dt], EPS[str(b.dtype)] if prog['udt'] == 'same' or
                EPS[str(b.dtype)] < EPS[dt] else 0)
      # the sum is exact up to rounding to the wider, then the own dtype
      want = f64(a) + f64(b)
      tol = 2 * EPS[dt] * (np.abs(f64(a)) + np.abs(f64(b)))
      if (np.abs(f64(c) - want) > tol).any():
        raise Violation('apply-updates', f'{where}, leaf {n}: {cmp._show(c)} '
                        f'instead of {cmp._show(want)}')
      if dt == 'int32':
        if not (f64(c) == want).all():
          raise Violation('apply-updates', f'{where}, leaf {n}: {c}')
      else:
        want = s * f64(c) + (1 - s) * f64(i)
        ee = max(EPS[dt], 1e-6 if prog['sform'] == 'var' else 0)
        tol = 3 * ee * (np.abs(f64(c)) + np.abs(f64(i)))
        if (np.abs(f64(j) - want) > tol).any():
          raise Violation('incremental', f'{where}, leaf {n}: '
                          f'{cmp._show(j)} instead of {cmp._show(want)}')
        if prog['sform'] == 'py' and j.dtype != a.dtype:
          raise Violation('dtype', f'{where}, leaf {n}: target of {a.dtype} '
                          f'became {j.dtype}')
      sync = e['t'] % prog['period'] == 0
      if sync:
        ctx.probe('periodic_sync')
      cmp.need(cmp.same_bits(r, c if sync else q), 'periodic',
               f'{where}, period {prog["period"]}, leaf {n}')


FUNCS = {
    'const': lambda x: jnp.sum(x * 0.0) + 2.5,
    'sq': lambda x: jnp.sum(x**2),
    'lin': lambda x: jnp.sum(3.0 * x) - 1.0,
    'cos': lambda x: jnp.sum(jnp.cos(x)),
    'mix': lambda x: jnp.sum(x) * jnp.max(x),
}
NPF = {
    'const': lambda x: 2.5,
    'sq': lambda x: np.sum(x**2),
    'lin': lambda x: np.sum(3.0 * x) - 1.0,
    'cos': lambda x: np.sum(np.cos(x)),
    'mix': lambda x: np.sum(x) * np.max(x),
}


@register
class P27(EventProp):
  id = 'P27'
  quick = 260
  method = ('sample streams with outliers, duplicates and repeated calls, '
            'restarts from saved states; float64 weighted average as oracle')
  note = 'sampled decays, options and histories of up to 300 updates'
  rule = 'five or more updates with an outlier, repetition or restart'

  def generate(self, rng, i, tier):
    long = rng.random() < 0.1
    n = rng.choice([100, 300]) if long else rng.randint(6, 40)
    ev = []
    for _ in range(n):
      e = dict(s=rng.randrange(1 << 24), m=rng.choice([1, 3, 8, 8, 2, 17, 33]),
               mode='jit' if long or rng.random() < 0.75 else 'eager')
      r = rng.random()
      if r < 0.08:
        e['f'], e['scale'] = 'outlier', 2.0**rng.choice([6, 10])
      elif r < 0.14:
        e['f'] = 'repeat'   # the same call once more, result dropped
      elif r < 0.2:
        e['f'] = 'crash'
      elif r < 0.26:
        e['f'] = 'rival'    # another instance works in between
      if rng.random() < 0.2:
        e['ckpt'] = 1
      ev.append(e)
    jac = not long and rng.random() < 0.3
    prog = dict(x64=rng.random() < 0.6, events=ev[:14] if jac else ev,
                fn=rng.choice(list(FUNCS)), dim=rng.choice([1, 2, 4]),
                decay=rng.choice([0.99, 0.9, 0.5, 0.0, 0.999, round(
                    rng.uniform(0.05, 0.98), 3)]),
                debias=rng.random() < 0.6, early=rng.random() < 0.5,
                jac=jac, coeffs=rng.random() < 0.3,
                start=rng.choice(['dev', 'dev', 'py']))
    return prog

  def build(self, prog):
    c = cv.moving_avg_baseline(FUNCS[prog['fn']], prog['decay'],
                               prog['debias'], prog['early'])
    upd = c[2]
    if not prog['jac']:
      return c, upd, jax.jit(lambda x, s: upd(None, x, s))
    mk = lambda f: cv.moving_avg_baseline(f, prog['decay'], prog['debias'],
                                          prog['early'])
    n = prog['events'][0]['m']

    def jacs(params, key, s, num):
      return cv.control_variates_jacobians(
          FUNCS[prog['fn']], mk, sge.score_function_jacobians, params,
          outils.multi_normal, key, num, s,
          estimate_cv_coeffs=prog['coeffs'],
          estimate_cv_coeffs_num_samples=5)
    return c, jacs, jax.jit(jacs, static_argnums=3)

  def run(self, prog, ctx):
    d = prog['dim']
    c, eager, jit = sut(self.build, prog)
    dt = jnp.float64 if prog['x64'] else jnp.float32
    params = (jnp.asarray(np.arange(d) * 0.25 - 0.1, dt),
              jnp.asarray(np.full(d, -0.5), dt))
    if prog['start'] == 'py':
      state = (0.0, 0)
    else:
      state = (jnp.zeros([], dt), 0 if prog['jac'] else jnp.zeros(
          [], jnp.int32))
    disk = pickle.dumps((state, []))
    means = []  # observed means since the beginning, as of the state

    def call(e, state, c, fns):
      rs = np.random.RandomState(e['s'])
      if prog['jac']:
        key = jax.random.PRNGKey(e['s'])
        jac, s2 = sut(fns[0] if e['mode'] == 'eager' else fns[1], params, key,
                      state, prog['events'][0]['m'])
        x = outils.multi_normal(*params).sample(
            (prog['events'][0]['m'],), seed=key)
        return jac, s2, np.asarray(x, np.float64)
      x = np.round(rs.randn(e['m'], d) * 64) / 64 * e.get('scale', 1.0)
      if e['mode'] == 'eager':
        s2 = sut(c[2], params, jnp.asarray(x, dt), state)
      else:
        s2 = sut(fns[1], jnp.asarray(x, dt), state)
      return None, s2, x
    for e in prog['events']:
      f = e.get('f')
      if f:
        ctx.fault({'outlier': 'outlier', 'repeat': 'speculative_execution',
                   'crash': 'crash', 'rival': 'interleaved_instance'}[f])
      if f == 'crash':
        state, means = pickle.loads(disk)
        state = tuple(jnp.asarray(x) for x in state)
        c, eager, jit = sut(self.build, prog)
      before = [np.asarray(x).tobytes() for x in state]
      if f == 'repeat':
        first = call(e, state, c, (eager, jit))
      if f == 'rival':
        other = sut(self.build, prog)
        call(dict(e, s=e['s'] + 1, mode='eager'), (jnp.asarray(
            7.0, dt), 5), other[0], other[1:])
        np.random.seed(e['s'] & 0xffff)
      jac, s2, x = call(e, state, c, (eager, jit))
      if [np.asarray(x).tobytes() for x in state] != before:
        raise Violation('mutated', 'the state passed in changed')
      if f == 'repeat':
        cmp.need(cmp.same_bits(trees.to_np(first[:2]),
                               trees.to_np((jac, s2))), 'not-repeatable')
      m = float(np.mean([NPF[prog['fn']](r) for r in x]))
      means = means + [m]
      self.judge(prog, ctx, state, s2, means)
      if prog['jac']:
        for q, w in zip(jac, params):
          if np.shape(q) != (prog['events'][0]['m'],) + w.shape or \
              cmp.finite(np.asarray(q)):
            raise Violation('jacobians', f'{np.shape(q)}')
      state = s2
      v0 = sut(c[0], params, jnp.zeros([d]), state)
      v1 = sut(c[1], params, state)
      if np.asarray(v0).tobytes() != np.asarray(state[0]).tobytes() or \
          np.asarray(v1).tobytes() != np.asarray(state[0]).tobytes():
        raise Violation('value', f'{v0} and {v1}, the state holds {state[0]}')
      if e.get('ckpt'):
        ctx.op('ckpt_durable')
        disk = pickle.dumps((trees.to_np(state), means))
      ctx.steps += 1
      ctx.sig(f, e['mode'])
      ctx.log(np.asarray(state[0]).tobytes())

  def judge(self, prog, ctx, s, s2, means):
    ctx.check()
    n = len(means)
    if int(s2[1]) != n:
      raise Violation('count', f'{n} updates, the state counts {s2[1]}')
    v, d = 0.0, prog['decay']
    for i, m in enumerate(means):  # the documented average
      di = min(d, (1 + i) / (10 + i)) if prog['early'] else d
      if prog['debias']:
        v = v * (1 - di**i)
      v = di * v + (1 - di) * m
      if prog['debias']:
        v /= 1 - di**(i + 1)
    big = max(abs(x) for x in means) + 1e-6
    tol = (1e-7 if prog['x64'] else 5e-6 / (1 - d if prog['debias'] else 1)
           ) * big
    tol = max(tol, 1e-6 * big)
    got = float(s2[0])
    lo, hi = min(means), max(means)
    if not prog['debias']:
      lo, hi = min(lo, 0.0), max(hi, 0.0)
    if not lo - tol <= got <= hi + tol:
      raise Violation('range', f'after {n} updates {got} is outside of '
                      f'[{lo}, {hi}]')
    if not abs(got - v) <= tol:
      raise Violation('wrong-average', f'after {n} updates {got} instead of '
                      f'{v}')


@register
class P28(EventProp):
  id = 'P28'
  quick = 240
  method = ('calls interleaved with code that reseeds and drains the global '
            'random generator and with restarts; defining equations as oracle')
  note = ('sampled well-conditioned matrices, p up to 12 and generator '
          'states; a start orthogonal to the eigenvector by accident is '
          'excused once in seven')
  rule = 'calls between disturbances of the global random generator'

  def generate(self, rng, i, tier):
    ev = []
    for _ in range(rng.randint(4, 10)):
      e = dict(what=wchoice(rng, [(1, 'power'), (1, 'root')]),
               n=rng.choice([1, 2, 3, 4, 5, 8, 12]), s=rng.randrange(1 << 24),
               scale=rng.choice([1.0, 1.0, 0.25, 8.0, 64.0]),
               mode=rng.choice(['eager', 'jit']))
      e['p'] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12])
      e['top'] = rng.choice(['gap', 'gap', 'rank1', 'wide'])
      e['basis'] = rng.choice(['random', 'random', 'axes', 'contrasts'])
      e['dist'] = rng.choice(['reseed', 'draw', 'reseed', 'none', 'legacy'])
      e['d'] = rng.choice([0, 1, 2, 42, rng.randrange(1 << 20)])
      if e['what'] == 'root':
        e['ridge'] = rng.choice([None, None, 0.5, 0.125, 0.01])
        e['rank'] = rng.choice([0, 0, 1, 2]) if (e['ridge'] or 0) > 0.1 else 0
      ev.append(e)
    return dict(x64=False, events=ev)

  def disturb(self, e, ctx):
    if e['dist'] == 'none':
      return
    ctx.fault('global_rng_' + e['dist'])
    if e['dist'] == 'reseed':
      np.random.seed(e['d'] % (1 << 31))
    elif e['dist'] == 'draw':
      np.random.rand(e['d'] % 700)
    else:
      np.random.seed(e['d'] % 100)
      np.random.randn(3)  # leaves half a pair cached

  def matrix(self, e):
    rs = np.random.RandomState(e['s'])
    n = e['n']
    q = np.linalg.qr(rs.randn(n, n))[0]
    basis = e.get('basis', 'random')
    if basis == 'axes':  # a diagonal matrix
      q = np.eye(n)[rs.permutation(n)] * rs.choice([-1.0, 1.0], size=n)
    elif basis == 'contrasts' and n > 1:
      # sums and differences, as of a Laplacian: leading vectors whose
      # elements cancel, next to one whose elements are all equal
      h = np.eye(n)
      for i in range(1, n):
        h[i, :i], h[i, i], h[i, i + 1:] = 1.0, -i, 0.0
      h[0] = 1.0
      h /= np.linalg.norm(h, axis=1, keepdims=True)
      q = h[np.roll(np.arange(n), -1 - rs.randint(n))].T
    if e['what'] == 'power':
      w = np.abs(rs.rand(n)) * (0.5 if e['top'] != 'wide' else 0.05)
      if e['top'] == 'rank1':
        w[:] = 0
      w[0] = 1.0
    else:
      w = 10.0**rs.uniform(-1.5, 0, size=n)
      w[:min(e.get('rank', 0), n - 1)] = 0  # a singular matrix
    w = w * e['scale']
    a = (q * w) @ q.T
    return (a + a.T) / 2, w, q

  def run(self, prog, ctx):
    self.cache = {}
    np.random.seed(12345)
    for e in prog['events']:
      self.disturb(e, ctx)
      a, w, q = self.matrix(e)
      damped = a + (e.get('ridge') or 1e-6) * np.max(w) * np.eye(e['n'])
      if e['what'] == 'root' and not self.converges(damped, e['p']):
        ctx.probe('gives_up_as_documented')
        continue
      bad = self.once(e, a, w, q, e['mode'])
      ctx.check()
      if bad:
        # an accidental start has to be rare; everything else repeats
        again = 0
        for k in range(6):
          np.random.seed(1000 + 17 * k)
          again += self.once(e, a, w, q, 'eager') is not None
        if again:
          raise Violation('wrong-' + e['what'], f'{bad}, also in {again} of 6 '
                          'other states of the random generator')
        ctx.probe('accidental_start')
      ctx.steps += 1
      ctx.op(e['what'])
      ctx.op('basis_' + e.get('basis', 'random'))
      ctx.sig(e['what'], e['n'], e['p'], e['dist'])
      ctx.log(e['what'], bad)

  @staticmethod
  def converges(a, p):
    """Whether the documented iteration stays clear of its stopping rule.

    It gives up, and says so in its second result, when the largest element
    of the error grows by a factor of 1.2.
    """
    n = a.shape[0]
    if n == 1:
      return True
    eye = np.eye(n)
    m = a * (1 + p) / (2 * np.linalg.norm(a))
    err = np.max(np.abs(m - eye))
    for _ in range(100):
      m = np.linalg.matrix_power((1 + 1 / p) * eye - m / p, p) @ m
      new = np.max(np.abs(m - eye))
      if new < 1e-4:
        return True
      if new > 1.12 * err:
        return False
      err = new
    return False

  def once(self, e, a, w, q, mode):
    x = jnp.asarray(a, jnp.float32)
    if e['what'] == 'power':
      f = la.power_iteration
      if mode == 'jit':
        f = jax.jit(f)
      v, s = sut(f, x)
      v, s = f64(v), float(s)
      if v.shape != (e['n'],):
        raise Violation('shape', f'{v.shape}')
      if not abs(s - w[0]) <= 2e-4 * w[0]:
        return f'eigenvalue {s} instead of {w[0]}'
      if not abs(np.linalg.norm(v) - 1) <= 1e-4:
        return f'eigenvector of norm {np.linalg.norm(v)}'
      if not abs(abs(v @ q[:, 0]) - 1) <= 1e-3:
        return f'vector {v[:4]} instead of {q[:4, 0]}'
      return None
    kw = dict(ridge_epsilon=e['ridge']) if e.get('ridge') else {}
    f = lambda m: la.matrix_inverse_pth_root(m, e['p'], **kw)
    if mode == 'jit':
      f = jax.jit(f)
    h, err = sut(f, x)
    h = f64(h)
    if h.shape != a.shape:
      raise Violation('shape', f'root of shape {h.shape} of a matrix of shape '
                      f'{a.shape}')
    a = a + (e.get('ridge') or 1e-6) * np.max(w) * np.eye(e['n'])
    r = np.eye(e['n'])
    for _ in range(e['p']):
      r = r @ h
    r = r @ a
    d = np.max(np.abs(r - np.eye(e['n'])))
    if not d <= 2e-2:
      return f'p={e["p"]}: root to the p times the matrix is off by {d}'
    return None
