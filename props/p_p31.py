"""P31: training makes progress again once the faults stop (closed loop)."""
import math
import pickle

from sim.boot import np, jnp, jax, optax
from sim.base import Violation, wchoice
from sim import trees, zoo, cmp
from sim.engine import Process, sut
from props.common import Prop, register, _chunks_removed


def optimizer(rng):
  """(expression, step length, memory in steps, kind) with sane settings."""
  n = rng.choice(['sgd', 'sgd', 'adam', 'adam', 'adamw', 'adabelief',
                  'adagrad', 'rmsprop', 'lamb', 'fromage', 'radam', 'sm3',
                  'yogi', 'noisy_sgd'])
  b2 = rng.choice([0.9, 0.95, 0.8])
  b1 = rng.choice([0.9, 0.5, 0.8])
  lr = rng.choice([0.05, 0.1])
  kw = dict(learning_rate=lr)
  mem = 1 / (1 - b2)
  if n == 'sgd':
    kw.update(zoo._opt_kw(rng, momentum=[0.9, 0.5], nesterov=[False, True]))
    mem = 10
  elif n == 'noisy_sgd':
    kw.update(eta=0.01, gamma=0.55, seed=rng.randrange(100))
    mem = 10
  elif n in ('adam', 'adamw', 'adabelief', 'lamb', 'radam', 'yogi'):
    kw.update(b1=b1, b2=b2)
    if n == 'adamw':
      kw.update(weight_decay=1e-3)
    if n == 'lamb':
      kw.update(weight_decay=0.0)
    if n in ('yogi',):
      kw.update(eps=1e-3)
  elif n == 'rmsprop':
    kw.update(decay=b2, eps=1e-4, **zoo._opt_kw(
        rng, momentum=[0.5, 0.9], initial_scale=[0.0, 1.0]))
  elif n == 'adagrad':
    kw.update(learning_rate=1.0)
  elif n == 'sm3':
    kw.update(learning_rate=1.0, momentum=rng.choice([0.0, 0.5]))
  elif n == 'fromage':
    kw.update(learning_rate=0.05)
  return [n, kw], mem


RELATIVE = ('lamb', 'fromage')


@register
class P31(Prop):
  id = 'P31'
  quick = 480
  method = ('closed loop: workers compute gradients of a convex loss at the '
            'current or stale parameters; faults for a while, then progress '
            'to the optimum required within a bounded number of steps')
  note = ('sampled convex quadratics, optimizers with ordinary '
          'hyperparameters, fault periods; the bound has a safety factor')
  rule = 'at least two faults and the recovery observed'
  stubs = ['gradient workers (compute real gradients of a quadratic)',
           'network, disk, clock (simulated)']

  def generate(self, rng, i, tier):
    base, mem = optimizer(rng)
    slow = 1
    guard = rng.choice([None, None, 'apply_if_finite', 'zero_nans'])
    name = base[0]
    tx = base
    if guard == 'zero_nans':
      tx = ['chain', [['zero_nans', {}], tx]]
    clip = rng.random() < 0.35
    if clip:
      tx = ['chain', [rng.choice([['clip', {'max_delta': 1.0}],
                                  ['clip_by_global_norm', {'max_norm': 4.0}]]),
                      tx]]
      if guard == 'zero_nans':
        tx = ['chain', [['zero_nans', {}]] + tx[1][:1] + [base]]
    w = rng.random()
    if w < 0.1:
      k = rng.randint(2, 4)
      tx, slow = ['multisteps', tx, k, True], k
    elif w < 0.3:
      tx = ['flatten', tx]
    elif w < 0.4:
      tx = ['masked', tx, ['ndim', 99]]
    elif w < 0.5 and tx is base and name in zoo.INJECTABLE:
      tx = ['inject', name, dict(base[1])]
    elif w < 0.6 and name in ('sgd', 'adam') and guard is None:
      k = rng.randint(2, 5)
      tx, slow = ['lookahead', tx, k, 0.5, rng.random() < 0.5], 3
    if guard == 'apply_if_finite':
      tx = ['apply_if_finite', tx, 10**6]
    tree = trees.gen_tree(rng, ('f32',), max_leaves=4,
                          shapes=[(), (1,), (3,), (2, 3), (4, 4)],
                          inits=('n',), scale_e=(0, 1))
    steps = rng.randint(5, 60)
    keep = name in ('adagrad', 'sm3') and not clip  # never forget a spike
    faults = [(2, 'lost'), (2, 'stale'), (1, 'dup'), (1, 'flip'),
              (1, 'stuck')]
    if not keep:
      faults.append((2, 'spike'))
    if guard:
      faults += [(3, 'nan')]
    if guard == 'apply_if_finite':
      faults += [(1, 'inf')]
    mild = [f for f in faults if f[1] in ('lost', 'dup', 'nan', 'inf')]
    if rng.random() < 0.4:  # few kinds, that do not drive it ever further away
      faults = [(1, f[1]) for f in rng.sample(mild, min(len(mild),
                                                        rng.choice([1, 2])))]
    if rng.random() < 0.15:
      faults = mild
      steps = rng.choice([120, 200, 300])
    rate = rng.choice([0.1, 0.3, 0.6, 0.95])
    log = []
    for t in range(steps):
      e = dict(s=rng.randrange(1 << 20))
      if rng.random() < rate:
        e['f'] = wchoice(rng, faults)
        if e['f'] == 'spike':
          e['x'] = rng.choice([16, 64, 256])
        elif e['f'] == 'stale':
          e['x'] = rng.randint(1, 5)
      log.append(e)
    ops, up, ck = [], True, 0
    for t in range(steps):
      r = rng.random()
      if r < min(0.06, 3 / steps):
        ops.append(['crash', t])
      elif r < 0.2:
        ops.append(['ckpt', t, rng.choice(['ok', 'ok', 'ok', 'torn'])])
    return dict(tree=tree, tx=tx, x64=False, log=log, cops=ops, mem=mem,
                slow=slow, base=base, mode='jit', curv=rng.randrange(1 << 20),
                sim_ms=0)

  # -------------------------------------------------------------- execution
  def problem(self, prog):
    spec = prog['tree']
    r = np.random.RandomState(prog['curv'] & 0x7fffffff)
    tm = jax.tree_util.tree_map
    p0 = trees.to_jnp(trees.params_tree(spec))
    d = tm(lambda x: jnp.asarray(r.choice([0.5, 1.0, 2.0], x.shape),
                                 jnp.float32), p0)
    # relative steps do not cross zero: there the signs are right already
    same = prog['base'][0] in RELATIVE

    def target(x):
      sign = r.choice([-1, 1], x.shape)
      if same:
        sign = np.where(np.asarray(x) < 0, -1, 1)
      return jnp.asarray(sign * (1 + r.rand(*x.shape)), jnp.float32)
    t = tm(target, p0)

    def loss(p):
      return sum(0.5 * jnp.sum(a * (x - y)**2) for a, x, y in zip(
          trees.leaves(d), trees.leaves(p), trees.leaves(t)))
    return p0, loss

  def run(self, prog, ctx):
    tx, spec = prog['tx'], prog['tree']
    for n in zoo.names(tx):
      ctx.op('tx_' + n)
    la = zoo.uses_lookahead(tx)
    p0, loss = self.problem(prog)
    grad = jax.grad(loss)
    first = optax.LookaheadParams.init_synced(p0) if la else p0
    fast = (lambda p: p.fast) if la else (lambda p: p)
    slow_of = (lambda p: p.slow) if la else (lambda p: p)
    proc = Process(lambda: zoo.build(tx, spec))

    tm = jax.tree_util.tree_map

    @jax.jit
    def faulty(at, p, s, scale, bad):
      g = tm(lambda x: x * scale, grad(at))
      ls, td = jax.tree_util.tree_flatten(g)
      ls[0] = jnp.where(jnp.isnan(bad) | jnp.isinf(bad), bad, ls[0])
      g = jax.tree_util.tree_unflatten(td, ls)
      u, s = proc.tx.update(g, s, p)
      return optax.apply_updates(p, u), s

    def body(c, _):
      p, s = c
      u, s = proc.tx.update(grad(fast(p)), s, p)
      p = optax.apply_updates(p, u)
      return (p, s), loss(slow_of(p))
    chunk = jax.jit(lambda p, s: jax.lax.scan(body, (p, s), None, length=40))

    p, s = first, sut(proc.tx.init, first)
    disk = []
    past = []
    ops = {}
    for o in prog['cops']:
      ops.setdefault(o[1], []).append(o)
    stuck = None
    t = 0
    done = set()
    worst = float(loss(p0))
    while t < len(prog['log']):
      e = prog['log'][t]
      f = e.get('f')
      at, scale, bad = fast(p), 1.0, 0.0
      if f:
        ctx.fault(f)
      if f == 'lost':
        scale = 0.0
      elif f == 'flip':
        scale = -1.0
      elif f == 'spike':
        scale = float(e['x'])
      elif f == 'stale' and past:
        at = past[-min(e['x'], len(past))]
      elif f == 'stuck':
        stuck = stuck if stuck is not None else fast(p)
        at = stuck
      elif f == 'nan':
        bad = math.nan
      elif f == 'inf':
        bad = math.inf
      if f != 'stuck':
        stuck = None
      past = (past + [fast(p)])[-6:]
      for _ in range(2 if f == 'dup' else 1):
        p, s = sut(faulty, at, p, s, scale, bad)
      ctx.steps += 1
      ctx.sig(t, f)
      t += 1
      for k, o in enumerate(ops.get(t - 1, ())):
        if (t - 1, k) in done:
          continue
        done.add((t - 1, k))
        if o[0] == 'ckpt':
          blob = pickle.dumps((t, trees.to_np(p), trees.to_np(s)))
          if o[2] == 'torn':
            ctx.fault('ckpt_torn')
          else:
            disk.append(blob)
        else:
          ctx.fault('crash')
          past, stuck = [], None
          proc = Process(lambda: zoo.build(tx, spec))
          if disk:
            t, p, s = pickle.loads(disk[-1])
            p, s = trees.to_jnp(p), trees.to_jnp(s)
          else:
            t, p, s = 0, first, sut(proc.tx.init, first)
    ctx.log('healed', trees.digest(p))
    start = float(loss(slow_of(p)))
    ctx.check()
    if not np.isfinite(start):
      raise Violation('not-finite', f'loss {start} after the faults')
    dim = sum(int(np.size(x)) for x in trees.leaves(p0))
    lr = prog['base'][1]['learning_rate']
    goal = self.goal(prog, dim, lr)
    # how far away the faults drove it, in elements of the parameters
    far = max(float(jnp.max(jnp.abs(x))) for x in trees.leaves(slow_of(p)))
    bound = self.bound(prog, far)
    n = 0
    best = start
    while n < bound:
      (p, s), ls = sut(chunk, p, s)
      ls = np.asarray(ls, np.float64)
      ctx.steps += len(ls)
      n += len(ls)
      if not np.isfinite(ls).all():
        raise Violation('not-finite', f'{n} steps after the last fault')
      best = min(best, float(ls.min()))
      if best <= goal:
        break
    ctx.check()
    ctx.probe('recovery_steps', n)
    ctx.log('recovered', n, trees.digest(p))
    self.ratio = n / bound, n
    if best > goal:
      raise Violation('no-progress', f'loss {start:.4g} when the faults '
                      f'stopped, {best:.4g} at best in {n} steps (goal '
                      f'{goal:.3g})')

  def goal(self, prog, dim, lr):
    """Constant steps of length lr orbit the optimum at about that distance."""
    return 0.02 * dim

  def bound(self, prog, far):
    lr = prog['base'][1]['learning_rate']
    name = prog['base'][0]
    b = 400 + 60 * prog['mem'] + 8 * (far + 2) / lr
    if name != 'yogi':
      b /= 2
    return int(b * prog['slow'])

  def nontrivial(self, prog, ctx):
    return sum(ctx.faults.values()) >= 2 and ctx.checks >= 2

  def shrink(self, prog):
    log = prog['log']
    for c in _chunks_removed(prog['cops']):
      yield dict(prog, cops=c)
    n = len(log)
    for m in (0, n // 4, n // 2, n - 1):
      if m < n:
        yield dict(prog, log=log[:m])
    for i, e in enumerate(log):
      if e.get('f'):
        yield dict(prog, log=log[:i] + [{'s': 0}] + log[i + 1:])
    ls = trees.leaf_specs(prog['tree'])
    if len(ls) > 1:
      for l in ls:
        d = trees.drop_leaf(prog['tree'], l[1])
        if d is not None:
          yield dict(prog, tree=d)
