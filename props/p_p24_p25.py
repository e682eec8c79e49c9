"""Noise and private aggregation."""
from sim.boot import np, jnp, jax, optax
from sim.base import Violation, wchoice
from sim import trees, zoo, cmp, schedmodel
from sim.engine import World, Oracle, Process, sut
from sim.noise import NoiseLab
from props.common import Prop, register

BIG = [(64,), (8, 8), (30,), (5, 3, 4), (16, 16), (100,), (2, 50), (7,),
       (300,), (33, 20)]


def f64(x):
  return np.asarray(x).astype(np.float64)


def lr_at(v, pos):
  return schedmodel.value(v, pos) if isinstance(v, list) else v


def with_count(s, count):
  """The state with the noise counter replaced, None if there is none."""
  if isinstance(s, tuple) and hasattr(s, '_fields'):
    if 'count' in s._fields and 'rng_key' in s._fields:
      return s._replace(count=jnp.asarray(count, s.count.dtype))
  if isinstance(s, tuple):
    parts = [with_count(x, count) for x in s]
    if any(x is not None for x in parts):
      parts = [b if a is None else a for a, b in zip(parts, s)]
      return type(s)(*parts) if hasattr(s, '_fields') else tuple(parts)
  return None


class NoiseProp(Prop):
  rule = 'noise of ten or more steps, with a gradient fault or restart'

  def gen_noise_tree(self, rng, dts):
    return trees.gen_tree(rng, dts, max_leaves=4, shapes=rng.choice(
        [BIG, BIG, trees.SHAPES]))

  def knobs(self, rng):
    steps = rng.randint(12, 40) if rng.random() < 0.8 else rng.choice(
        [160, 300])
    return dict(steps=steps, p_crash=0.04, p_ckpt=0.15, p_spike=0.0,
                p_lost=0.1, p_stuck=0.05, chunk=rng.choice([0, 0, 0, 0, 5]),
                p_chunk=0.3)

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 10 and bool(ctx.faults)

  def shrink(self, prog):
    for c in super().shrink(prog):
      if c.get('tx') == prog.get('tx'):
        yield c


class P25Oracle(Oracle):

  def __init__(self, prog, ctx):
    self.prog, self.ctx = prog, ctx
    self.lab = NoiseLab(ctx)
    e = prog['noise']
    self.kw = dict(e[1])
    self.lr = self.kw.get('learning_rate') if e[0] == 'noisy_sgd' else None
    if e[0] == 'noisy_sgd':
      self.kw = dict(dict(eta=0.01, gamma=0.55, seed=0), **self.kw)
    other = [e[0], dict(e[1], seed=self.kw['seed'] + 1)]
    self.other = Process(lambda: zoo.build(other, prog['tree'])) \
        if prog['reseed'] else None
    self.bf16 = any(l[3] == 'bf16' for l in trees.leaf_specs(prog['tree']))

  def noises(self, pos, g, u):
    std = np.sqrt(self.kw['eta'] / (pos + 1.0)**self.kw['gamma'])
    c = 1.0 if self.lr is None else -lr_at(self.lr, pos)
    return [(f64(b) - c * f64(a)) / std
            for a, b in zip(trees.leaves(g), trees.leaves(u))]

  def step(self, node, pos, entry, g, s, p, u, s2, p2):
    self.ctx.check()
    for a, b in zip(trees.leaves(g), trees.leaves(u)):
      if a.shape != b.shape or a.dtype != b.dtype:
        raise Violation('dtype', f'step {pos}: {b.dtype}{b.shape} from '
                        f'{a.dtype}{a.shape}')
    z = self.noises(pos, g, u)
    tol = 0.15 if self.bf16 else 2e-3
    self.lab.add(pos, z, tol)
    if pos in (0, 2) and not self.bf16:
      self.annealing(node, pos, z, g, s, p)
    if pos % 5 == 0:  # another gradient: the same noise
      g0 = jax.tree_util.tree_map(jnp.zeros_like, g)
      z0 = self.noises(pos, g0, node.proc.jit(g0, s, p)[0])
      for n, (a, b) in enumerate(zip(z, z0)):
        if a.size and np.max(np.abs(a - b)) > 8 * tol:
          raise Violation('depends-on-data', f'step {pos}, leaf {n}: noise '
                          f'{a.reshape(-1)[:4]}, for zero gradients '
                          f'{b.reshape(-1)[:4]}')

  def annealing(self, node, pos, z, g, s, p):
    """The same key at another count: exactly the annealed deviation.

    Only where the noise is a multiple of the same draw; an implementation
    that draws afresh for every count is left to the statistics.
    """
    if self.lr is not None and isinstance(self.lr, list):
      return
    for at in (0, 1, 7, 63, 1000):
      s1 = with_count(s, at)
      if s1 is None:
        return
      z1 = self.noises(at, g, node.proc.jit(g, s1, p)[0])
      a = np.concatenate([x.reshape(-1) for x in z])
      b = np.concatenate([x.reshape(-1) for x in z1])
      if a.size < 4:
        return
      c = float(a @ b) / float(a @ a)
      if np.max(np.abs(b - c * a)) > 0.02 * (1 + abs(c)):
        self.ctx.probe('not_proportional')
        return
      self.ctx.probe('annealing_exact')
      if abs(c - 1) > 0.05:
        raise Violation('annealing', f'at step {at} the noise has {c:.4g} '
                        f'times the documented deviation')

  def end(self):
    self.lab.judge()
    if self.other is None:
      return
    g = self.world.grads(0)
    p = self.world.init_params()
    u = self.other.jit(g, sut(self.other.tx.init, p), p)[0]
    z = np.concatenate([x.reshape(-1) for x in self.noises(0, g, u)])
    a = np.concatenate([x.reshape(-1) for x in self.lab.z[0]])
    if a.size >= 4 and np.max(np.abs(a - z)) < 1e-2:
      raise Violation('seed-ignored', f'seeds differ, noise {z[:4]}')


@register
class P25(NoiseProp):
  id = 'P25'
  quick = 220
  method = ('restarts, lost and stuck gradients; noise isolated at every step '
            'and tested for variance, annealing, freshness and reproduction')
  note = 'tail-bounded statistics on noise of up to 300 steps per run'

  def generate(self, rng, i, tier):
    k = self.knobs(rng)
    eta = rng.choice([0.01, 1.0, 0.3, 4.0, round(rng.uniform(0.01, 2), 3)])
    gamma = rng.choice([0.55, 1.0, 0.0, 0.25])
    seed = rng.choice([0, 1, 2, rng.randrange(100000)])
    if rng.random() < 0.6:
      e = ['add_noise', dict(eta=eta, gamma=gamma, seed=seed)]
    else:
      e = ['noisy_sgd', dict(learning_rate=zoo.gen_sched(rng, k['steps'])
                             if rng.random() < 0.3 else rng.choice(zoo.LR),
                             eta=eta, gamma=gamma, seed=seed)]
      for x in ('eta', 'gamma', 'seed'):
        if rng.random() < 0.3:
          del e[1][x]
    x64 = rng.random() < 0.3
    dts = ('f64',) if x64 else ('f32',)
    if not x64 and rng.random() < 0.15:
      dts = ('f32', 'bf16')
    if len(dts) > 1:
      e[1].update(eta=rng.choice([1.0, 4.0]), gamma=0.0)
      if 'learning_rate' in e[1]:
        e[1]['learning_rate'] = 0.25
      k['exps'] = (-5, -1)
    prog = dict(tree=self.gen_noise_tree(rng, dts), noise=e, tx=e, x64=x64,
                mode='jit', reseed=rng.random() < 0.2)
    if rng.random() < 0.08:
      prog['mode'] = 'eager'
      k.update(chunk=0, steps=10)
    return self.world(rng, prog, **k)

  def run(self, prog, ctx):
    ctx.op('tx_' + prog['noise'][0])
    World(prog, ctx, P25Oracle(prog, ctx),
          lambda: zoo.build(prog['tx'], prog['tree'])).run()


class P24Oracle(Oracle):

  def __init__(self, prop, prog, ctx):
    self.prop, self.prog, self.ctx = prop, prog, ctx
    self.C, self.mult, self.B = prog['C'], prog['mult'], prog['B']
    self.lab = NoiseLab(ctx)
    self.us, self.T = {}, {}
    agg = lambda mult, seed: Process(
        lambda: optax.differentially_private_aggregate(self.C, mult, seed))
    self.quiet = agg(0.0, prog['seed_'])
    self.same = None
    mk = lambda seed: Process(lambda: zoo.build(
        [prog['tx'][0], dict(prog['tx'][1], seed=seed)], prog['tree']))
    self.pair = (mk(prog['seed_']), mk(prog['seed_'] + 1)) \
        if prog['reseed'] else None
    self.bf16 = any(l[3] == 'bf16' for l in trees.leaf_specs(prog['tree']))
    self.eps = 3e-2 if self.bf16 else (
        1e-11 if prog['x64'] and not isinstance(prog.get('lr'), list)
        else 2e-5)
    self.agg_state = None

  def key_state(self, s):
    return s[0] if self.prog['what'] == 'dpsgd' else s

  def clipped_mean(self, g):
    gs = [f64(x) for x in trees.leaves(g)]
    n = np.sqrt(sum(np.sum(x.reshape(self.B, -1)**2, axis=1) for x in gs))
    f = 1.0 / np.maximum(n / self.C, 1.0)
    if (f < 1).any():
      self.ctx.probe('clipped')
    if (f == 1).any():
      self.ctx.probe('unclipped')
    return [np.tensordot(f, x, axes=(0, 0)) / self.B for x in gs]

  def need(self, actual, want, where, slack=1.0):
    for n, (a, b) in enumerate(zip(trees.leaves(actual), want)):
      a = f64(a)
      if a.shape != b.shape:
        raise Violation('shape', f'{where}, leaf {n}: {a.shape}')
      if a.size and np.max(np.abs(a - b)) > self.eps * self.C * slack:
        raise Violation('wrong-mean', f'{where}, leaf {n}: {cmp._show(a)} '
                        f'instead of {cmp._show(b)}')

  def aggregate_of(self, pos, u):
    """The noised aggregate behind an update of dpsgd."""
    prog = self.prog
    if prog['what'] == 'agg':
      return [f64(x) for x in trees.leaves(u)]
    lr = lambda i: lr_at(prog['lr'], i)
    self.us[pos] = [f64(x) for x in trees.leaves(u)]
    if abs(lr(pos)) < 1e-3:
      return None
    now = [x / -lr(pos) for x in self.us[pos]]
    m = prog['momentum']
    if m and prog['nesterov']:  # y = a + m T, T = a + m T before
      before = self.T.get(pos - 1) if pos else [0.0] * len(now)
      if before is None:
        return None
      now, ys = [(y - m * m * t) / (1 + m) for y, t in zip(now, before)], now
      self.T[pos] = [(y - a) / m for y, a in zip(ys, now)]
    elif m is not None and pos:
      if pos - 1 not in self.us or abs(lr(pos - 1)) < 1e-3:
        return None
      now = [x - m * y / -lr(pos - 1) for x, y in zip(now, self.us[pos - 1])]
    return now

  def step(self, node, pos, entry, g, s, p, u, s2, p2):
    self.ctx.check()
    for a, b in zip(trees.leaves(p), trees.leaves(u)):
      if a.shape != b.shape or a.dtype != b.dtype:
        raise Violation('dtype', f'step {pos}: {b.dtype}{b.shape} for '
                        f'{a.dtype}{a.shape}')
    mean = self.clipped_mean(g)
    ks = self.key_state(s)
    got = self.aggregate_of(pos, u)
    if self.mult == 0:
      if got is not None:
        self.need(got, mean, f'step {pos}', 4 if self.prog['what'] != 'agg'
                  else 1)
    elif got is not None:
      z = [(a - b) * self.B / (self.C * self.mult)
           for a, b in zip(got, mean)]
      self.lab.add(pos, z, 0.3 if self.bf16 else 5e-3)
    if pos % 4 == 0:
      # the same batch without noise, then with one example replaced
      q = self.quiet.jit(g, ks, p)[0]
      self.need(q, mean, f'step {pos}, without noise')
      g2 = self.replaced(pos, g)
      q2 = self.quiet.jit(g2, ks, p)[0]
      d = np.sqrt(sum(np.sum((f64(a) - f64(b))**2) for a, b in zip(
          trees.leaves(q), trees.leaves(q2))))
      bound = 2 * self.C / self.B
      if not d <= bound * (1 + 10 * self.eps) + self.eps * self.C * 4:
        raise Violation('sensitivity', f'step {pos}: replacing an example '
                        f'moves the aggregate by {d}, more than {bound}')
      self.ctx.fault('example_replaced')
      if self.mult and self.prog['what'] == 'agg':
        self.same = node.proc
        a = self.same.jit(g, ks, p)[0]
        b = self.same.jit(g2, ks, p)[0]
        na = [f64(x) - f64(y) for x, y in zip(trees.leaves(a),
                                              trees.leaves(q))]
        nb = [f64(x) - f64(y) for x, y in zip(trees.leaves(b),
                                              trees.leaves(q2))]
        for n, (x, y) in enumerate(zip(na, nb)):
          if x.size and np.max(np.abs(x - y)) > self.eps * self.C * (
              4 + 8 * self.mult):
            raise Violation('depends-on-data', f'step {pos}, leaf {n}: noise '
                            f'{cmp._show(x)} and {cmp._show(y)}')

  def replaced(self, pos, g):
    rs = np.random.RandomState(pos * 7 + 5)
    b = rs.randint(self.B)
    how = rs.randint(4)
    self.ctx.op('replace_' + ('zero', 'huge', 'negated', 'other')[how])
    mag = 2.0**rs.choice([0, 10, 20, 30])

    def f(x):
      a = np.array(x)
      if how == 0:
        a[b] = 0
      elif how == 2:
        a[b] = -a[b]
      else:
        a[b] = np.asarray(rs.randn(*a.shape[1:]) * (
            mag if how == 1 else 1)).astype(a.dtype)
      return jnp.asarray(a)
    return jax.tree_util.tree_map(f, g)

  def end(self):
    if not self.mult:
      return
    self.lab.judge()
    c = 1.0 if self.prog['what'] == 'agg' else abs(lr_at(self.prog['lr'], 0))
    if self.pair is None or c < 1e-3:
      return
    g, p = self.world.grads(0), self.world.init_params()
    a, b = [o.jit(g, sut(o.tx.init, p), p)[0] for o in self.pair]
    d = np.concatenate([(f64(x) - f64(y)).reshape(-1) for x, y in zip(
        trees.leaves(a), trees.leaves(b))])
    if d.size >= 4 and np.max(np.abs(d)) < (
        0.01 * c * self.C * self.mult / self.B):
      raise Violation('seed-ignored', 'two seeds give the same noise')


@register
class P24(NoiseProp):
  id = 'P24'
  quick = 150
  method = ('per-example batches with corrupted and replaced examples, '
            'restarts; float64 clipped mean, sensitivity bound and noise '
            'statistics at every step')
  note = 'sampled batches; replacement of sampled examples; tail-bounded tests'

  def generate(self, rng, i, tier):
    k = self.knobs(rng)
    x64 = rng.random() < 0.3
    dts = ('f64',) if x64 else ('f32',)
    if not x64 and rng.random() < 0.2:
      dts = rng.choice([('bf16',), ('f32', 'bf16')])
    C = rng.choice([1.0, 0.5, 4.0, round(rng.uniform(0.1, 8), 3)])
    mult = rng.choice([0.0, 1.0, 0.5, 2.0, round(rng.uniform(0.3, 3), 3)])
    seed = rng.choice([0, 1, rng.randrange(100000)])
    prog = dict(tree=self.gen_noise_tree(rng, dts), x64=x64, mode='jit', C=C,
                mult=mult, seed_=seed, B=rng.choice([1, 2, 3, 5, 8]))
    if len(dts) > 1 or rng.random() < 0.6 or dts[0] == 'bf16':
      prog['what'] = 'agg'
      tx = ['differentially_private_aggregate', dict(
          l2_norm_clip=C, noise_multiplier=mult, seed=seed)]
    else:
      prog['what'] = 'dpsgd'
      prog['lr'] = zoo.gen_sched(rng, k['steps']) if rng.random() < 0.3 \
          else rng.choice([0.5, 0.25, 1.0, 0.1])
      prog['momentum'] = rng.choice([None, None, 0.5, 0.9])
      kw = dict(learning_rate=prog['lr'], l2_norm_clip=C,
                noise_multiplier=mult, seed=seed)
      if prog['momentum'] is not None:
        kw['momentum'] = prog['momentum']
        prog['nesterov'] = rng.random() < 0.4
        if prog['nesterov']:
          kw['nesterov'] = True
      tx = ['dpsgd', kw]
    prog['tx'] = tx
    prog['reseed'] = rng.random() < 0.25
    if rng.random() < 0.06:
      prog['mode'] = 'eager'
      k.update(chunk=0, steps=10)
    return self.world(rng, prog, **k)

  def run(self, prog, ctx):
    ctx.op('tx_' + prog['tx'][0])
    B = prog['B']

    def grads(pos):
      e = prog['log'][pos]
      rs = np.random.RandomState((e.get('s', 0) * 31 + pos) & 0x7fffffff)
      f = 2.0**rs.randint(-5, 5, size=B)
      if rs.rand() < 0.15:  # a corrupted example
        f[rs.randint(B)] = 2.0**rs.choice([15, 25])
        if e['k'] != 'z':
          ctx.fault('corrupt_example')
      t = trees.grads_tree(prog['tree'], e, batch=B)
      return jax.tree_util.tree_map(
          lambda x: (x.astype(np.float64) * f.reshape(
              (B,) + (1,) * (x.ndim - 1))).astype(x.dtype), t)
    World(prog, ctx, P24Oracle(self, prog, ctx),
          lambda: zoo.build(prog['tx'], prog['tree']), grads_fn=grads).run()
