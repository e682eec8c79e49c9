"""Clipping bounds what any gradient can do."""
from sim.boot import np, jnp, jax, optax
from sim.base import Violation, wchoice
from sim import trees, zoo, cmp, schedmodel
from sim.engine import World, Oracle, Process, sut
from props.common import Prop, register

EPS = {'float32': 1e-5, 'float64': 1e-12, 'bfloat16': 0.04}


def f64(x):
  return np.asarray(x).astype(np.float64)


def sched_at(v, n):
  return schedmodel.value(v, n) if isinstance(v, list) else v


def unit_axes(shape):
  squeezed = [d for d in shape if d != 1]
  if len(squeezed) <= 1:
    return None
  if len(shape) in (2, 3):
    return (0,)
  return (0, 1, 2)


def unit_norms(x):
  x = f64(x)
  ax = unit_axes(x.shape)
  return np.sqrt(np.sum(x**2, axis=ax, keepdims=ax is not None))


class ClipOracle(Oracle):

  def __init__(self, prog, ctx):
    self.prog, self.ctx = prog, ctx
    self.e = prog['clip']
    self.form = prog['form']
    self.shadow = None
    if self.form == 'after':
      self.shadow = Process(lambda: zoo.build(prog['pre'], prog['tree']))
    if self.form == 'masked':
      m = zoo.build_mask(prog['mask'], prog['tree'])
      tree = trees.params_tree(prog['tree'])
      m = m(tree) if callable(m) else m
      out = []
      jax.tree_util.tree_map(
          lambda a, sub: out.extend([bool(a)] * len(trees.leaves(sub))),
          m, tree)
      self.mask = out

  def step(self, node, pos, entry, g, s, p, u, s2, p2):
    self.ctx.check()
    form = self.form
    exact, loose = True, 1.0
    lg, lu, lp, lp2 = map(trees.leaves, (g, u, p, p2))
    kw = {k: sched_at(v, pos + 1) for k, v in self.e[1].items()}
    if form == 'after':
      lg = trees.leaves(self.shadow.jit(g, s[0], p)[0])
      exact = False
    elif form == 'accumulated':
      k = self.prog['k']
      if (pos + 1) % k:
        for n, x in enumerate(lu):
          if f64(x).any():
            raise Violation('early', f'step {pos}, leaf {n}: {cmp._show(x)}')
        return
      gs = [trees.leaves(self.world.grads(i)) for i in range(
          pos + 1 - k, pos + 1)]
      lg = [np.asarray(sum(f64(r[n]) for r in gs) / (
          k if self.prog['mean'] else 1)) for n in range(len(lu))]
      exact, loose = False, 10.0
    elif form == 'masked':
      for n, (a, b) in enumerate(zip(lg, lu)):
        if not self.mask[n]:
          cmp.need(cmp.same_bits(b, a), 'mask', f'step {pos}, leaf {n}')
      pick = lambda xs: [x for x, m in zip(xs, self.mask) if m]
      lg, lu, lp, lp2 = map(pick, (lg, lu, lp, lp2))
    elif form == 'scaled':  # the clipped gradient times a power of two
      r = self.prog['rate']
      bound = kw.get('max_delta', kw.get('max_norm'))
      tot, slack = 0.0, 0.0
      for x, y in zip(lp, lp2):
        d = f64(y) - f64(x)
        eps = EPS[str(np.asarray(x).dtype)]
        if self.e[0] == 'clip':
          if (np.abs(d) > r * bound * (1 + eps) + eps * np.abs(f64(x))).any():
            raise Violation('moved-too-far', f'step {pos}: {cmp._show(d)}')
        tot += np.sum(d**2)
        slack = max(slack, eps)
        slack += eps * float(np.sqrt(np.sum(f64(x)**2)))
      if self.e[0] == 'clip_by_global_norm' and np.sqrt(tot) > r * bound * (
          1 + slack) + slack:
        raise Violation('moved-too-far', f'step {pos}: by {np.sqrt(tot)}')
      lu = [f64(x) / -r for x in lu]
      exact = False
    if form == 'inject':
      exact = False
    dts = [EPS[str(np.asarray(x).dtype)] for x in trees.leaves(u)]
    if not lg:
      return
    eps = max(dts) * loose
    if form in ('inject',):
      eps = max(eps, 2e-5)
    if form in ('after',) and zoo.has_scheds(self.prog['pre']):
      eps = max(eps, 2e-5)
    getattr(self, self.e[0])(pos, kw, lg, lu, lp, eps, exact)

  def clip(self, pos, kw, lg, lu, lp, eps, exact):
    m = kw['max_delta']
    for n, (g, u) in enumerate(zip(lg, lu)):
      dt = np.asarray(u).dtype
      g, v = f64(g), f64(u)
      b = float(np.asarray(m, dt).astype(np.float64)) if exact else m
      if not (np.abs(v) <= b * (1 if exact else 1 + eps)).all():
        raise Violation('exceeds', f'step {pos}, leaf {n}: {cmp._show(v)} '
                        f'exceeds {m}')
      want = np.clip(g, -b, b)
      tol = 0 if exact else eps * b
      if g.size and not exact:
        tol = tol + eps * np.minimum(np.max(np.abs(g)), 1e3 * b)
      if (np.abs(v - want) > tol).any():
        raise Violation('wrong-updates', f'step {pos}, leaf {n}: '
                        f'{cmp._show(v)} instead of {cmp._show(want)}')
      if (np.abs(g) > b).any():
        self.ctx.probe('clipped')

  def clip_by_global_norm(self, pos, kw, lg, lu, lp, eps, exact):
    m = kw['max_norm']
    lo = [f64(x) for x in lg]
    lv = [f64(x) for x in lu]
    norm = np.sqrt(sum(np.sum(x**2) for x in lo))
    out = np.sqrt(sum(np.sum(x**2) for x in lv))
    if not out <= m * (1 + eps):
      raise Violation('exceeds', f'step {pos}: norm {out} exceeds {m}')
    if norm > 1e18 and not self.prog['x64']:
      self.ctx.probe('squares_overflow')  # such gradients may become zero
      return
    f = min(1.0, m / norm) if norm > 0 else 1.0
    if f < 1:
      self.ctx.probe('clipped')
    for n, (g, v) in enumerate(zip(lo, lv)):
      if norm < m * (1 - eps) and exact:
        if (g != v).any():
          raise Violation('changed', f'step {pos}, leaf {n}: {cmp._show(v)} '
                          f'instead of {cmp._show(g)} within the bound')
      e = eps * np.abs(g * f) + 1e-30
      if not exact and g.size:
        e = e + 10 * eps * np.max(np.abs(g)) * f
      if (np.abs(v - g * f) > 2 * e).any():
        raise Violation('wrong-updates', f'step {pos}, leaf {n}: '
                        f'{cmp._show(v)} instead of {cmp._show(g * f)}')

  def adaptive_grad_clip(self, pos, kw, lg, lu, lp, eps, exact):
    for n, (g, u, p) in enumerate(zip(lg, lu, lp)):
      v = f64(u)
      g = f64(g)
      if not g.size:
        continue
      gn, un, pn = unit_norms(g), unit_norms(v), unit_norms(p)
      bound = kw['clipping'] * np.maximum(pn, kw.get('eps', 1e-3))
      if gn.max() > 1e18 and not self.prog['x64']:
        self.ctx.probe('squares_overflow')
        if not (un <= bound * (1 + eps)).all():
          raise Violation('exceeds', f'step {pos}, leaf {n}')
        continue
      if not (un <= bound * (1 + eps)).all():
        raise Violation('exceeds', f'step {pos}, leaf {n}: unit norms '
                        f'{cmp._show(un)} exceed {cmp._show(bound)}')
      with np.errstate(divide='ignore'):
        f = np.where(gn > bound, bound / np.where(gn > 0, gn, 1), 1.0)
      if (f < 1).any():
        self.ctx.probe('clipped')
      within = np.broadcast_to(gn < bound * (1 - eps), g.shape)
      if exact and (within & (g != v)).any():
        raise Violation('changed', f'step {pos}, leaf {n}: {cmp._show(v)} '
                        f'instead of {cmp._show(g)} within the bound')
      e = eps * np.abs(g * f) + 1e-30
      if not exact:
        e = e + 10 * eps * np.max(np.abs(g * f))
      if (np.abs(v - g * f) > 2 * e).any():
        raise Violation('wrong-updates', f'step {pos}, leaf {n}: '
                        f'{cmp._show(v)} instead of {cmp._show(g * f)}')


@register
class P22(Prop):
  id = 'P22'
  quick = 400
  method = ('gradient streams with huge, tiny and corrupted finite messages, '
            'crashes; bounds and unchanged elements checked at every step '
            'from the gradients and parameters actually used')
  note = 'sampled histories; float64 arithmetic as oracle'
  rule = 'at least one clipped gradient'

  def generate(self, rng, i, tier):
    x64 = rng.random() < 0.25
    name = rng.choice(['clip', 'clip_by_global_norm', 'adaptive_grad_clip'])
    steps = rng.randint(6, 40)
    val = lambda lo, hi: rng.choice([0.25, 1.0, 3.0, 1000.0, 2.0**20, round(
        rng.uniform(lo, hi), 3)])
    if name == 'clip':
      kw = dict(max_delta=val(0.01, 5))
    elif name == 'clip_by_global_norm':
      kw = dict(max_norm=val(0.01, 5))
    else:
      kw = dict(clipping=rng.choice([0.01, 0.5, 1.0, round(rng.uniform(
          0.01, 1), 3)]), **zoo._opt_kw(rng, eps=[1e-3, 0.1, 1.0]))
    form = wchoice(rng, [(4, 'alone'), (2, 'after'), (1.5, 'masked'),
                         (1.5, 'inject'), (1.5, 'accumulated'),
                         (1.5, 'scaled')])
    dts = ('f64',) if x64 else ('f32',)
    if not x64 and form in ('alone', 'masked') and rng.random() < 0.4:
      dts = ('f32', 'bf16')
    shift = 0
    if form in ('alone', 'masked') and name != 'adaptive_grad_clip' and \
        rng.random() < 0.2:  # far from one, gradients and bound alike
      shift = rng.choice([-80, -60, 60, 80] if name == 'clip' else [-30, 25])
      kw = {k: v * 2.0**shift for k, v in kw.items()}
    e = [name, kw]
    prog = dict(x64=x64, mode='jit', form=form, clip=e)
    if form == 'alone':
      tx = e
    elif form == 'after':
      caps = dict(horizon=steps, accum=None, lookahead=False,
                  avoid=['scale_by_stddev', 'noisy_sgd', 'add_noise'],
                  noise=False)
      pre = zoo.gen_base(rng, caps)
      prog['pre'] = pre
      tx = ['chain', [pre, e]]
    elif form == 'masked':
      prog['mask'] = zoo.gen_mask(rng)
      tx = ['masked', e, prog['mask']]
    elif form == 'inject':
      kw2 = zoo.schedule_some(rng, kw, dict(horizon=steps))
      prog['clip'] = [name, kw2]
      tx = ['inject', name, kw2]
    elif form == 'accumulated':
      prog['k'] = rng.randint(1, 5)
      prog['mean'] = rng.random() < 0.7
      tx = ['multisteps', e, prog['k'], prog['mean']]
    else:
      prog['rate'] = rng.choice([0.5, 0.125, 1.0])
      tx = ['chain', [e, ['scale', {'step_size': -prog['rate']}]]]
    tree = trees.gen_tree(rng, dts, max_leaves=6,
                          inits=('n', 'n', 'z', 'p', 'c'))
    prog.update(tree=tree, tx=tx)
    knobs = dict(steps=steps, p_crash=0.03, p_ckpt=0.12, p_spike=0.12,
                 p_tiny=0.1, chunk=rng.choice([0, 4]), p_chunk=0.3)
    if form in ('accumulated', 'after'):
      knobs.update(p_tiny=0.0)
    if rng.random() < 0.1 and form == 'alone':
      prog['mode'] = 'eager'
      knobs.update(chunk=0, steps=min(steps, 12))
    self.world(rng, prog, **knobs)
    if shift:
      for x in prog['log']:
        x['e'] = x.get('e', 0) + shift
    elif form in ('alone', 'masked', 'scaled', 'inject'):
      for x in prog['log']:
        if rng.random() < 0.08:  # corrupted, but finite
          x['e'] = x.get('e', 0) + rng.choice([20, 35, 50, 64, 110])
          x['f'] = 'corrupt_finite'
    return prog

  def run(self, prog, ctx):
    tx = prog['tx']
    ctx.op(prog['form'] + '_' + prog['clip'][0])
    World(prog, ctx, ClipOracle(prog, ctx),
          lambda: zoo.build(tx, prog['tree'])).run()

  def nontrivial(self, prog, ctx):
    return ctx.probes.get('clipped', 0) >= 1

  def shrink(self, prog):
    for c in super().shrink(prog):
      if c['tx'] is prog['tx'] or c['tx'] == prog['tx']:
        yield c
