"""User functions of a step count, called after a great many steps."""
import re

from sim.boot import np, jnp, jax, optax
from sim import trees, cmp
from sim.engine import World, Oracle


def counters(state):
  """[(path, field, leaf)] of the integer scalars of a state."""
  out = []
  for path, x in jax.tree_util.tree_flatten_with_path(state)[0]:
    a = np.asarray(x)
    if a.dtype.kind == 'i' and a.shape == ():
      key = jax.tree_util.keystr(path)
      field = re.findall(r'[A-Za-z_]\w*', key)
      out.append((key, field[-1] if field else '', int(a)))
  return out


def clockwork(clock):
  m, r = clock['m'], clock['r']
  f = lambda c: ((c % m + r) % m + 1) / 8
  tx = {
      'schedule': lambda: optax.scale_by_schedule(f),
      'sgd': lambda: optax.sgd(f),
      'inject': lambda: optax.inject_hyperparams(optax.scale)(step_size=f),
      'pred': lambda: optax.maybe_update(optax.scale(3.0),
                                         lambda c: (c % m + r) % m == 0),
      'k': lambda: optax.MultiSteps(
          optax.scale(1.0), lambda c: (c % m + r) % m + 1,
          use_grad_mean=False).gradient_transformation(),
  }[clock['kind']]()
  return {'chain': lambda: optax.chain(optax.scale(1.0), tx),
          'masked': lambda: optax.masked(tx, lambda p: jax.tree_map(
              lambda _: True, p)),
          'finite': lambda: optax.apply_if_finite(tx, 2),
          '': lambda: tx}[clock['wrap']]()


class ClockOracle(Oracle):
  """What a user's function of the count returns, by exact integers."""

  def __init__(self, prog, ctx):
    self.prog, self.ctx = prog, ctx
    self.origin = 0

  def scale(self, c):
    clock = self.prog['clock']
    limit = 2**31 - 1
    if clock['kind'] in ('pred', 'k') and self.prog['x64']:
      limit = 2**63 - 1
    if c >= limit - 2:
      self.ctx.probe('counter_at_limit')
    c = min(c, limit)
    v = (c + clock['r']) % clock['m']
    return {'pred': 3.0 if v == 0 else 1.0, 'k': v + 1,
            'sgd': -(v + 1) / 8}.get(clock['kind'], (v + 1) / 8)

  def expected(self, pos):
    clock = self.prog['clock']
    t = self.origin
    g = lambda i: [np.asarray(x, np.float64)
                   for x in trees.leaves(self.world.grads(i))]
    if clock['kind'] != 'k':
      c = self.scale(t + pos + (clock['kind'] == 'inject'))
      return [c * x for x in g(pos)]
    i, acc, n = 0, None, 0
    while True:
      acc = g(i) if n == 0 else [a + b for a, b in zip(acc, g(i))]
      n += 1
      done = n == self.scale(t)
      if i == pos:
        return acc if done else [0 * a for a in acc]
      if done:
        n, t = 0, t + 1
      i += 1

  def step(self, node, pos, entry, g, s, p, u, s2, p2):
    for n, (a, e) in enumerate(zip(trees.leaves(u), self.expected(pos))):
      self.ctx.check()
      cmp.need(cmp.close(a, e, 1e-5, 1e-4 if
                         self.prog['clock']['kind'] == 'k' else 1e-7),
               'wrong-count-seen', f'step {pos}, leaf {n}, after '
               f'{self.origin + pos} updates')


class Clocked:
  """Runs of a transformation whose counter is far from zero."""

  def generate_clock(self, rng, kinds):
    """User functions of the count, after a great many steps."""
    x64 = rng.random() < 0.4
    kind = rng.choice(kinds)
    wide = x64 and kind in ('pred', 'k')
    at = rng.choice([7, 8, 15, 16, 17, 24, 24, 25, 30, 31] + (
        [32, 33, 53, 63] * 2 if wide else []))
    start = 2**at - rng.choice([1, 2, 3, 5] if at in (31, 63) else
                               [0, 1, 2, 3, -1, -5, -4099])
    clock = dict(kind=kind, start=start, m=rng.choice([2, 3, 5, 7, 16]),
                 r=rng.randrange(5), wrap=rng.choice(
                     ['', '', 'chain', 'masked', 'finite']))
    eager = rng.random() < 0.2
    tree = trees.gen_tree(rng, ('f64',) if x64 else ('f32',), max_leaves=2)
    prog = dict(tree=tree, clock=clock, x64=x64, back=0, at=0, inc=False,
                mode='eager' if eager else 'jit')
    return self.world(rng, prog, steps=rng.randint(4, 6) if eager else
                      rng.randint(6, 24), p_crash=0.05, p_ckpt=0.2,
                      chunk=0 if eager else rng.choice([0, 2, 3]),
                      p_chunk=0.3, p_spike=0.0)

  def run_clock(self, prog, ctx):
    clock = prog['clock']
    ctx.op('clock_' + clock['kind'])
    field = {'pred': 'step', 'k': 'gradient_step'}.get(clock['kind'], 'count')
    p = trees.to_jnp(trees.params_tree(prog['tree']))
    oracle = ClockOracle(prog, ctx)

    def jump(node, pos):
      if pos != 0 or node.state is None:
        return
      ls, td = jax.tree_util.tree_flatten(node.state)
      known = {k: f for k, f, _ in counters(node.state)}
      for n, (k, _) in enumerate(
          jax.tree_util.tree_flatten_with_path(node.state)[0]):
        if known.get(jax.tree_util.keystr(k)) == field:
          ls[n] = jnp.asarray(clock['start'], np.asarray(ls[n]).dtype)
          oracle.origin = clock['start']
          node.w.ctx.fault('clock_jump')
      node.state = jax.tree_util.tree_unflatten(td, ls)
    World(prog, ctx, oracle, lambda: clockwork(clock),
          params_fn=lambda: p, before_step=jump).run()
