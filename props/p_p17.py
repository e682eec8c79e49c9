"""Counters at the end of their range: started there, as after 2**31 steps."""
from sim.boot import np, jnp, jax, optax
from sim.base import Violation
from sim import trees, zoo, cmp
from sim.engine import World, Oracle, sut
from props.common import Prop, register
from props.common_gen import setting
from props.common_clock import Clocked, counters

# counters that only ever grow, and those that return to zero
GROW = {'count', 'step', 'gradient_step', 'total_notfinite'}
RESET = {'notfinite_count'}
BOUNDED = {'mini_step', 'steps_since_sync'}


class CountOracle(Oracle):

  def __init__(self, prog, ctx, periodic):
    self.prog, self.ctx, self.periodic = prog, ctx, periodic

  def step(self, node, pos, entry, g, s, p, u, s2, p2):
    before = {k: v for k, _, v in counters(s)}
    for key, field, v in counters(s2):
      self.ctx.check()
      w = f'step {pos}, {key}: {before.get(key)} -> {v}'
      if v < 0:
        raise Violation('negative-counter', w)
      top = np.iinfo(np.asarray(jnp.zeros([], jnp.int64)).dtype).max
      if before.get(key, 0) >= 2**31 - 3:
        self.ctx.probe('counter_at_limit')
      if field in GROW and not self.periodic:
        b = before[key]
        if v < b:
          raise Violation('counter-restarted', w)
        limit = top if field in ('step', 'gradient_step',
                                 'total_notfinite') else 2**31 - 1
        if v not in (b, min(b + 1, limit)):
          raise Violation('counter-jumped', w)
        if field == 'count' and self.prog['plain'] and v != min(
            b + 1, 2**31 - 1):
          raise Violation('counter-stuck', w)
    if not entry.get('p'):
      bad = cmp.finite(u)
      self.ctx.check()
      if bad and not self.ctx.poisoned:
        raise Violation('not-finite', f'step {pos}: updates{bad}')
    else:
      self.ctx.poisoned = True


@register
class P17(Clocked, Prop):
  id = 'P17'
  quick = 400
  rule = 'a step counter within two of its greatest value, 5 or more steps'
  stubs = Prop.stubs + ['2**31 earlier steps (their effect on the counters is '
                        'written into the state)']

  def generate(self, rng, i, tier):
    if rng.random() < 0.2:
      return self.generate_clock(rng, ('schedule', 'sgd', 'inject', 'pred', 'k'))
    dts, x64, caps = setting(rng, low=False, mixed=False)
    caps.update(horizon=30, accum=None)
    counted = ['adam', 'adamw', 'adabelief', 'lamb', 'radam', 'yogi', 'ema',
               'noisy_sgd', 'add_noise', 'scale_by_schedule', 'scale_by_adam',
               'scale_by_radam', 'scale_by_yogi', 'scale_by_belief']
    r = rng.random()
    plain = False
    if r < 0.4:
      tx = zoo.gen_named(rng, rng.choice(counted), caps)
      if 'learning_rate' in tx[1] and rng.random() < 0.7:
        tx[1]['learning_rate'] = zoo.gen_sched(rng, 30)
      plain = True
    elif r < 0.5:
      tx = zoo.gen_inject(rng, caps)
    elif r < 0.7:
      inner = zoo.gen_named(rng, rng.choice(counted), caps)
      tx = rng.choice([
          ['multisteps', inner, zoo.gen_k(rng), True],
          ['maybe_update', inner, zoo.gen_pred(rng)],
          ['apply_if_finite', inner, rng.randint(0, 5)],
          ['masked', inner, ['fn', rng.getrandbits(30)]],
          ['lookahead', inner, rng.randint(1, 5), 0.5, rng.random() < 0.5]])
    else:
      tx = zoo.gen_tx(rng, caps)
    for e in zoo.walk(tx):  # growing schedules leave the range of the type
      for v in list((e[2] if e[0] == 'inject' else e[1]).values()
                    if isinstance(e[1], dict) or e[0] == 'inject' else ()):
        self.bound(v)
    eager = rng.random() < 0.15
    steps = rng.randint(4, 6) if eager else rng.randint(6, 16)
    tree = trees.gen_tree(rng, dts, max_leaves=4)
    prog = dict(tree=tree, tx=tx, x64=x64, mode='eager' if eager else 'jit',
                back=rng.choice([0, 1, 1, 2, 3, 5]), plain=plain,
                at=rng.randint(0, 3))
    return self.world(rng, prog, steps=steps, p_crash=0.05, p_ckpt=0.2,
                      chunk=rng.choice([0, 2, 3]), p_chunk=0.2, p_spike=0.0,
                      p_poison=0.06 if 'apply_if_finite' in zoo.names(tx)
                      and tx[0] == 'apply_if_finite' else 0.0)

  def bound(self, v):
    if not isinstance(v, list) or v[:1] != ['sched']:
      return
    if v[1] == 'join':
      for s in v[2]:
        self.bound(s)
    elif v[1] in ('exponential_decay', 'warmup_exponential_decay_schedule'):
      v[2]['decay_rate'] = min(v[2]['decay_rate'], 0.9)

  def run(self, prog, ctx):
    if 'clock' in prog:
      return self.run_clock(prog, ctx)
    tx = prog['tx']
    ctx.poisoned = False
    for n in zoo.names(tx):
      ctx.op('tx_' + n)
    base = trees.to_jnp(trees.params_tree(prog['tree']))
    p = optax.LookaheadParams.init_synced(base) if zoo.uses_lookahead(
        tx) else base
    periodic = 'apply_every' in zoo.names(tx) or any(
        e[0] == 'lookahead' for e in zoo.walk(tx))

    def jump(node, pos):
      if pos != prog['at'] or node.state is None:
        return
      ls, td = jax.tree_util.tree_flatten(node.state)
      known = {k: f for k, f, _ in counters(node.state)}
      paths = [jax.tree_util.keystr(k) for k, _ in
               jax.tree_util.tree_flatten_with_path(node.state)[0]]
      for n, (x, key) in enumerate(zip(ls, paths)):
        f = known.get(key)
        if f in GROW | RESET and not (f == 'count' and periodic):
          a = np.asarray(x)
          top = np.iinfo(a.dtype).max if f != 'count' else 2**31 - 1
          if int(a) > 2**30:
            continue  # already there
          ls[n] = jnp.asarray(top - prog['back'], a.dtype)
      node.state = jax.tree_util.tree_unflatten(td, ls)
      node.w.ctx.fault('clock_jump')
    w = World(prog, ctx, CountOracle(prog, ctx, periodic),
              lambda: zoo.build(tx, prog['tree']), params_fn=lambda: p,
              before_step=jump)
    w.run()
    if prog.get('inc', True):
      self.increments(ctx, prog)

  def increments(self, ctx, prog):
    from optax._src import numerics
    top = 2**31 - 1
    f = jax.jit(numerics.safe_int32_increment)
    for v in (0, 1, 7, 2**16, 2**24, 2**30, top - 2, top - 1, top,
              prog['seed'][2] * 7919 % top):
      ctx.check()
      r = sut(f, jnp.asarray(v, jnp.int32))
      if int(r) != min(v + 1, top) or r.dtype != jnp.int32 or r.shape != ():
        raise Violation('safe_int32_increment', f'{v} -> {r!r}')

  def nontrivial(self, prog, ctx):
    return ctx.probes.get('counter_at_limit', 0) >= 1 and ctx.steps >= 5
