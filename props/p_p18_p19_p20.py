"""Optimizers against float64 models of their published recurrences."""
from sim.boot import np, jnp, jax, optax
from sim.base import Violation
from sim import trees, zoo, cmp, models
from sim.engine import World, sut
from props.common import register
from props.common_wrap import WrapProp, RefOracle, NumTrack, OnTrees


class ModelOracle(RefOracle):
  alt = None

  def lost(self, pos):
    """Norms of these overflow in the precision of the run."""
    if not self.maxes and self.world.program['tx'] and max(
        [0.0] + self.scales(pos) + [float(np.abs(x).max()) for x in
                                    trees.leaves(self.track.at(pos)[2])
                                    if x.size]) > self.limit:
      self.ctx.probe('diverged')
      self.maxes, self.first_bad = True, 0
    return super().lost(pos)

  def values(self, pos, u, u0, p2, p0):
    try:
      super().values(pos, u, u0, p2, p0)
    except Violation:
      if self.alt is None:
        raise
      keep = self.track, self.big
      self.track, self.big = self.alt, []
      try:
        u1, _, p1 = self.track.at(pos)
        super().values(pos, u, u1, p2, p1)
      except Violation:
        self.track, self.big = keep
        raise
      # exactly the deviation that known_findings.json describes
      self.alt = None
      self.fresh = self.alt_fresh
      self.ctx.finding(*self.alt_what)


class ModelProp(WrapProp):
  knobs = dict(p_poison=0.0)
  dtypes64 = 0.7
  pool = ()
  rule = 'five or more steps compared with the float64 model'
  quick = 480

  def vary(self, rng, e, x64):
    """Values between those of the generator's lists."""
    kw = e[1]
    u = lambda a, b: round(rng.uniform(a, b), 4)
    for k in list(kw):
      if isinstance(kw[k], float) and rng.random() < 0.35:
        if k in ('b1', 'momentum') or k == 'decay':
          kw[k] = u(0.05, 0.98)
        elif k == 'b2' and kw[k] != 1.0:
          kw[k] = u(0.3, 0.95 if 'radam' in e[0] else 0.998)
        elif k in ('learning_rate', 'weight_decay', 'step_size'):
          kw[k] = u(0.01, 0.6)
        elif k == 'eps':
          kw[k] = 10.0**-rng.randint(2, 7)
    if 'radam' in e[0]:
      if x64 and rng.random() < 0.5:
        kw['b2'] = rng.choice([0.999, 0.99, 0.98])
      kw.setdefault('b2', 0.9)
      if not x64:
        kw['b2'] = min(kw['b2'], 0.95)
    return e

  def gen_outer(self, rng, caps):
    one = lambda pool: self.vary(rng, zoo.gen_named(
        rng, rng.choice(pool), caps), caps['x64'])
    if rng.random() < 0.75 or caps.get('accum'):  # bf16 noise: alone
      return one(self.pool)
    ms = [one(self.pool)]
    for _ in range(rng.randint(1, 2)):
      ms.insert(rng.randint(0, len(ms)), one(self.others))
    return ['chain', ms]

  others = ['trace', 'ema', 'add_decayed_weights', 'centralize', 'scale',
            'scale_by_schedule', 'scale_by_rss', 'scale_by_rms', 'sgd']

  def generate(self, rng, i, tier):
    x64 = rng.random() < self.dtypes64
    far = rng.random() < 0.02
    x64 = x64 or far
    eager = not far and rng.random() < 0.08
    steps = rng.randint(4, 8) if eager else self.gen_steps(rng, tier)
    if far:
      steps = rng.choice([700, 1200, 1500])
    caps = dict(horizon=steps, accum=None, x64=x64)
    if self.accums and not far and rng.random() < 0.5:
      caps['accum'] = ('f32', 'bf16') if x64 else ('bf16', 'f32')
    tx = self.stable(rng, self.gen_outer(rng, caps), x64)
    tree = trees.gen_tree(rng, ('f64',) if x64 else ('f32',), max_leaves=2 if far else 5, inits=self.inits)
    if 'sm3' in repr(tx) and rng.random() < 0.3:  # an accumulator per axis
      tree = trees.gen_tree(rng, ('f64',) if x64 else ('f32',), max_leaves=2,
                            shapes=trees.DEEP, inits=self.inits)
    prog = dict(tree=tree, tx=tx, x64=x64, mode='eager' if eager else 'jit')
    knobs = dict(steps=steps, p_crash=0.03, p_ckpt=0.15, p_stuck=0.04,
                 chunk=0 if eager else rng.choice([0, 0, 3, 5]), p_chunk=0.3)
    r = rng.random()
    if r < 0.2:  # so small that the epsilons matter
      knobs.update(exps=(-16, -9), p_tiny=0.0)
    elif r < 0.3:
      knobs.update(exps=(-4, 6))
    elif r < 0.75 and set(zoo.names(tx)) <= {
        'chain', 'scale_by_trust_ratio', 'scale'}:
      knobs.update(exps=(-46, -38), p_tiny=0.0)  # only the ratio matters
    if not x64:
      knobs['p_spike'] = 0.0
    if far:  # long memories need long runs
      for x in zoo.walk(tx):
        if x[0] != 'chain' and 'radam' not in x[0]:
          for k in ('b1', 'b2', 'decay', 'momentum'):
            if k in x[1] and x[1][k] not in (None, 1.0, 0.0) and \
                rng.random() < 0.7:
              x[1][k] = rng.choice([0.99, 0.999, 0.9999])
      knobs.update(p_crash=0.001, p_ckpt=0.01, chunk=50, p_chunk=0.6)
    knobs.update(self.knobs)
    return self.world(rng, prog, **knobs)

  accums = False
  inits = ('n', 'n', 'n', 'p', 'z')

  def stable(self, rng, e, x64):
    for x in zoo.walk(e):
      if x[0] == 'fromage' and not x64:
        x[1]['learning_rate'] = max(x[1]['learning_rate'], 0.1)
      if x[0] == 'scale_by_trust_ratio' and len(list(zoo.walk(e))) > 3:
        x[1]['min_norm'] = x[1].get('min_norm') or 1e-3
      if x[0] in ('lamb', 'fromage') and not isinstance(
          x[1]['learning_rate'], list) and x[1]['learning_rate'] > 0.8:
        x[1]['learning_rate'] = 0.7  # 1 maps to zero up to rounding
      if x[0] == 'lamb' and isinstance(x[1]['learning_rate'], list):
        x[1]['learning_rate'] = zoo.gen_sched(rng, 30, scale=0.6)
      if x[0] == 'scale_by_stddev' or x[1].get('centered') \
          if x[0] != 'chain' else False:
        if 'decay' in x[1]:
          x[1]['decay'] = max(x[1]['decay'], 0.1)
    return e

  def tol(self, prog):
    js = str(prog['tx'])
    if "'bf16'" in js:
      return 4e-2
    if prog['x64']:
      return 2e-5 if zoo.has_scheds(prog['tx']) or "'f32'" in js else 2e-9
    return 3e-4

  def run(self, prog, ctx):
    tx = prog['tx']
    for n in zoo.names(tx):
      ctx.op('tx_' + n)
    params = self.params(prog)
    oracle = ModelOracle(self, ctx, self.tol(prog))
    oracle.limit = 1e100 if prog['x64'] else 1e15
    w = World(prog, ctx, oracle, lambda: zoo.build(tx, prog['tree']),
              params_fn=lambda: params)
    oracle.fresh = lambda: OnTrees(models.make(tx))
    oracle.track = NumTrack(oracle.fresh(), params, w.grads)
    if any('yogi' in n for n in zoo.names(tx)):
      oracle.alt_fresh = lambda: OnTrees(models.make(tx, models.YogiAsIs))
      oracle.alt = NumTrack(oracle.alt_fresh(), params, w.grads)
      oracle.alt_what = ('yogi-second-moment', 'scale_by_yogi: the second '
                         'moment is b2*v + (1-b2)*g**4 instead of '
                         'v - (1-b2)*sign(v-g**2)*g**2')
    w.run()

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 5


@register
class P18(ModelProp):
  id = 'P18'
  pool = ['adam', 'adamw', 'adabelief', 'radam', 'yogi', 'scale_by_adam',
          'scale_by_belief', 'scale_by_radam', 'scale_by_yogi', 'adam',
          'adamw', 'radam']


@register
class P19(ModelProp):
  id = 'P19'
  accums = True
  pool = ['sgd', 'sgd', 'trace', 'ema', 'ema', 'rmsprop', 'rmsprop',
          'adagrad', 'sm3', 'scale_by_rss', 'scale_by_rms', 'scale_by_sm3',
          'scale_by_stddev', 'trace']


@register
class P20(ModelProp):
  id = 'P20'
  pool = ['scale_by_trust_ratio', 'lamb', 'fromage', 'add_decayed_weights',
          'centralize', 'adamw', 'lamb', 'fromage', 'scale_by_trust_ratio']
  others = ['trace', 'add_decayed_weights', 'centralize', 'scale', 'scale',
            'scale_by_adam']

  def vary(self, rng, e, x64):
    if e[0] == 'scale_by_trust_ratio' and rng.random() < 0.5:
      e[1]['min_norm'] = rng.choice([0.01, 0.25, 2.0, 16.0])
    if e[0] == 'scale_by_trust_ratio' and (
        not e[1].get('min_norm') or rng.random() < 0.6):
      # moving by exactly the norm of the parameters cancels them
      return ['chain', [e, ['scale', {'step_size': -0.3}]]]
    return super().vary(rng, e, x64)
