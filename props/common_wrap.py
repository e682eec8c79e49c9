"""Checks against the reference interpreter: base of the wrapper properties."""
import contextlib

from sim.boot import np, jnp, jax, optax, set_x64
from sim.base import Violation
from sim import trees, zoo, cmp, ref, models
from sim.engine import World, Oracle, sut
from props.common import Prop
from props.common_clock import Clocked

STIFF = ['scale_by_stddev']


def tame(e):
  """Removes settings that amplify rounding without bound."""
  for x in zoo.walk(e):
    name = x[1] if x[0] == 'inject' else x[0]
    kw = x[2] if x[0] == 'inject' else (x[1] if len(x) > 1 else {})
    if name == 'rmsprop':
      kw.pop('centered', None)
    if name in ('adabelief', 'scale_by_belief'):
      kw['eps'] = 0.01
    if name in ('radam', 'scale_by_radam'):
      kw.setdefault('b2', 0.9)  # 1 - b2**t cancels otherwise
    if name == 'scale_by_trust_ratio':
      kw['min_norm'] = kw.get('min_norm') or 1e-3
    if name in ('lamb', 'fromage') and kw['learning_rate'] == 1.0:
      kw['learning_rate'] = 0.5  # maps parameters to zero up to rounding
  return e


class Track:
  """The reference trajectory, computed once, read at any position."""

  def __init__(self, model, params, grads, writes=None):
    self.m = model
    self.p0 = params
    self.p, self.s = params, model.init(params)
    self.s0 = self.s
    self.grads = grads
    self.out = []
    self.hist = None
    self.writes = writes

  def at(self, pos):
    while len(self.out) <= pos:
      i = len(self.out)
      if self.writes is not None:
        self.s = self.writes(i, self.s)
      g = self.grads(i)
      u, self.s = self.m.update(g, self.s, self.p)
      self.p = self.add(self.p, u)
      self.out.append((trees.to_np(u), self.s, trees.to_np(self.p)))
    return self.out[pos]

  def add(self, p, u):
    return jax.tree_util.tree_map(
        lambda a, b: jnp.asarray(a + b, jnp.asarray(a).dtype), p, u)

  def state_before(self, pos):
    return self.s0 if pos == 0 else self.at(pos - 1)[1]


class NumTrack(Track):
  """The trajectory of a NumPy model, in float64 whatever the run uses."""

  def add(self, p, u):
    def f(a, b):
      a = np.asarray(a, np.float64)
      c = a + b
      if models.NOISE:  # a sum is rounded relative to its terms
        c = c + (np.abs(a) + np.abs(b)) * models.noise(c.shape)
      return c
    return jax.tree_util.tree_map(f, p, u)


@contextlib.contextmanager
def rounding_noise(eps, k):
  models.NOISE[:] = [4 * eps, np.random.RandomState(k)]
  try:
    yield
  finally:
    models.NOISE[:] = []


class OnTrees:
  """Lets a model on lists of leaves run on trees."""

  def __init__(self, model):
    self.m = model

  @staticmethod
  def flat(t):
    return [np.asarray(x).astype(np.float64) for x in trees.leaves(t)]

  def init(self, p):
    return self.m.init(self.flat(p))

  def update(self, g, s, p):
    u, s = self.m.update(self.flat(g), s, self.flat(p))
    return jax.tree_util.tree_unflatten(trees.structure(g), u), s


class RefOracle(Oracle):

  def __init__(self, prop, ctx, tol):
    self.prop, self.ctx, self.tol = prop, ctx, tol
    self.looked, self.first_bad, self.maxes = 0, None, False
    self.big = []  # per position: running maximum of |u| per leaf

  def scales(self, pos):
    while len(self.big) <= pos:
      i = len(self.big)
      u, _, p = self.track.at(i)
      row = []
      for n, (x, y) in enumerate(zip(trees.leaves(u), trees.leaves(p))):
        a = np.abs(np.asarray(x, np.float64))
        if self.world.program['tx'][0] == 'lookahead':  # moves by differences
          a = np.append(a, np.abs(np.asarray(y, np.float64)))
        a = a[np.isfinite(a)]
        m = float(a.max()) if a.size else 0.0
        if i:
          m = max(m, self.big[i - 1][n])
        row.append(m)
      self.big.append(row)
    return self.big[pos]

  def lost(self, pos):
    """Whether the result may depend on how max() treats a past NaN."""
    if not self.maxes:
      return False
    if self.first_bad is None:
      for i in range(self.looked, pos + 1):
        if cmp.finite(self.track.at(i)[0]) or cmp.finite(self.track.at(i)[2]):
          self.first_bad = i
          break
      self.looked = max(self.looked, pos + 1)
    return self.first_bad is not None and pos >= self.first_bad

  def agree(self, actual, expected, pos, kind):
    la, le = trees.leaves(actual), trees.leaves(expected)
    if len(la) != len(le):
      raise Violation(kind, f'{len(la)} leaves instead of {len(le)}')
    for n, (a, e, sc) in enumerate(zip(la, le, self.scales(pos))):
      cmp.need(cmp.close(a, e, self.tol, atol=self.tol * sc + 1e-30),
               kind, f'step {pos}, leaf {n}')

  def step(self, node, pos, entry, g, s, p, u, s2, p2):
    u0, s0, p0 = self.track.at(pos)
    self.ctx.check()
    self.prop.counters(self, node, pos, entry, s, s2, s0, u, g)
    if self.lost(pos):
      return
    try:
      self.values(pos, u, u0, p2, p0)
    except Violation:
      if not self.rounding(pos, u, u0, p2, p0):
        raise
      self.ctx.probe('undecided_ill_conditioned')
      self.maxes, self.first_bad = True, 0

  def rounding(self, pos, u, u0, p2, p0):
    """Whether changing the inputs by rounding errors explains it."""
    eps = 2.0**-50 if self.tol < 1e-7 else 2.0**-22
    other = []
    for k in range(3):
      t = type(self.track)(self.fresh(), trees.to_jnp(cmp.perturbed(
          trees.to_np(self.track.p0), eps, k)), lambda i: trees.to_jnp(
              cmp.perturbed(trees.to_np(self.track.grads(i)), eps, 97 * k + i)),
                self.track.writes)
      with rounding_noise(eps, k):
        other.append(t.at(pos))
    sc = [x * self.tol for x in self.scales(pos)]
    return cmp.explained(u, u0, [o[0] for o in other], 30, self.tol, sc) and \
        cmp.explained(p2, p0, [o[2] for o in other], 30, self.tol * 4,
                      [4 * x for x in sc])

  def values(self, pos, u, u0, p2, p0):
    self.agree(u, u0, pos, 'wrong-updates')
    for n, (a, e, sc) in enumerate(zip(
        trees.leaves(p2), trees.leaves(p0), self.scales(pos))):
      cmp.need(cmp.close(a, e, self.tol * 4, atol=self.tol * 4 * sc + 1e-30),
               'wrong-params', f'after step {pos}, leaf {n}')


class WrapProp(Clocked, Prop):
  """prog: tree, tx (the wrapper under test outermost), x64, mode."""
  knobs = {}
  dtypes64 = 0.6
  max_steps = 48
  caps = {}
  far = 0.0  # share of runs with periods beyond 127 steps
  clocks = ()  # user functions of the count, see common_clock

  def gen_inner(self, rng, caps, depth=1):
    """Inner transformation: a probe, a plain optimizer or a composition."""
    r = rng.random()
    if r < 0.3:
      return zoo.gen_probe(rng, caps)
    if r < 0.75:
      return zoo.gen_base(rng, caps)
    return zoo.gen_tx(rng, caps, depth)

  def gen_outer(self, rng, caps):
    raise NotImplementedError

  def period(self, rng, steps):
    return rng.choice([k for k in (100, 127, 128, 129, 130, 150, 255, 256, 257,
                                   300) if k < steps])

  def gen_far(self, rng, caps, steps):
    """The wrapper with a period of hundreds of steps, around a light one."""
    r = rng.random()
    inner = zoo.gen_probe(rng, caps) if r < 0.4 else zoo.gen_base(
        rng, dict(caps, accum=None, only=('sgd', 'scale', 'ema', 'adam')))
    return self.far_outer(rng, inner, self.period(rng, steps))

  def gen_steps(self, rng, tier):
    if rng.random() < 0.06:
      return rng.choice([150, 300])
    return rng.randint(8, self.max_steps)

  def generate(self, rng, i, tier):
    if self.clocks and i % 16 == 7:
      return self.generate_clock(rng, self.clocks)
    x64 = rng.random() < self.dtypes64
    far = rng.random() < self.far
    steps = rng.choice([300, 400, 600]) if far else self.gen_steps(rng, tier)
    eager = rng.random() < 0.12 and steps <= 48
    if eager:
      steps = rng.randint(5, 9)
    caps = dict(horizon=steps, avoid=STIFF, lookahead=False)
    caps.update(self.caps)
    tree = trees.gen_tree(rng, ('f64',) if x64 else ('f32',),
                          max_leaves=2 if far else 4 if eager else 6)
    tx = tame(self.gen_far(rng, caps, steps) if far else
              self.gen_outer(rng, caps))
    prog = dict(tree=tree, tx=tx, x64=x64, mode='eager' if eager else 'jit')
    knobs = dict(steps=steps, p_crash=0.03, p_ckpt=0.15, chunk=0 if eager
                 else rng.choice([0, 0, 3, 5]), p_chunk=0.3)
    if not x64:
      knobs.update(p_spike=0.0)
    knobs.update(self.knobs)
    if far:
      knobs.update(p_crash=1.5 / steps, p_ckpt=0.03, chunk=20, p_chunk=0.5,
                   p_poison=min(knobs.get('p_poison', 0), 1 / steps))
    self.tune(rng, knobs, prog)
    return self.world(rng, prog, **knobs)

  def execute(self, prog, ctx):
    if 'clock' in prog:
      set_x64(prog['x64'])
      return self.run_clock(prog, ctx)
    return super().execute(prog, ctx)

  def tune(self, rng, knobs, prog):
    pass

  def counters(self, oracle, node, pos, entry, s, s2, ref_state, u, g):
    pass

  def params(self, prog):
    return trees.to_jnp(trees.params_tree(prog['tree']))

  def tol(self, prog):
    if prog['x64']:  # schedules compute in float32 even then
      return 2e-5 if zoo.has_scheds(prog['tx']) else 2e-9
    return 1e-4

  def run(self, prog, ctx):
    tx = prog['tx']
    for n in zoo.names(tx):
      ctx.op('tx_' + n)
    params = self.params(prog)
    oracle = RefOracle(self, ctx, self.tol(prog))
    oracle.maxes = any('sm3' in n for n in zoo.names(tx))
    w = World(prog, ctx, oracle, lambda: zoo.build(tx, prog['tree']),
              params_fn=lambda: params, before_step=self.before(prog))
    oracle.fresh = lambda: ref.make(tx, prog['tree'],
                                    jit=len(prog['log']) > 12)
    oracle.track = Track(oracle.fresh(), params, w.grads, self.writes(prog))
    w.run()

  def before(self, prog):
    return None

  def writes(self, prog):
    return None
