"""P30: what happens to one parameter stays with it."""
import json

from sim.boot import np, jnp, jax, optax
from sim.base import Violation, wchoice
from sim import trees, zoo, cmp
from sim.engine import World, Oracle, Process, sut
from props.common import Prop, register, _chunks_removed
from props.p_p01 import Golden

# documented to combine all leaves
GLOBAL = {'clip_by_global_norm', 'apply_if_finite', 'scaled_adam'}
# documented to combine the elements of a leaf
LEAF = {'adaptive_grad_clip', 'centralize', 'scale_by_trust_ratio', 'lamb',
        'fromage', 'sm3', 'scale_by_sm3'}
# compiled even if called eagerly, so rounding may differ between layouts
COMPILED = {'multisteps', 'maybe_update', 'lookahead', 'radam',
            'scale_by_radam', 'noisy_sgd', 'add_noise', 'flatten'}
BAD = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf, 'huge': 2.0**60,
       'tiny': 2.0**-100, 'zero': 0.0}


def reach(tx):
  n = set(zoo.names(tx))
  if n & GLOBAL:
    return 'all'
  return 'leaf' if n & LEAF else 'elem'


class ApartOracle(Oracle):

  def __init__(self, golden, prog, ctx):
    self.g, self.prog, self.ctx = golden, prog, ctx
    ls = trees.leaf_specs(prog['tree'])
    self.n = len(ls)
    self.v = prog['victim'] % self.n

  def compare(self, what, a, b, pos):
    a, b = trees.leaves(a), trees.leaves(b)
    if len(a) != len(b):
      raise Violation('structure', f'{what}: {len(a)} leaves, not {len(b)}')
    for i, (x, y) in enumerate(zip(a, b)):
      x, y = np.asarray(x), np.asarray(y)
      if i % self.n == self.v:  # lookahead has the leaves twice
        m = self.prog['elems']
        if m is None:
          continue
        keep = ~victims(x.shape, m)
        x, y = x[keep], y[keep]
      cmp.need(cmp.same_bits(x, y), 'affected-' + what,
               f'step {pos}: leaf {i} changed with leaf {self.v}')

  def step(self, node, pos, entry, g, s, p, u, s2, p2):
    u0, s0, p0 = self.g.at(pos)
    self.ctx.check()
    self.compare('updates', u, u0, pos)
    self.compare('params', p2, p0, pos)


def victims(shape, m):
  """Which elements of the victim leaf are disturbed."""
  n = int(np.prod(shape, dtype=int))
  k = (np.arange(n) * 7 + m[1]) % m[0] == 0
  return k.reshape(shape)


@register
class P30(Prop):
  id = 'P30'
  quick = 380
  method = ('one leaf, or some elements of it, corrupted, lost, replaced or '
            'dropped, with crashes, against the undisturbed run: all other '
            'parameters bit by bit; trees rearranged')
  note = ('sampled compositions without members documented to combine '
          'leaves; rearranged trees compared in uncompiled execution')
  rule = 'five or more steps after the first disturbance'

  def generate(self, rng, i, tier):
    x64 = rng.random() < 0.15
    dts = ('f64',) if x64 else (rng.choice(['f32', 'f32', 'f32', 'bf16']),)
    again = rng.random() < 0.3   # the tree is rearranged
    steps = rng.randint(5, 9) if again else rng.randint(10, 40)
    caps = dict(horizon=steps, accum=None)
    caps['avoid'] = GLOBAL | (COMPILED if again else set())
    if dts[0] == 'bf16':
      caps['inject'] = False
    if again:
      caps['lookahead'] = False
    while True:
      tx = zoo.gen_tx(rng, dict(caps, noise=not again))
      names = set(zoo.names(tx))
      r = reach(tx)
      if r == 'all' or 'flatten' in names and (r == 'leaf' or again):
        continue
      if again and (names & COMPILED or any(
          e[0] == 'masked' and e[2][0] != 'ndim' for e in zoo.walk(tx)) or
                    'masked_decay' in names):
        continue
      break
    prog = dict(tree=trees.gen_tree(rng, dts, max_leaves=5, min_leaves=2),
                tx=tx, x64=x64, mode='eager' if again else 'jit',
                again=again, victim=rng.randrange(16), elems=None)
    if reach(tx) == 'elem' and rng.random() < 0.6:
      prog['elems'] = [rng.choice([2, 2, 3, 5]), rng.randrange(5)]
    kinds = ((6, 'n'), (1, 'sp'))
    knobs = dict(steps=steps, kinds=kinds, p_crash=0.05, p_ckpt=0.2)
    if again:
      knobs.update(p_crash=0.0, p_ckpt=0.0)
      prog['shape'] = rng.randrange(1 << 24)
      prog['drop'] = rng.random() < 0.5
    self.world(rng, prog, **knobs)
    if not again:
      many = rng.random() < 0.3
      what = rng.choice([['nan'], ['nan', 'inf', '-inf'], ['huge'], ['zero'],
                         ['other'], list(BAD) + ['other']])
      hurt = {}
      for j in range(steps):
        if rng.random() < (0.6 if many else 0.12) or j == 1:
          hurt[str(j)] = [rng.choice(what), rng.randrange(1 << 20)]
      prog['hurt'] = hurt
      prog['init'] = rng.choice([None, None, 'other'])
    return prog

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 5

  # -------------------------------------------------------------- execution
  def run(self, prog, ctx):
    for n in zoo.names(prog['tx']):
      ctx.op('tx_' + n)
    ctx.op('reach_' + reach(prog['tx']))
    if prog['again']:
      return self.rearranged(prog, ctx)
    spec = prog['tree']
    make = lambda: zoo.build(prog['tx'], spec)
    ls = trees.leaf_specs(spec)
    v = prog['victim'] % len(ls)
    la = zoo.uses_lookahead(prog['tx'])

    def params(hurt):
      def leaf(l):
        x = trees.param_value(l)
        if hurt and prog['init'] and l[1] == ls[v][1]:
          x = self.disturb(prog, x, ['other', 5])
        return x
      p = trees.to_jnp(trees.build(spec, leaf))
      return optax.LookaheadParams.init_synced(p) if la else p

    def grads(pos):
      h = prog['hurt'].get(str(pos))
      g = trees.grads_tree(spec, prog['log'][pos])
      if h is None:
        return g
      flat, td = jax.tree_util.tree_flatten(g)
      flat[v] = self.disturb(prog, flat[v], h)
      ctx.fault('disturb_' + h[0])
      return jax.tree_util.tree_unflatten(td, flat)
    clean = {}

    def plain(pos):
      if pos not in clean:
        clean[pos] = trees.to_jnp(trees.grads_tree(spec, prog['log'][pos]))
      return clean[pos]
    golden = Golden(make, params(False), plain, prog['mode'])
    oracle = ApartOracle(golden, prog, ctx)
    World(prog, ctx, oracle, make, fresh=True, grads_fn=grads,
          params_fn=lambda: params(True)).run()

  def disturb(self, prog, x, h):
    if h[0] == 'other':
      y = trees._normal(('h', h[1]), x.shape) * 4.0
    else:
      y = np.full(x.shape, BAD[h[0]])
    y = np.asarray(y, x.dtype)
    if prog['elems'] is None:
      return y
    return np.where(victims(x.shape, prog['elems']), y, x)

  def rearranged(self, prog, ctx):
    """The same leaves in another tree."""
    spec = prog['tree']
    ls = trees.leaf_specs(spec)
    rs = np.random.RandomState(prog['shape'])
    order = [ls[k] for k in rs.permutation(len(ls))]
    if prog['drop'] and len(order) > 1:
      order = order[:-1]
      ctx.fault('leaf_dropped')
    ctx.fault('tree_rearranged')
    form = rs.randint(3)
    if len(order) == 1 and form == 0:
      other = order[0]
    elif form == 1:
      other = ['D', {'k%02d' % i: ['A', [l]] for i, l in enumerate(order)}]
    else:
      other = ['T' if form else 'A', order]
    runs = []
    for t in (spec, other):
      proc = Process(lambda: zoo.build(prog['tx'], t))
      p = trees.to_jnp(trees.params_tree(t))
      runs.append([t, proc, p, sut(proc.tx.init, p)])
    where = {l[1]: i for i, l in enumerate(ls)}
    for pos, e in enumerate(prog['log']):
      out = []
      for r in runs:
        g = trees.to_jnp(trees.grads_tree(r[0], e))
        u, r[3], r[2] = r[1].eager(g, r[3], r[2])
        out.append((trees.leaves(u), trees.leaves(r[2])))
      ctx.steps += 1
      ctx.check()
      ctx.sig(pos, len(order))
      ctx.log('step', pos, trees.digest(out[0][0]))
      for k, what in ((0, 'updates'), (1, 'params')):
        for j, l in enumerate(order):
          cmp.need(cmp.same_bits(np.asarray(out[1][k][j]),
                                 np.asarray(out[0][k][where[l[1]]])),
                   'layout-' + what, f'step {pos}: leaf {l[1]} differs in '
                   'another tree')

  def shrink_more(self, prog):
    if not prog['again']:
      hs = sorted(prog['hurt'])
      for c in _chunks_removed(hs):
        yield dict(prog, hurt={k: prog['hurt'][k] for k in c})
      if prog['init']:
        yield dict(prog, init=None)
