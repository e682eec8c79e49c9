"""Finite stays finite; NaNs are zeroed; non-negative parameters stay so."""
from sim.boot import np, jnp, jax, optax
from sim.base import Violation, wchoice
from sim import trees, zoo, cmp
from sim.engine import World, Oracle, Process, sut
from props.common import Prop, register


class FiniteOracle(Oracle):

  def __init__(self, ctx):
    self.ctx = ctx

  def start(self, node):
    cmp.need(cmp.finite(node.state), 'non-finite', 'initial or restored state')

  def step(self, node, pos, entry, g, s, p, u, s2, p2):
    self.ctx.check()
    cmp.need(cmp.finite(u), 'non-finite', f'update of step {pos}')
    cmp.need(cmp.finite(s2), 'non-finite', f'state after step {pos}')
    cmp.need(cmp.finite(p2), 'non-finite', f'parameters after step {pos}')


@register
class P21(Prop):
  id = 'P21'
  quick = 320
  method = ('long histories of lost, stuck, tiny, zero and spiked gradients '
            'with crashes; every update, state and parameter finite')
  note = 'sampled histories of up to 400 steps at sensible hyperparameters'
  rule = 'ten or more steps with gradient faults'
  assumptions = ['no float16; epsilons positive (but for adagrad); gradients below 2^20']

  ALIASES = ['adam', 'adamw', 'adabelief', 'adagrad', 'fromage', 'lamb',
             'radam', 'rmsprop', 'sgd', 'sm3', 'yogi', 'noisy_sgd', 'rmsprop',
             'adagrad', 'adabelief']
  PARTS = ['trace', 'ema', 'scale_by_rss', 'scale_by_rms', 'scale_by_stddev',
           'scale_by_adam', 'scale_by_belief', 'scale_by_yogi',
           'scale_by_radam', 'add_decayed_weights', 'scale_by_schedule',
           'scale_by_trust_ratio', 'apply_every', 'centralize',
           'scale_by_sm3', 'clip', 'clip_by_global_norm',
           'adaptive_grad_clip', 'add_noise']

  def sensible(self, rng, e):
    kw = e[1]
    n = e[0]
    if n in ('lamb', 'fromage'):
      kw['learning_rate'] = rng.choice([0.01, 0.001, 0.005])
    if n in ('adabelief', 'scale_by_belief') and 'eps' in kw:
      kw['eps'] = kw['eps'] or 1e-8
    if n in ('radam', 'scale_by_radam'):
      kw.setdefault('b2', rng.choice([0.9, 0.99, 0.999]))
    if n in ('rmsprop', 'scale_by_rms', 'scale_by_stddev') and rng.random(
    ) < 0.4:
      kw['decay'] = rng.choice([0.99, 0.999, 0.5, 0.0])
    if n in ('adagrad', 'scale_by_rss') and rng.random() < 0.35:
      # the root is guarded for elements that had no gradient yet
      kw['eps'], kw['initial_accumulator_value'] = 0.0, 0.0
    if kw.get('weight_decay', 0) > 0.1:
      kw['weight_decay'] = 0.1
    return e

  def one(self, rng, caps):
    if rng.random() < 0.6:
      e = self.sensible(rng, zoo.gen_named(rng, rng.choice(self.ALIASES),
                                           caps))
      if rng.random() < 0.2:
        pre = self.sensible(rng, zoo.gen_named(rng, rng.choice(
            ['clip', 'clip_by_global_norm', 'adaptive_grad_clip', 'centralize',
             'ema', 'trace']), caps))
        return ['chain', [pre, e]]
      return e
    parts = [self.sensible(rng, zoo.gen_named(rng, rng.choice(self.PARTS),
                                              caps))
             for _ in range(rng.choice([1, 1, 2, 3]))]
    return ['chain', parts + [['scale', {'step_size': -0.01}]]]

  def generate(self, rng, i, tier):
    kind = wchoice(rng, [(7, 'plain'), (1, 'guard'), (1, 'zero'),
                         (1, 'wrapped')])
    x64 = rng.random() < 0.2
    steps = rng.choice([200, 400]) if rng.random() < 0.12 else rng.randint(
        15, 60)
    caps = dict(horizon=steps, accum=None)
    tx = self.one(rng, caps)
    knobs = dict(steps=steps, p_crash=0.02, p_ckpt=0.08, p_lost=0.1,
                 p_stuck=0.06, p_spike=0.05, p_tiny=0.08, p_cancel=0.05,
                 chunk=rng.choice([0, 5, 10]), p_chunk=0.4)
    if rng.random() < 0.15:
      knobs['exps'] = (-60, -20)
    if rng.random() < 0.15:
      knobs['p_lost'] = 0.9
      knobs['keep'] = ('p_lost',)
    if kind == 'guard':
      tx = ['apply_if_finite', tx, 10**6]
      knobs['p_poison'] = 0.15
    elif kind == 'zero':
      tx = ['chain', [['zero_nans', {}], tx]]
      knobs['p_poison'] = 0.15
    elif kind == 'wrapped':
      w = rng.randrange(4)
      if w == 0:
        tx = ['multisteps', tx, zoo.gen_k(rng), rng.random() < 0.7]
      elif w == 1:
        tx = ['lookahead', tx, rng.randint(1, 5),
              rng.choice([0.5, 0.25, 1.0]), rng.random() < 0.5]
      elif w == 2:
        tx = ['maybe_update', tx, zoo.gen_pred(rng)]
      else:
        tx = ['masked', tx, zoo.gen_mask(rng)]
    dts = ('f64',) if x64 else rng.choice([('f32',), ('f32',), ('bf16',),
                                           ('f32', 'bf16')])
    if 'apply_if_finite' in zoo.names(tx) or kind == 'wrapped':
      dts = dts[:1]
    prog = dict(tree=trees.gen_tree(rng, dts, max_leaves=5,
                                    inits=('n', 'n', 'z', 'p', 'c')),
                tx=tx, x64=x64, mode='jit', what=kind)
    self.world(rng, prog, **knobs)
    if kind == 'zero':
      for e in prog['log']:
        if e.get('p'):
          e['p'] = [[a, b, 'nan'] for a, b, _ in e['p']]
    return prog

  def run(self, prog, ctx):
    tx = prog['tx']
    for n in zoo.names(tx):
      ctx.op('tx_' + n)
    ctx.op('case_' + prog['what'])
    base = trees.to_jnp(trees.params_tree(prog['tree']))
    pfn = lambda: (optax.LookaheadParams.init_synced(base)
                   if zoo.uses_lookahead(tx) else base)
    World(prog, ctx, FiniteOracle(ctx), lambda: zoo.build(tx, prog['tree']),
          params_fn=pfn).run()

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 10 and bool(ctx.faults)


class ConstrainOracle(Oracle):

  def __init__(self, prog, ctx):
    self.prog, self.ctx = prog, ctx
    tx = prog['tx']
    self.shadow = None
    if prog['what'] == 'nonneg':
      inner = ['chain', tx[1][:-1]]
      if len(tx[1]) > 1:
        self.shadow = Process(lambda: zoo.build(inner, prog['tree']))

  def start(self, node):
    if self.prog['what'] == 'zero' and node.pos == 0:
      for f in trees.leaves(self.found(node.state)):
        if np.asarray(f).shape != () or np.asarray(f):
          raise Violation('report', f'found_nan is {f} before any update')

  def found(self, s):
    return (s[0] if self.prog['tx'][0] == 'chain' else s).found_nan

  def step(self, node, pos, entry, g, s, p, u, s2, p2):
    self.ctx.check()
    (self.zero if self.prog['what'] == 'zero' else self.nonneg)(
        pos, g, s, p, u, s2, p2)

  def zero(self, pos, g, s, p, u, s2, p2):
    f = self.found(s2)
    if trees.structure(f) != trees.structure(g):
      raise Violation('report', f'found_nan has structure '
                      f'{trees.structure(f)}')
    for n, (a, b) in enumerate(zip(trees.leaves(g), trees.leaves(f))):
      want = bool(np.isnan(np.asarray(a).astype(np.float64)).any())
      b = np.asarray(b)
      if b.shape != () or b.dtype != bool or bool(b) != want:
        raise Violation('report', f'step {pos}, leaf {n}: found_nan is {b}, '
                        f'the gradient {"has a" if want else "has no"} NaN')
    if self.prog['tx'][0] == 'chain':
      return
    want = jax.tree_util.tree_map(
        lambda x: np.where(np.isnan(np.asarray(x).astype(np.float64)),
                           np.zeros_like(np.asarray(x)), np.asarray(x)), g)
    cmp.need(cmp.same_bits(u, want), 'wrong-updates', f'step {pos}')

  def nonneg(self, pos, g, s, p, u, s2, p2):
    for n, x in enumerate(trees.leaves(p2)):
      x = np.asarray(x).astype(np.float64)
      if not (x >= 0).all():
        raise Violation('negative', f'parameters after step {pos}, leaf {n}: '
                        f'{cmp._show(x)}')
    if self.shadow is None:
      ui = g
    else:
      ui = self.shadow.jit(g, s[:-1], p)[0]
    for n, (a, b, c, d) in enumerate(zip(*map(trees.leaves,
                                              (p, ui, u, p2)))):
      dt = str(np.asarray(a).dtype)
      eps = {'float32': 1e-5, 'float64': 1e-12, 'bfloat16': 0.03}[dt]
      if eps == 1e-12 and zoo.has_scheds(self.prog['tx']):
        eps = 1e-5  # schedules compute in float32 even then
      a, b, c, d = (np.asarray(x).astype(np.float64) for x in (a, b, c, d))
      tol = eps * (np.abs(a) + np.abs(b)) + 1e-35
      if a.size and self.shadow is not None:
        # the shadow is compiled separately: rounding differs
        tol = tol + eps * np.max(np.abs(b))
      clear, under = a + b > tol, a + b < -tol
      if self.shadow is None:
        bad = (c != b) & clear
      else:
        bad = (np.abs(c - b) > tol) & clear
      if bad.any():
        raise Violation('changed', f'step {pos}, leaf {n}: update '
                        f'{cmp._show(b)} became {cmp._show(c)} for parameters '
                        f'{cmp._show(a)}')
      if (under & (d != 0)).any():
        raise Violation('not-zero', f'step {pos}, leaf {n}: parameters '
                        f'{cmp._show(d)} from {cmp._show(a)} + {cmp._show(b)}')
      if (under & (np.abs(c + a) > tol)).any():
        raise Violation('changed', f'step {pos}, leaf {n}: update '
                        f'{cmp._show(c)} does not take {cmp._show(a)} to zero')
      if under.any():
        self.ctx.probe('constraint_active')


@register
class P23(Prop):
  id = 'P23'
  quick = 300
  method = ('poisoned gradient streams and crashes; zeroed elements, reports '
            'and constrained parameters checked at every step')
  note = 'sampled histories, trees, optimizers in front, NaN placements'
  rule = 'five or more steps with gradient faults or crashes'

  def generate(self, rng, i, tier):
    what = 'zero' if rng.random() < 0.4 else 'nonneg'
    steps = rng.randint(8, 50)
    x64 = rng.random() < 0.25
    caps = dict(horizon=steps, avoid=['keep_params_nonnegative'],
                lookahead=False, accum=None)
    knobs = dict(steps=steps, p_crash=0.04, p_ckpt=0.15,
                 chunk=rng.choice([0, 4]), p_chunk=0.3)
    dts = ('f64',) if x64 else rng.choice([('f32',), ('f32', 'bf16')])
    if what == 'zero':
      tx = ['zero_nans', {}]
      if rng.random() < 0.3:
        tx = ['chain', [tx, zoo.gen_base(rng, caps)]]
        dts = dts[:1]
      knobs.update(p_poison=rng.choice([0.1, 0.3, 0.7]), keep=('p_poison',))
      tree = trees.gen_tree(rng, dts + (('f16',) if len(dts) > 1 else ()),
                            max_leaves=6)
      if rng.random() < 0.25:  # wide leaves, reported as a whole
        tree = trees.gen_tree(rng, dts, max_leaves=3, shapes=[
            (700,), (30, 20), (1025,), (5000,), (2, 3), (4, 70, 5)])
    else:
      pre = []
      if rng.random() < 0.85:
        pre = [zoo.gen_tx(rng, caps, 1) for _ in range(rng.choice([1, 1, 2]))]
        dts = dts[:1]
      tx = ['chain', pre + [['keep_params_nonnegative', {}]]]
      tree = trees.gen_tree(rng, dts, max_leaves=6,
                            inits=('p', 'p', 'z', 'c'))
    prog = dict(tree=tree, tx=tx, x64=x64, mode='jit', what=what)
    if what == 'nonneg' and rng.random() < 0.1:
      prog['mode'] = 'eager'
      knobs['steps'] = rng.randint(4, 8)
      knobs['chunk'] = 0
    self.world(rng, prog, **knobs)
    if what == 'zero':  # anywhere in a wide leaf
      for e in prog['log']:
        if e.get('p'):
          e['p'] = [[a, b * 83, c] for a, b, c in e['p']]
    return prog

  def run(self, prog, ctx):
    tx = prog['tx']
    for n in zoo.names(tx):
      ctx.op('tx_' + n)
    World(prog, ctx, ConstrainOracle(prog, ctx),
          lambda: zoo.build(tx, prog['tree'])).run()

  def shrink(self, prog):
    for c in super().shrink(prog):
      if c['what'] == 'nonneg' and (
          c['tx'][0] != 'chain' or not c['tx'][1]
          or c['tx'][1][-1][0] != 'keep_params_nonnegative'):
        continue
      if c['what'] == 'zero' and 'zero_nans' not in (
          c['tx'][0], c['tx'][1][0][0] if c['tx'][0] == 'chain' and c['tx'][1]
          else ''):
        continue
      yield c
