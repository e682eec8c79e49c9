"""Lookahead, injected hyperparameters and scheduled learning rates."""
from sim.boot import np, jnp, jax, optax
from sim.base import Violation
from sim import trees, zoo, cmp, ref
from sim.engine import sut
from props.common import register
from props.common_wrap import WrapProp
from props.p_p06_p07_p08_p09_p10_p12_p13 import need_eq


@register
class P11(WrapProp):
  id = 'P11'
  quick = 400
  rule = 'at least two synchronisations, 5 or more compared steps'
  knobs = dict(p_poison=0.01)
  far = 0.03

  def far_outer(self, rng, inner, k):
    return ['lookahead', inner, k, rng.choice([0.5, 0.25, 1.0, 0.8]),
            rng.random() < 0.5]

  def gen_outer(self, rng, caps):
    inner = self.gen_inner(rng, dict(caps, accum=None))
    return ['lookahead', inner, rng.choice([1, 2, 3, 4, 5, 7, 11]),
            rng.choice([0.5, 0.25, 1.0, 0.0, 0.8]), rng.random() < 0.5]

  def params(self, prog):
    p = trees.params_tree(prog['tree'])
    if prog.get('apart'):
      slow = jax.tree_util.tree_map(lambda x: x * 0.5, p)
      return trees.to_jnp(optax.LookaheadParams(fast=p, slow=slow))
    return sut(optax.LookaheadParams.init_synced, trees.to_jnp(p))

  def tune(self, rng, knobs, prog):
    prog['apart'] = rng.random() < 0.2

  def counters(self, oracle, node, pos, entry, s, s2, ref_state, u, g):
    n, inner = ref_state
    w = f'step {pos}'
    need_eq(s2.steps_since_sync, n, 'steps_since_sync', w)
    e = oracle.world.program['tx']
    if n:
      oracle.ctx.probe('between_syncs')
      for x in trees.leaves(u.slow):
        if np.any(np.asarray(x) != 0):
          raise Violation('slow-moved', f'{w}: {x}')
    else:
      oracle.ctx.probe('sync')
      if e[4]:
        tx = zoo.build(e[1], oracle.world.program['tree'])
        oracle.ctx.probe('reset')
        oracle.ctx.check()
        first = oracle.__dict__.setdefault(
            'first_state', trees.to_np(sut(tx.init, self.params(
                oracle.world.program).fast)))
        now = trees.to_np(s2.fast_state)
        if zoo.has_scheds(e[1]):  # evaluated once compiled, once not
          cmp.need(None if trees.structure(now) == trees.structure(first)
                   else 'another structure', 'not-reset', w)
          cmp.need(cmp.close(now, first, 1e-5, 1e-6), 'not-reset', w)
        else:
          cmp.need(cmp.same_bits(now, first), 'not-reset', w)

  def run(self, prog, ctx):
    super().run(prog, ctx)
    tx = sut(zoo.build, prog['tx'], prog['tree'])
    p = self.params(prog)
    ctx.check()
    cmp.need(cmp.same_bits(trees.to_np(sut(tx.init, p)),
                           trees.to_np(sut(tx.init, p.fast))), 'init')

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 5 and ctx.probes.get('sync', 0) >= 2


@register
class P14(WrapProp):
  id = 'P14'
  clocks = ('inject',)
  quick = 400
  rule = 'a scheduled or rewritten hyperparameter, 5 or more compared steps'
  caps = dict(custom=True, accum=None)
  knobs = dict(p_poison=0.0)

  INTS = {'learning_rate': [1], 'step_size': [-1, 2], 'max_norm': [1, 4],
          'max_delta': [1, 3], 'norm': [1, 2], 'weight_decay': [0]}

  def gen_outer(self, rng, caps):
    e = zoo.gen_inject(rng, caps)
    kw = dict(e[2])
    for k in self.WRITE:  # numbers come in many forms
      if type(kw.get(k)) in (int, float) and rng.random() < 0.3:
        if k in self.INTS and rng.random() < 0.6:
          kw[k] = ['num', rng.choice(['int', 'npint', 'dev', 'arr']),
                   rng.choice(self.INTS[k])]
        else:
          kw[k] = ['num', rng.choice(['np32', 'np64', 'dev', 'arr']),
                   float(kw[k])]
    return e[:2] + [kw] + e[3:]

  WRITE = {'learning_rate': [0.5, 0.125, 0.01], 'b1': [0.5, 0.9, 0.75],
           'b2': [0.5, 0.9, 0.99], 'decay': [0.5, 0.9], 'eps': [1e-4, 1e-3],
           'weight_decay': [0.1, 0.5, 0.01], 'step_size': [-0.5, 2.0],
           'max_norm': [0.5, 2.0], 'max_delta': [0.25, 1.0],
           'norm': [0.5, 2.0], 'momentum': [0.5, 0.75]}

  def tune(self, rng, knobs, prog):
    steps = knobs['steps']
    writes = {}
    kw = prog['tx'][2]
    names = [k for k in self.WRITE if k in kw and not (
        prog['tx'][1] in ('rmsprop', 'sgd') and k == 'momentum')]
    sched = [k for k in names if isinstance(kw[k], list) and
             kw[k][0] == 'sched']
    if names:
      for _ in range(rng.choice([0, 1, 2, 4, 8])):
        k = rng.choice(names)
        writes.setdefault(str(rng.randrange(steps)), []).append(
            [k, rng.choice(self.WRITE[k]),
             rng.choice(['py', 'dev', 'np', 'new'])])
    prog['writes'] = writes
    if writes:
      knobs['chunk'] = 0  # nobody can write in the middle of a compiled loop
    prog['what'] = bool(writes or sched)

  def before(self, prog):
    def write(node, pos):
      for k, v, how in prog.get('writes', {}).get(str(pos), ()):
        hp = node.state.hyperparams
        if k not in hp:
          raise Violation('missing-hyperparam', k)
        dt = np.asarray(hp[k]).dtype
        if dt.kind != 'f':
          dt = np.dtype('float64' if prog['x64'] else 'float32')
        node.w.ctx.op('hyperparam_write')
        if how == 'new':
          node.state = node.state._replace(
              hyperparams=dict(hp, **{k: jnp.asarray(v, dt)})) if hasattr(
                  node.state, '_replace') else node.state
          if not hasattr(node.state, '_replace'):
            hp[k] = jnp.asarray(v, dt)
        else:
          hp[k] = {'py': v, 'dev': jnp.asarray(v, dt),
                   'np': np.asarray(v, dt)}[how]
    return write

  def writes(self, prog):
    def write(pos, s):
      ws = prog.get('writes', {}).get(str(pos), ())
      if not ws:
        return s
      n, hp, inner = s
      hp = dict(hp)
      for k, v, _ in ws:
        hp[k] = v
      return (n, hp, inner)
    return write

  def counters(self, oracle, node, pos, entry, s, s2, ref_state, u, g):
    n, hp, _ = ref_state
    need_eq(s2.count, n, 'count', f'step {pos}')
    for k, v in hp.items():
      if k not in s2.hyperparams:
        raise Violation('missing-hyperparam', k)
      oracle.ctx.check()
      cmp.need(cmp.close(np.asarray(s2.hyperparams[k]),
                         np.asarray(v, np.float64), 3e-6, 1e-7),
               'reported-value', f'step {pos}, {k}')
    if oracle.world.program.get('what'):
      oracle.ctx.probe('step_with_varying_values')

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 5 and ('clock' in prog or prog.get('what'))


@register
class P15(WrapProp):
  id = 'P15'
  clocks = ('schedule', 'sgd')
  quick = 400
  rule = 'a schedule that is not constant, 5 or more compared steps'
  max_steps = 60
  dtypes64 = 0.5
  knobs = dict(p_poison=0.004)
  SCHEDULED = ['adam', 'adamw', 'adabelief', 'adagrad', 'lamb', 'noisy_sgd',
               'radam', 'rmsprop', 'sgd', 'yogi']

  def gen_leaf(self, rng, caps):
    if rng.random() < 0.3:
      return zoo.gen_named(rng, 'scale_by_schedule', caps)
    e = zoo.gen_named(rng, rng.choice(self.SCHEDULED), caps)
    e[1]['learning_rate'] = zoo.gen_sched(rng, caps['horizon'], scale=0.5)
    return e

  def gen_outer(self, rng, caps):
    e = self.gen_leaf(rng, caps)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
      w = rng.randrange(7)
      if w == 0:
        ms = [self.gen_inner(rng, dict(caps, reshaped=True, flatten=False), 2)
              for _ in range(rng.randint(1, 2))]
        ms.insert(rng.randint(0, len(ms)), e)
        if rng.random() < 0.3:
          ms.append(self.gen_leaf(rng, caps))
        e = ['chain', ms]
      elif w == 1:
        e = ['masked', e, ['fn', rng.getrandbits(30)]]
      elif w == 2:
        e = ['multisteps', e, zoo.gen_k(rng), True]
      elif w == 3:
        e = ['maybe_update', e, zoo.gen_pred(rng)]
      elif w == 4:
        e = ['apply_if_finite', e, rng.randint(0, 3)]
      elif w == 5:
        e = ['flatten', e] if 'masked' not in zoo.names(e) else e
      else:
        e = ['chain', [e]]
    return e

  def tol(self, prog):
    return 2e-5 if prog['x64'] else 2e-4

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 5
