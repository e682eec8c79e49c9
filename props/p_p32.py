"""P32: a call that cannot be right is refused, and leaves no trace."""
from sim.boot import np, jnp, jax, optax
from sim.base import Violation, wchoice
from sim import trees, zoo, cmp
from sim.engine import World, Oracle, Process, sut, fingerprint
from props.common import Prop, register
from props.common_gen import setting
from props.p_p01 import Golden

NEEDS = {'adamw', 'lamb', 'fromage', 'add_decayed_weights',
         'scale_by_trust_ratio', 'adaptive_grad_clip',
         'keep_params_nonnegative', 'decayed_momentum', 'masked_decay'}
# one accumulator per parameter, walked together with the gradients
REMEMBERS = {'adam', 'adamw', 'adabelief', 'lamb', 'radam', 'rmsprop',
             'yogi', 'sm3', 'adagrad', 'trace', 'ema', 'scale_by_rss',
             'scale_by_rms', 'scale_by_stddev', 'scale_by_adam',
             'scale_by_belief', 'scale_by_yogi', 'scale_by_radam',
             'apply_every', 'scale_by_sm3', 'scaled_adam',
             'decayed_momentum', 'zero_nans'}


def needs(tx):
  return bool(set(zoo.names(tx)) & NEEDS) or zoo.uses_lookahead(tx)


class MisuseOracle(Oracle):

  def __init__(self, prog, ctx):
    self.prog, self.ctx = prog, ctx
    self.g = None

  def step(self, node, pos, entry, g, s, p, u, s2, p2):
    self.ctx.check()
    u0, s0, p0 = self.g.at(pos)
    for what, a, b in (('updates', u, u0), ('state', s2, s0),
                       ('params', p2, p0)):
      cmp.need(cmp.same_bits(trees.to_np(a), trees.to_np(b)),
               'disturbed-' + what, f'step {pos}')


def misplaced(tree, how, r):
  """The tree with one part too many, missing or elsewhere."""
  ls, td = jax.tree_util.tree_flatten(tree)
  if how == 'extra':
    return {'tree': tree, 'more': ls[0]}
  if how == 'list':
    return [tree]
  if isinstance(tree, dict) and tree:
    k = sorted(tree)[r % len(tree)]
    if how == 'renamed':
      return {('zz' if n == k else n): v for n, v in tree.items()}
    return {n: v for n, v in tree.items() if n != k}
  if type(tree) in (list, tuple) and len(tree) > 0:
    if how == 'renamed':
      return type(tree)(list(tree) + [ls[0]])
    return type(tree)(list(tree)[:-1])
  return {'tree': tree}


@register
class P32(Prop):
  id = 'P32'
  quick = 300
  method = ('a caller that now and then forgets the parameters, passes '
            'gradients of another model or the state of another optimizer: '
            'the call has to fail, and the run to continue bit by bit as the '
            'run without it; configurations out of range have to be refused')
  note = 'sampled compositions, kinds of misuse and moments'
  rule = 'at least one misuse and three later steps'
  stubs = Prop.stubs + ['the careless caller']

  def generate(self, rng, i, tier):
    if rng.random() < 0.12:
      return dict(x64=False, config=rng.randrange(1 << 24), sim_ms=0)
    dts, x64, caps = setting(rng, low=False, mixed=False)
    steps = rng.randint(6, 20)
    caps.update(horizon=steps, accum=None)
    tx = zoo.gen_tx(rng, caps)
    prog = dict(tree=trees.gen_tree(rng, dts, max_leaves=5), tx=tx, x64=x64,
                mode='jit')
    bad = []
    for t in range(steps):
      if rng.random() < 0.3:
        bad.append([t, wchoice(rng, [(4, 'no_params'), (2, 'gradients'),
                                     (1.5, 'params'), (1.5, 'state')]),
                    rng.randrange(1 << 20), rng.choice(['jit', 'eager'])])
    prog['bad'] = bad
    return self.world(rng, prog, steps=steps, p_crash=0.04, p_ckpt=0.2,
                      p_host=0.0)

  def nontrivial(self, prog, ctx):
    return 'config' in prog or ctx.checks >= 4 and any(
        k.startswith('misuse') for k in ctx.faults)

  # -------------------------------------------------------------- execution
  def run(self, prog, ctx):
    if 'config' in prog:
      return self.config(prog, ctx)
    tx = prog['tx']
    for n in zoo.names(tx):
      ctx.op('tx_' + n)
    la = zoo.uses_lookahead(tx)
    make = lambda: zoo.build(tx, prog['tree'])
    base = trees.to_jnp(trees.params_tree(prog['tree']))
    pfn = (lambda: optax.LookaheadParams.init_synced(base)) if la else (
        lambda: base)
    at = {}
    for b in prog['bad']:
      at.setdefault(b[0], []).append(b)
    oracle = MisuseOracle(prog, ctx)
    w = World(prog, ctx, oracle, make, fresh=True, params_fn=pfn,
              before_step=lambda node, pos: [
                  self.misuse(prog, ctx, node, pos, b)
                  for b in at.get(pos, ())])
    oracle.g = Golden(make, pfn(), w.grads, prog['mode'])
    w.run()

  def misuse(self, prog, ctx, node, pos, b):
    _, kind, r, mode = b
    tx = prog['tx']
    la = zoo.uses_lookahead(tx)
    names = set(zoo.names(tx))
    g, s, p = node.grads(pos), node.state, node.params
    fp = fingerprint(g), fingerprint(s), fingerprint(p)
    update = node.proc.tx.update
    how = ('missing', 'renamed', 'extra', 'list')[r % 4]
    other = lambda t: misplaced(t, how, r)
    compiled = mode == 'jit'
    if kind == 'no_params':
      call = lambda g, s, p: update(g, s, None)
      args, must = (g, s, p), needs(tx)
    elif kind == 'gradients':
      if not names & REMEMBERS or names & {'flatten', 'masked'} or la:
        return
      args, must = (other(g), s, p), True
    elif kind == 'params':
      if not names & {'adamw', 'add_decayed_weights', 'scale_by_trust_ratio',
                      'fromage', 'lamb', 'keep_params_nonnegative'} or \
          names & {'flatten', 'masked'} or la:
        return
      args, must = (g, s, other(p)), True
    else:  # the state of a chain of another length
      if tx[0] != 'chain':
        return
      s2 = tuple(s)[:-1] if r % 2 else tuple(s) + (s[0],) if s else (
          optax.EmptyState(),)
      args, must = (g, s2, p), True
    if kind != 'no_params':
      call = lambda g, s, p: update(g, s, p)
    ctx.fault('misuse_' + kind)
    ctx.sig(pos, kind, how)
    ctx.log('misuse', pos, kind, must)
    err = out = None
    try:
      out = (jax.jit(call) if compiled else call)(*args)
    except Exception as e:  # pylint: disable=broad-except
      err = e
    ctx.check()
    if must and err is None:
      raise Violation('accepted', f'step {pos}, {mode}: an update with '
                      f'{self.words(kind, how)} was computed')
    if must and (kind == 'no_params' and not la or kind == 'state') and \
        not isinstance(err, ValueError):
      raise Violation('wrong-error', f'step {pos}, {mode}: an update with '
                      f'{self.words(kind, how)} raised '
                      f'{type(err).__name__}: {str(err)[:200]}')
    if not must:
      if err is not None:
        raise Violation('refused', f'step {pos}, {mode}: parameters are not '
                        f'needed, but {type(err).__name__}: {str(err)[:200]}')
      ref = sut(jax.jit(update) if compiled else update, g, s, p)
      if compiled or names & {'radam', 'scale_by_radam', 'maybe_update',
                              'multisteps', 'apply_if_finite'}:
        p1 = cmp.close(trees.to_np(out[0]), trees.to_np(ref[0]), 1e-4, 1e-30)
      else:
        p1 = cmp.same_bits(trees.to_np(out), trees.to_np(ref))
      cmp.need(p1, 'differs-without-params', f'step {pos}, {mode}')
      ctx.probe('params_not_needed')
    else:
      ctx.probe('refused')
    now = fingerprint(g), fingerprint(s), fingerprint(p)
    if fp != now:
      raise Violation('argument-changed', f'step {pos}: by a refused call')

  def words(self, kind, how):
    return {'no_params': 'no parameters',
            'gradients': f'gradients of another structure ({how})',
            'params': f'parameters of another structure ({how})',
            'state': 'the state of a chain of another length'}[kind]

  # ------------------------------------------------------------ configuration
  def config(self, prog, ctx):
    """Each configuration out of range is refused when it is made or used."""
    r = np.random.RandomState(prog['config'])
    neg = -int(r.randint(0, 5))
    x = float(np.round(r.uniform(0.1, 2), 3))
    g = {'a': jnp.asarray(r.randn(4, 3), jnp.float32),
         'b': jnp.asarray(r.randn(4), jnp.float32)}
    inner = [optax.sgd(x), optax.adam(x), optax.rmsprop(x)][r.randint(3)]
    dp = optax.differentially_private_aggregate(x, 1.0, 0)
    key = jax.random.PRNGKey(0)

    def use(tx, grads, params=None):
      return tx.update(grads, tx.init(g), params)
    cases = {
        'lookahead period': lambda: optax.lookahead(inner, neg, 0.5),
        'cosine decay steps': lambda: optax.cosine_decay_schedule(x, neg),
        'linear onecycle steps': lambda: optax.linear_onecycle_schedule(
            neg, x),
        'cosine onecycle steps': lambda: optax.cosine_onecycle_schedule(
            neg, x),
        'negative scale': lambda: optax.piecewise_constant_schedule(
            x, {3: 0.5, 5: -x}),
        'negative interpolated scale':
            lambda: optax.piecewise_interpolate_schedule(
                ['linear', 'cosine'][r.randint(2)], x, {3: -x, 9: 0.5}),
        'interpolation': lambda: optax.piecewise_interpolate_schedule(
            'quadratic', x, {3: 0.5}),
        'static argument': lambda: optax.inject_hyperparams(
            optax.adam, static_args=['b1', 'beta%d' % r.randint(9)]),
        'static argument alone': lambda: optax.inject_hyperparams(
            optax.sgd, static_args='weight'),
        'chain state': lambda: optax.chain(inner, optax.scale(x)).update(
            g, (inner.init(g),)),
        'uninitialised chain': lambda: optax.chain(
            inner, optax.scale(x)).update(g, ()),
        'batch of one scalar': lambda: use(dp, dict(g, b=jnp.float32(1.0))),
        'unequal batches': lambda: use(dp, dict(g, b=jnp.ones(3))),
        'other unequal batches': lambda: use(dp, dict(g, a=jnp.ones(
            (int(r.randint(5, 9)), 3)))),
        'five dimensions': lambda: use(
            optax.adaptive_grad_clip(x), jnp.ones((2, 2, 2, 2, 2)),
            jnp.ones((2, 2, 2, 2, 2))),
        'foreign distribution': lambda: optax.measure_valued_jacobians(
            lambda v: jnp.sum(v**2), [jnp.zeros(2), jnp.ones(2)],
            lambda *a: optax.multi_normal(*a), key, 8),
    }
    names = sorted(cases)
    for k in r.permutation(len(names))[:6]:
      n = names[k]
      ctx.fault('misconfigured')
      ctx.check()
      ctx.op('config_' + n.replace(' ', '_'))
      ctx.log(n)
      ctx.sig(n)
      try:
        cases[n]()
      except ValueError:
        continue
      except Exception as e:  # pylint: disable=broad-except
        raise Violation('wrong-error', f'{n}: {type(e).__name__}: '
                        f'{str(e)[:200]}') from e
      raise Violation('accepted', f'{n} out of range was accepted')

  def shrink_more(self, prog):
    for i in range(len(prog.get('bad', ()))):
      yield dict(prog, bad=prog['bad'][:i] + prog['bad'][i + 1:])
