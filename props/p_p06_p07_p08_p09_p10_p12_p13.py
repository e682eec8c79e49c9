"""Combinators and wrappers against the reference interpreter."""
from sim.boot import np, jnp, jax, optax, _wrappers
from sim.base import Violation
from sim import trees, zoo, cmp, ref
from sim.engine import sut
from props.common import register
from props.common_wrap import WrapProp


def need_eq(actual, expected, kind, where):
  a = np.asarray(actual)
  if a.shape != () or a.dtype.kind not in 'iub' or int(a) != int(expected):
    raise Violation(kind, f'{where}: {a} instead of {int(expected)}')


@register
class P06(WrapProp):
  id = 'P06'
  quick = 400
  rule = 'a chain of at least two members compared at 5 or more steps'
  knobs = dict(p_poison=0.02)

  def gen_outer(self, rng, caps):
    k = rng.choice([1, 2, 2, 3, 3, 4, 5])
    members = [self.gen_inner(rng, dict(caps), 2) for _ in range(k)]

    def nest(ms, d):
      if d >= 2 or len(ms) < 2 or rng.random() < 0.4:
        return ms
      i, j = sorted(rng.sample(range(len(ms) + 1), 2))
      return ms[:i] + [['chain', nest(ms[i:j], d + 1)]] + ms[j:]
    return ['chain', nest(members, 0)]

  def run(self, prog, ctx):
    super().run(prog, ctx)
    # a state of the wrong length is refused
    tx = sut(zoo.build, prog['tx'], prog['tree'])
    p = self.params(prog)
    s = sut(tx.init, p)
    g = trees.to_jnp(trees.grads_tree(prog['tree'], {'k': 'n', 's': 1}))
    n = len(prog['tx'][1])
    if isinstance(s, (list, tuple)) and len(s) == n:
      more = type(s)([optax.EmptyState()])
      for bad in (s[:-1], s + more, more + s, s + s, s[:0]):
        if len(bad) == n:
          continue
        ctx.fault('state_wrong_length')
        ctx.check()
        try:
          tx.update(g, bad, p)
        except ValueError:
          continue
        except Exception as e:  # pylint: disable=broad-except
          if 'ValueError' in repr(e):
            continue
          raise Violation('wrong-length', f'{type(e).__name__} instead of '
                          f'ValueError for {len(bad)} states of {n}') from e
        raise Violation('wrong-length', f'{len(bad)} states accepted for a '
                        f'chain of {n}')

  def nontrivial(self, prog, ctx):
    return len(prog['tx'][1]) >= 2 and ctx.checks >= 5


@register
class P07(WrapProp):
  id = 'P07'
  quick = 400
  rule = 'at least one non-finite gradient and 5 compared steps'
  knobs = dict(p_poison=0.15, keep=('p_poison',))
  far = 0.03

  def far_outer(self, rng, inner, k):
    return ['apply_if_finite', inner, k]

  def gen_outer(self, rng, caps):
    inner = self.gen_inner(rng, dict(caps, accum=None))
    e = ['apply_if_finite', inner, rng.choice([0, 1, 2, 3, 4, 6])]
    if rng.random() < 0.12:
      e = ['apply_if_finite', e, rng.randint(0, 3)]
    return e

  def generate(self, rng, i, tier):
    prog = super().generate(rng, i, tier)
    k, n = prog['tx'][2], len(prog['log'])
    if n >= 300 and k >= 100:  # one storm, of about the limit
      long = max(1, min(n - 2, k + rng.randint(-2, 4)))
      a = rng.randint(1, max(1, n - long - 5))
      for t in range(a, min(n, a + long)):
        prog['log'][t].update(p=[[rng.randrange(4), rng.randrange(9),
                                  rng.choice(['nan', 'inf', '-inf'])]],
                              f='poison')
    if rng.random() < 0.4 and set(zoo.names(prog['tx'])) <= {
        'probe', 'apply_if_finite'}:
      # finite, but the square overflows
      big = [80, 100, 120] if not prog['x64'] else [100, 600, 1000]
      for e in prog['log']:
        if e['k'] in ('n', 'sp') and rng.random() < 0.15:
          e.update(e=rng.choice(big), f='spike')
    return prog

  def counters(self, oracle, node, pos, entry, s, s2, ref_state, u, g):
    run, ok, total, _ = ref_state
    w = f'step {pos}'
    need_eq(s2.notfinite_count, run, 'notfinite_count', w)
    need_eq(s2.last_finite, ok, 'last_finite', w)
    need_eq(s2.total_notfinite, total, 'total_notfinite', w)
    limit = oracle.world.program['tx'][2]
    if not ok:
      oracle.ctx.probe('skipped' if run <= limit else 'gave_up')
    if not ok and run <= limit:
      oracle.ctx.check()
      for x in trees.leaves(u):
        if np.any(np.asarray(x) != 0):
          raise Violation('skipped-updates', f'{w}: updates {x} are not zero')
      cmp.need(cmp.same_bits(trees.to_np(s2.inner_state),
                             trees.to_np(s.inner_state)),
               'skipped-inner-state', w)

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 5 and ctx.faults.get('grad_poison', 0) >= 1


@register
class P08(WrapProp):
  id = 'P08'
  clocks = ('k',)
  quick = 400
  rule = 'at least two inner updates and one mini-step without'
  max_steps = 60
  knobs = dict(p_poison=0.004)
  far = 0.03

  def far_outer(self, rng, inner, k):
    return ['multisteps', inner, k, rng.random() < 0.6]

  def gen_outer(self, rng, caps):
    inner = self.gen_inner(rng, dict(caps, accum=None))
    k = zoo.gen_k(rng)
    if rng.random() < 0.08:
      k = rng.choice([8, 16, 25])
    return ['multisteps', inner, k, rng.random() < 0.6]

  def counters(self, oracle, node, pos, entry, s, s2, ref_state, u, g):
    mini, done, seen, _ = ref_state
    w = f'step {pos}'
    need_eq(s2.mini_step, mini, 'mini_step', w)
    need_eq(s2.gradient_step, done, 'gradient_step', w)
    if oracle.ms is None:
      e = oracle.world.program['tx']
      oracle.ms = _wrappers.MultiSteps(
          zoo.build(e[1], oracle.world.program['tree']), zoo.build_k(e[2]),
          use_grad_mean=e[3])
    # as the reference state is after the step: no gradients pending
    need_eq(sut(oracle.ms.has_updated, s2), mini == 0 and done > 0,
            'has_updated', w)
    if mini:
      oracle.ctx.probe('mini_step')
      for x in trees.leaves(u):
        if np.any(np.asarray(x) != 0):
          raise Violation('mini-step-updates', f'{w}: {x} is not zero')
      cmp.need(cmp.same_bits(trees.to_np(s2.inner_opt_state),
                             trees.to_np(s.inner_opt_state)),
               'mini-step-inner-state', w)
    else:
      oracle.ctx.probe('inner_update')

  def run(self, prog, ctx):
    from props import common_wrap
    common_wrap.RefOracle.ms = None
    super().run(prog, ctx)

  def nontrivial(self, prog, ctx):
    return ctx.probes.get('inner_update', 0) >= 2 and \
        ctx.probes.get('mini_step', 0) >= 1


@register
class P09(WrapProp):
  id = 'P09'
  clocks = ('pred',)
  quick = 400
  rule = 'at least one step with and one without the inner transformation'
  knobs = dict(p_poison=0.01)

  def gen_outer(self, rng, caps):
    inner = self.gen_inner(rng, dict(caps, accum=None))
    e = ['maybe_update', inner, zoo.gen_pred(rng)]
    if rng.random() < 0.15:
      e = ['maybe_update', e, zoo.gen_pred(rng)]
    return e

  def counters(self, oracle, node, pos, entry, s, s2, ref_state, u, g):
    w = f'step {pos}'
    need_eq(s2.step, ref_state[0], 'step-counter', w)
    if not zoo.pred_py(oracle.world.program['tx'][2], pos):
      oracle.ctx.probe('passed_through')
      cmp.need(cmp.same_bits(trees.to_np(u), trees.to_np(g)),
               'pass-through', w)
      cmp.need(cmp.same_bits(trees.to_np(s2.inner_state),
                             trees.to_np(s.inner_state)),
               'pass-through-inner-state', w)
    else:
      oracle.ctx.probe('inner_update')

  def nontrivial(self, prog, ctx):
    return ctx.probes.get('inner_update', 0) >= 1 and \
        ctx.probes.get('passed_through', 0) >= 1


@register
class P10(WrapProp):
  id = 'P10'
  quick = 400
  rule = 'at least two emissions compared'
  max_steps = 80
  knobs = dict(p_poison=0.05)

  far = 0.03

  def far_outer(self, rng, inner, k):
    return ['apply_every', dict(k=k)]

  def gen_outer(self, rng, caps):
    e = ['apply_every', dict(k=rng.choice([1, 2, 3, 4, 5, 7, 10, 16]))]
    r = rng.random()
    if r < 0.15:
      e = ['chain', [e, ['scale', dict(step_size=-0.5)]]]
    elif r < 0.3:
      e = ['chain', [zoo.gen_probe(rng, dict(caps, params=False)), e]]
    elif r < 0.4:
      e = ['masked', e, zoo.gen_mask(rng)]
    elif r < 0.5:
      e = ['maybe_update', e, zoo.gen_pred(rng)]
    elif r < 0.6:
      e = ['apply_if_finite', e, rng.randint(0, 3)]
    elif r < 0.65:
      e = ['flatten', e]
    return e

  def counters(self, oracle, node, pos, entry, s, s2, ref_state, u, g):
    if oracle.world.program['tx'][0] != 'apply_every':
      return
    if ref_state:
      oracle.ctx.probe('withheld')
      for x in trees.leaves(u):
        if np.any(np.asarray(x) != 0):
          raise Violation('off-period', f'step {pos}: {x} is not zero')
    else:
      oracle.ctx.probe('emitted')

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 10


@register
class P12(WrapProp):
  id = 'P12'
  quick = 400
  rule = 'a selected and an unselected leaf, 5 or more compared steps'
  knobs = dict(p_poison=0.05)

  def gen_outer(self, rng, caps):
    inner = self.gen_inner(rng, dict(caps, reshaped=True, flatten=False))
    e = ['masked', inner, zoo.gen_mask(rng)]
    r = rng.random()
    if r < 0.1:
      e = ['masked', ['masked', inner, zoo.gen_mask(rng, dict(reshaped=True))],
           zoo.gen_mask(rng)]
    elif r < 0.2:  # partitions, as users build them
      b = rng.getrandbits(30)
      inner2 = self.gen_inner(rng, dict(caps, reshaped=True, flatten=False))
      e = ['chain', [['masked', inner, ['full', b]],
                     ['masked', inner2, ['full', b ^ ((1 << 30) - 1)]]]]
    return e

  def tune(self, rng, knobs, prog):
    # poison only reaches unselected leaves in half of the runs, so that the
    # selected ones stay informative
    prog['aim'] = rng.random() < 0.6

  def run(self, prog, ctx):
    if prog.get('aim') and prog['tx'][0] == 'masked':
      p = self.params(prog)
      bits = ref.selection(zoo.build_mask(prog['tx'][2], prog['tree']), p)
      out = [i for i, b in enumerate(bits) if not b]
      for e in prog['log']:
        if e.get('p'):
          if out:
            e['p'] = [[out[a % len(out)], b, c] for a, b, c in e['p']]
            ctx.fault('poison_unselected')
          else:
            e.pop('p')
    super().run(prog, ctx)

  def counters(self, oracle, node, pos, entry, s, s2, ref_state, u, g):
    prog = oracle.world.program
    if prog['tx'][0] != 'masked':
      return
    if not hasattr(oracle, 'bits'):
      oracle.bits = ref.selection(
          zoo.build_mask(prog['tx'][2], prog['tree']), g)
    for n, (b, x, y) in enumerate(zip(oracle.bits, trees.leaves(u),
                                      trees.leaves(g))):
      if not b:
        oracle.ctx.probe('unselected_leaf')
        cmp.need(cmp.same_bits(np.asarray(x), np.asarray(y)), 'unselected',
                 f'step {pos}, leaf {n}')
      else:
        oracle.ctx.probe('selected_leaf')

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 5 and (prog['tx'][0] == 'chain' or (
        ctx.probes.get('unselected_leaf', 0) > 0
        and ctx.probes.get('selected_leaf', 0) > 0))


@register
class P13(WrapProp):
  id = 'P13'
  quick = 400
  rule = 'at least two leaves, 5 or more compared steps'
  knobs = dict(p_poison=0.02)

  def gen_outer(self, rng, caps):
    inner = self.gen_inner(rng, dict(caps, reshaped=True))
    e = ['flatten', inner]
    if rng.random() < 0.1:
      e = ['flatten', e]
    return e

  ELEMENTWISE = {'adam', 'adamw', 'adagrad', 'rmsprop', 'sgd', 'yogi', 'trace',
                 'ema', 'scale', 'add_decayed_weights', 'scale_by_rss',
                 'scale_by_rms', 'scale_by_adam', 'scale_by_schedule', 'clip',
                 'keep_params_nonnegative', 'apply_every', 'probe', 'chain',
                 'identity', 'flatten', 'scale_by_yogi'}

  def run(self, prog, ctx):
    super().run(prog, ctx)
    inner = prog['tx'][1]
    if set(zoo.names(inner)) <= self.ELEMENTWISE and 'inject' not in [
        x[0] for x in zoo.walk(inner)]:
      ctx.probe('elementwise')
      # the same without flattening
      alt = dict(prog, tx=prog['tx'])
      from props.common_wrap import RefOracle, Track
      from sim.engine import World
      params = self.params(prog)
      oracle = RefOracle(self, ctx, self.tol(prog))
      w = World(alt, ctx, oracle, lambda: zoo.build(prog['tx'], prog['tree']),
                params_fn=lambda: params)
      oracle.fresh = lambda: ref.make(inner, prog['tree'],
                                      jit=len(prog['log']) > 12)
      oracle.track = Track(oracle.fresh(), params, w.grads)
      w.run()

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 5 and len(trees.leaf_specs(prog['tree'])) >= 2
