"""Execution modes agree; structure and dtypes are a fixed point."""
from sim.boot import np, jnp, jax, optax
from sim.base import Violation
from sim import trees, zoo, cmp
from sim.engine import World, Oracle, Process, sut
from props.common import Prop, register
from props.common_gen import setting
from props.common_wrap import STIFF, tame


def close_state(a, b, tol, kind, where, scale=None):
  if trees.structure(a) != trees.structure(b):
    raise Violation(kind, f'{where}: structure {trees.structure(a)} and '
                    f'{trees.structure(b)}', exact=True)
  for n, (x, y) in enumerate(zip(trees.leaves(a), trees.leaves(b))):
    x, y = np.asarray(x), np.asarray(y)
    if x.dtype != y.dtype or x.shape != y.shape:
      raise Violation(kind, f'{where}, leaf {n}: {x.dtype}{x.shape} and '
                      f'{y.dtype}{y.shape}', exact=True)
    if x.dtype.kind in 'iub':
      if not np.array_equal(x, y):
        raise Violation(kind, f'{where}, leaf {n}: {x} and {y}', exact=True)
    else:
      at = 1e-30
      if scale is not None:
        z = np.abs(np.asarray(scale[n], np.float64))
        z = z[np.isfinite(z)]
        at += tol * (z.max() if z.size else 0)
      cmp.need(cmp.close(x, y, tol, atol=at), kind, f'{where}, leaf {n}')


class ModesOracle(Oracle):
  """Every step is recomputed in another mode from the same arguments."""

  def __init__(self, prop, prog, ctx, tol):
    self.ctx, self.tol, self.prog = ctx, tol, prog
    self.history = []

  def need(self, got, want, kind, where, args, node):
    try:
      self.values(got, want, kind, where)
    except Violation as v:
      if v.data.get('exact') or not self.rounding(got, want, args, node):
        raise
      self.ctx.probe('undecided_ill_conditioned')

  def rounding(self, got, want, args, node):
    eps = 2.0**-50 if self.tol < 1e-7 else 2.0**-22
    other = [node.proc.jit(*[trees.to_jnp(cmp.perturbed(
        trees.to_np(a), eps, 3 * k + i)) for i, a in enumerate(args)])
             for k in range(3)]
    return all(cmp.explained(trees.to_np(a), trees.to_np(b),
                             [trees.to_np(o[i]) for o in other], 30, self.tol)
               for i, (a, b) in enumerate(zip(got, want)))

  def values(self, got, want, kind, where):
    self.ctx.check()
    for what, a, b in zip(('updates', 'state', 'params'), got, want):
      close_state(a, b, self.tol, f'{kind}-{what}', where,
                  trees.leaves(want[0]) if what == 'params' else None)

  def step(self, node, pos, entry, g, s, p, u, s2, p2):
    self.history.append((pos, g, s, p))
    r = self.prog['other'][len(self.history) % len(self.prog['other'])]
    if r == '-' or r == node.mode:
      return
    if r == 'vmap':
      return self.vmap(node, pos, g, s, p, u, s2, p2)
    got = getattr(node.proc, r)(g, s, p)
    self.ctx.probe(f'{node.mode}_vs_{r}')
    self.need(got, (u, s2, p2), 'modes-differ',
              f'step {pos}, {r} against {node.mode}', (g, s, p), node)

  def vmap(self, node, pos, g, s, p, u, s2, p2):
    """Batches this step with earlier steps of the run, as separate runs."""
    back = self.history[-4:]
    stack = lambda *x: jnp.stack([jnp.asarray(y) for y in x])
    tm = jax.tree_util.tree_map
    gs = tm(stack, *[h[1] for h in back])
    ss = tm(stack, *[h[2] for h in back])
    ps = tm(stack, *[h[3] for h in back])
    us, s2s, p2s = sut(jax.jit(jax.vmap(node.proc._body)), gs, ss, ps)
    self.ctx.probe('vmapped_steps')
    pick = lambda t: tm(lambda x: x[len(back) - 1], trees.to_np(t))
    self.need((pick(us), pick(s2s), pick(p2s)),
              tuple(map(trees.to_np, (u, s2, p2))), 'modes-differ',
              f'step {pos}, batched against {node.mode}', (g, s, p), node)


@register
class P04(Prop):
  id = 'P04'
  quick = 320
  rule = 'at least 3 steps executed in two modes or batched and compared'

  def generate(self, rng, i, tier):
    dts, x64, caps = setting(rng, low=False, mixed=False)
    caps.update(horizon=30, accum=None, avoid=STIFF)
    tx = tame(zoo.gen_tx(rng, caps))
    heavy = any(x in zoo.names(tx) for x in (
        'multisteps', 'maybe_update', 'apply_if_finite', 'radam',
        'scale_by_radam'))
    steps = rng.randint(6, 30)
    tree = trees.gen_tree(rng, dts, max_leaves=5)
    prog = dict(tree=tree, tx=tx, x64=x64, mode='jit')
    other = ['-'] * rng.randint(0, 3) + ['eager'] * (1 if heavy else 3) + \
        ['jit'] * 2 + ['vmap'] * rng.choice([0, 0, 1])
    if heavy:
      other += ['-'] * 8
    rng.shuffle(other)
    prog['other'] = other
    return self.world(
        rng, prog, steps=steps, p_crash=0.03, p_ckpt=0.2, p_poison=0.02,
        modes=('jit', 'eager') if not heavy else ('jit', 'jit', 'jit'),
        p_mode=0.15, chunk=rng.choice([2, 3, 5]), p_chunk=0.25,
        p_spike=0.02 if x64 else 0.0, p_host=0.0)

  def run(self, prog, ctx):
    tx = prog['tx']
    make = lambda: zoo.build(tx, prog['tree'])
    for n in zoo.names(tx):
      ctx.op('tx_' + n)
    base = trees.to_jnp(trees.params_tree(prog['tree']))
    la = zoo.uses_lookahead(tx)
    p = optax.LookaheadParams.init_synced(base) if la else base
    tol = (2e-5 if zoo.has_scheds(tx) else 1e-9) if prog['x64'] else 1e-4
    oracle = ModesOracle(self, prog, ctx, tol)
    w = World(prog, ctx, oracle, make, params_fn=lambda: p)
    w.run()

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 3


def shape_of(t):
  return [(str(np.asarray(x).dtype), np.shape(x)) for x in trees.leaves(t)]


class FixedOracle(Oracle):

  def __init__(self, ctx, params):
    self.ctx = ctx
    self.want = None
    self.p = (trees.structure(params), shape_of(params))
    self.traces = {}

  def start(self, node):
    sig = (trees.structure(node.state), shape_of(node.state))
    if self.want is None:
      self.want = sig
    self.same(sig, self.want, 'state', 'after a (re)start')

  def same(self, a, b, what, where):
    if a[0] != b[0]:
      raise Violation(what + '-structure', f'{where}: {a[0]}, was {b[0]}')
    for n, (x, y) in enumerate(zip(a[1], b[1])):
      if x != y:
        raise Violation(what + '-dtype', f'{where}, part {n}: {x}, was {y}')

  def step(self, node, pos, entry, g, s, p, u, s2, p2):
    self.ctx.check()
    w = f'step {pos} ({node.mode})'
    self.same((trees.structure(s2), shape_of(s2)), self.want, 'state', w)
    self.same((trees.structure(p2), shape_of(p2)), self.p, 'params', w)
    if trees.structure(u) != trees.structure(p2) or [
        x[1] for x in shape_of(u)] != [x[1] for x in shape_of(p2)]:
      raise Violation('updates-structure', w)
    if node.proc.traces > 1:
      raise Violation('retraced', f'{w}: the compiled step was traced '
                      f'{node.proc.traces} times')


@register
class P05(Prop):
  id = 'P05'
  quick = 400
  rule = 'at least 5 checked steps'

  def generate(self, rng, i, tier):
    dts, x64, caps = setting(rng)
    if rng.random() < 0.2 and not x64:
      dts = (rng.choice(['f16', 'bf16']),)
      caps['inject'] = False
    caps.update(horizon=30, accum=('f32',) if dts in (('f32',),) else None)
    tx = zoo.gen_tx(rng, caps) if rng.random() < 0.6 else zoo.gen_base(
        rng, caps)
    heavy = any(x in zoo.names(tx) for x in (
        'multisteps', 'maybe_update', 'apply_if_finite', 'radam',
        'scale_by_radam'))
    eager = rng.random() < 0.2
    steps = rng.randint(4, 6 if heavy else 12) if eager else \
        rng.randint(6, 30)
    if rng.random() < 0.03:
      steps, eager = 400, False
    tree = trees.gen_tree(rng, dts, max_leaves=7)
    prog = dict(tree=tree, tx=tx, x64=x64, mode='eager' if eager else 'jit')
    return self.world(
        rng, prog, steps=steps, p_crash=0.05, p_ckpt=0.25, p_poison=0.03,
        chunk=rng.choice([0, 0, 2, 4]), p_chunk=0.2,
        p_host=0.0 if eager else 0.4)

  def run(self, prog, ctx):
    tx = prog['tx']
    make = lambda: zoo.build(tx, prog['tree'])
    for n in zoo.names(tx):
      ctx.op('tx_' + n)
    base = trees.to_jnp(trees.params_tree(prog['tree']))
    la = zoo.uses_lookahead(tx)
    p = optax.LookaheadParams.init_synced(base) if la else base
    oracle = FixedOracle(ctx, p)
    w = World(prog, ctx, oracle, make, params_fn=lambda: p)
    w.run()

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 5
