"""P03: aborted, repeated, speculative and stale calls leave no trace."""
from sim.boot import np, jnp, jax, optax
from sim.base import Violation
from sim import trees, zoo, cmp, seam
from sim.engine import World, Oracle, Process, sut, fingerprint
from props.common import Prop, register
from props.common_gen import setting
from props.p_p01 import Golden


class SameOracle(Oracle):

  def __init__(self, ctx):
    self.ctx = ctx
    self.disturbed = {}

  def compare(self, pos, got, kind):
    want = self.g.at(pos)
    self.ctx.check()
    for what, a, b in zip(('updates', 'state', 'params'), got, want):
      cmp.need(cmp.same_bits(trees.to_np(a), trees.to_np(b)),
               f'{kind}-{what}', f'step {pos}')

  def step(self, node, pos, entry, g, s, p, u, s2, p2):
    self.compare(pos, (u, s2, p2), 'diverged')

  def replayed(self, node, pos, r):
    self.compare(pos, r, 'stale-call')


@register
class P03(Prop):
  id = 'P03'
  quick = 400
  rule = ('at least one call aborted in the middle, repeated or re-executed '
          'with old arguments, and 5 compared steps')

  def generate(self, rng, i, tier):
    dts, x64, caps = setting(rng)
    eager = rng.random() < 0.6
    host = rng.random() < (0.5 if eager else 0.3) and 'bf16' not in dts
    tx = None
    caps.update(horizon=20, accum=('f32',))
    tx = zoo.gen_tx(rng, caps) if rng.random() < 0.7 else \
        zoo.gen_base(rng, caps)
    if caps.get('inject', True) and rng.random() < 0.1:
      tx = zoo.gen_inject(rng, dict(caps, custom=True))
    heavy = any(x in zoo.names(tx) for x in (
        'multisteps', 'maybe_update', 'apply_if_finite', 'radam',
        'scale_by_radam'))
    steps = rng.randint(4, 6 if heavy else 12) if eager else \
        rng.randint(8, 40)
    tree = trees.gen_tree(rng, dts, max_leaves=4 if eager else 6)
    prog = dict(tree=tree, tx=tx, x64=x64, host=host,
                mode='eager' if eager else 'jit')
    f = 1.0 if eager else 0.5
    return self.world(
        rng, prog, steps=steps, p_crash=0.02, p_ckpt=0.1,
        p_poison=0.03, p_abort=0.3 * f, p_spec=0.12, p_stale=0.15,
        lines=rng.choice([30, 80, 200]), p_host=0.0, keep=('p_abort',))

  def run(self, prog, ctx):
    tx = prog['tx']
    make = lambda: zoo.build(tx, prog['tree'])
    for n in zoo.names(tx):
      ctx.op('tx_' + n)
    conv = trees.to_np if prog['host'] else trees.to_jnp
    base = conv(trees.params_tree(prog['tree']))
    la = zoo.uses_lookahead(tx)
    pfn = (lambda: optax.LookaheadParams.init_synced(base)) if la else (
        lambda: base)
    oracle = SameOracle(ctx)
    w = World(prog, ctx, oracle, make, params_fn=pfn, check_args=True,
              track_args=True, host_grads=prog['host'])
    oracle.g = Golden(make, pfn(), w.grads, prog['mode'])
    # init: pure, repeatable, interruptible
    proc = Process(make)
    p = pfn()
    fp = fingerprint(p)
    first = trees.to_np(sut(proc.tx.init, p))
    for n in (3, 17, 60):
      try:
        with seam.armed(seam.abort_at(n, n % 3)):
          proc.tx.init(p)
      except seam.FLAVOURS:
        ctx.fault('abort_in_init')
      again = trees.to_np(sut(proc.tx.init, p))
      ctx.check()
      cmp.need(cmp.same_bits(again, first), 'init-not-repeatable')
      if fingerprint(p) != fp:
        raise Violation('argument-changed', 'parameters passed to init')
    cmp.need(cmp.same_bits(first, trees.to_np(oracle.g.start[0])),
             'init-differs')
    w.run()

  def nontrivial(self, prog, ctx):
    f = ctx.faults
    return ctx.checks >= 5 and (f.get('abort_in_update', 0)
                                + f.get('speculative_execution', 0)
                                + f.get('stale_reexecution', 0)) >= 1
