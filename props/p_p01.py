"""P01: crash anywhere, restore from the newest durable checkpoint, resume."""
from sim.boot import jax
from sim.base import Violation
from sim import trees, zoo, cmp, replica
from sim.engine import World, Oracle, Process, sut
from props.common import Prop, register
from props.common_gen import setting


class Golden:
  """The same training run without any interruption, computed lazily."""

  def __init__(self, make_tx, params, grads, mode):
    self.proc = Process(make_tx)
    self.p = params
    self.s = sut(self.proc.tx.init, params)
    self.grads, self.mode = grads, mode
    self.out = []
    self.start = (self.s, self.p)

  def at(self, pos):
    while len(self.out) <= pos:
      g = self.grads(len(self.out))
      u, self.s, self.p = getattr(self.proc, self.mode)(g, self.s, self.p)
      self.out.append((u, self.s, self.p))
    return self.out[pos]

  def before(self, pos):
    return self.start if pos == 0 else self.at(pos - 1)[1:]


class ResumeOracle(Oracle):

  def __init__(self, golden, ctx):
    self.g, self.ctx = golden, ctx

  def start(self, node):
    s, p = self.g.before(node.pos)
    self.ctx.check()
    cmp.need(cmp.same_bits(trees.to_np(node.state), trees.to_np(s)),
             'restored-state', f'at step {node.pos}')
    cmp.need(cmp.same_bits(trees.to_np(node.params), trees.to_np(p)),
             'restored-params', f'at step {node.pos}')

  def step(self, node, pos, entry, g, s, p, u, s2, p2):
    u0, s0, p0 = self.g.at(pos)
    self.ctx.check()
    if node.restarts:
      self.ctx.probe('step_after_restart')
    for what, a, b in (('updates', u, u0), ('state', s2, s0),
                       ('params', p2, p0)):
      cmp.need(cmp.same_bits(trees.to_np(a), trees.to_np(b)),
               'diverged-' + what,
               f'step {pos} after {node.restarts} restarts')


@register
class P01(Prop):
  id = 'P01'
  quick = 640
  rule = ('at least one crash with a later restart from a checkpoint, at '
          'least 5 steps compared bit for bit with the uninterrupted run')

  def generate(self, rng, i, tier):
    dts, x64, caps = setting(rng)
    long = rng.random() < (0.04 if tier == 'quick' else 0.08)
    eager = not long and rng.random() < 0.45
    steps = rng.randint(8, 14) if eager else rng.randint(12, 60)
    if long:
      steps = rng.choice([200, 500, 1000])
    caps.update(horizon=steps, accum=('f32',))
    tree = trees.gen_tree(rng, dts, max_leaves=4 if eager else 6)
    tx = self.stratified(rng, i, caps) if eager and rng.random() < 0.7 \
        else zoo.gen_tx(rng, caps)
    prog = dict(tree=tree, tx=tx, x64=x64, mode='eager' if eager else 'jit')
    if not long and i % 12 == 5:
      a = rng.randrange(steps)
      prog['twin'] = [rng.choice([0, a]), rng.randint(1, 6), 12345]
    return self.world(
        rng, prog, steps=steps, p_crash=(6 / steps if steps > 100 else 0.08),
        p_ckpt=0.25 if steps < 100 else 0.04, p_poison=0.02,
        p_host=0.0 if eager else 0.4, keep=('p_crash', 'p_ckpt'))

  def stratified(self, rng, i, caps):
    """Each kind in turn, plain or in front of a step size."""
    names = [n for _, n in zoo.base_table(caps)]
    tx = zoo.gen_named(rng, names[i % len(names)], caps)
    if rng.random() < 0.3:
      tx = ['chain', [tx, ['scale', {'step_size': -0.25}]]]
    return tx

  def run(self, prog, ctx):
    tx = prog['tx']
    make = lambda: zoo.build(tx, prog['tree'])
    for n in zoo.names(tx):
      ctx.op('tx_' + n)
    la = zoo.uses_lookahead(tx)
    pfn = None
    import optax
    base = trees.to_jnp(trees.params_tree(prog['tree']))
    if la:
      pfn = lambda: optax.LookaheadParams.init_synced(base)
    else:
      pfn = lambda: base
    oracle = ResumeOracle(None, ctx)
    w = World(prog, ctx, oracle, make, fresh=True, params_fn=pfn)
    oracle.g = Golden(make, pfn(), w.grads, prog['mode'])
    w.run()
    if prog.get('twin'):
      self.twin(prog, ctx, w, oracle.g)
    elif not prog.get('solo'):
      self.twin(dict(prog, twin=[0, 0, 12345]), ctx, w, oracle.g)

  def twin(self, prog, ctx, w, golden):
    """Another process takes over; nothing but the state moves with it."""
    a, n, seed = prog['twin']
    last = len(prog['log'])
    a = min(a, last - 1)
    b = min(a + n, last)
    s, p = golden.before(a)
    ctx.fault('process_replaced')
    ctx.sig('twin', a, b)
    kind, init, outs = replica.ask(
        seed, x64=prog['x64'], tx=prog['tx'], tree=prog['tree'],
        mode=prog['mode'], params=trees.to_np(p),
        start=trees.to_np(golden.start[1]),
        state=None if a == 0 else trees.to_np(s),
        grads=[trees.to_np(w.grads(t)) for t in range(a, b)])
    if kind != 'ok':
      raise Violation('raised', f'in the replacing process: {init}')
    ctx.check()
    cmp.need(cmp.same_bits(init, trees.to_np(golden.start[0])),
             'process-state', 'of init')
    for t, got in zip(range(a, b), outs):
      ctx.check()
      for what, x, y in zip(('updates', 'state', 'params'), got, golden.at(t)):
        cmp.need(cmp.same_bits(x, trees.to_np(y)), 'process-' + what,
                 f'step {t}, taken over by another process at step {a}')
    ctx.probe('steps_in_other_process', b - a)

  def shrink_more(self, prog):
    if prog.get('twin'):
      yield dict(prog, twin=None, solo=True)
      yield dict(prog, twin=None)

  def nontrivial(self, prog, ctx):
    return ctx.probes.get('step_after_restart', 0) >= 5 and \
        ctx.probes.get('restart_from_checkpoint', 0) >= 1
