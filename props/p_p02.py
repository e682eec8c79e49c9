"""P02: several trainers, one optimizer object, preemption at any line."""
from sim.boot import np, jnp, jax, optax
from sim.base import Violation, rng_for, HarnessError, wchoice
from sim import trees, zoo, cmp, seam, des
from sim.engine import Process, sut
from props.common import Prop, register, _chunks_removed


class Trainer:
  """One training run; records what it computed."""

  def __init__(self, n, spec, entries, proc, mode):
    self.n, self.spec, self.entries, self.proc = n, spec, entries, proc
    self.mode = mode
    self.out = []
    base = trees.to_jnp(trees.params_tree(spec['tree']))
    self.p = optax.LookaheadParams.init_synced(base) if spec['la'] else base
    self.s = None
    self.gs = [trees.to_jnp(trees.grads_tree(spec['tree'], e))
               for e in entries]

  def advance(self):
    """init, then one update per call."""
    if self.s is None:
      self.s = sut(self.proc.tx.init, self.p)
      self.out.append((trees.to_np(self.s),))
      return True
    i = len(self.out) - 1
    if i >= len(self.gs):
      return False
    run = self.proc.eager if self.mode == 'eager' else self.proc.jit
    u, self.s, self.p = run(self.gs[i], self.s, self.p)
    self.out.append((trees.to_np(u), trees.to_np(self.s),
                     trees.to_np(self.p)))
    return True


@register
class P02(Prop):
  id = 'P02'
  quick = 400
  rule = ('at least one switch between trainers in the middle of a call (in '
          'preemption runs) or between calls, all results compared')
  stubs = ['thread scheduler (one thread runs, chosen by the schedule)',
           'gradient source']

  def phased(self, rng):
    """Few lines, many turns: trainers in different phases of a wrapper."""
    caps = dict(horizon=12, reshaped=True, accum=None, flatten=False,
                lookahead=False)
    inner = zoo.gen_named(rng, rng.choice(['sgd', 'scale', 'ema', 'trace',
                                           'scale_by_adam']), caps)
    k = [rng.randint(1, 4) for _ in range(rng.randint(2, 5))]
    tx = wchoice(rng, [
        (3, ['multisteps', inner, k, rng.random() < 0.7]),
        (1, ['maybe_update', inner, zoo.gen_pred(rng)]),
        (1, ['apply_if_finite', inner, rng.randint(0, 3)]),
        (1, ['apply_every', {'k': rng.randint(2, 4)}])])
    tree = trees.gen_tree(rng, ('f32',), max_leaves=2)
    out = []
    for _ in range(2):
      n = rng.randint(4, 8)
      log = [{'k': rng.choice(['n', 'n', 'n', 'sp', 'z']),
              's': rng.randrange(1 << 24), 'e': 0} for _ in range(n)]
      if tx[0] == 'apply_if_finite':
        for e in log:
          if rng.random() < 0.4:
            e['p'] = [[0, rng.randrange(9), 'nan']]
      out.append(dict(tree=tree, log=log, la=False))
    plan = []
    while len(plan) < 20:
      plan += [rng.randrange(2)] * rng.randint(1, 5)
    return dict(tx=tx, x64=False, trainers=out, threads=False, plan=plan,
                mode='eager', solo_first=rng.random() < 0.5, sim_ms=0)

  def generate(self, rng, i, tier):
    if rng.random() < 0.12:
      return self.phased(rng)
    threads = rng.random() < 0.7
    x64 = rng.random() < 0.1
    n = rng.choice([2, 2, 2, 3, 4])
    caps = dict(horizon=20, reshaped=True, accum=None,
                lookahead=rng.random() < 0.3)
    lows = rng.random() < 0.2 and not x64
    if lows:
      caps['inject'] = False
    tx = zoo.gen_tx(rng, caps) if rng.random() < 0.6 else \
        zoo.gen_inject(rng, dict(caps, custom=True)) \
        if not lows and rng.random() < 0.3 else zoo.gen_base(rng, caps)
    eager = threads or rng.random() < 0.2
    heavy = any(x in zoo.names(tx) for x in (
        'multisteps', 'maybe_update', 'apply_if_finite', 'radam',
        'scale_by_radam'))
    steps = rng.randint(2, 3 if heavy else 6) if eager else rng.randint(4, 20)
    la = tx[0] == 'lookahead'
    trainers = []
    common = None
    for t in range(n):
      dts = ('f64',) if x64 else (rng.choice(['f32', 'bf16']),) if lows \
          else ('f32',)
      if common is not None and rng.random() < 0.4:
        tree = common  # same structure: nothing but identity tells them apart
      else:
        tree = trees.gen_tree(rng, dts, max_leaves=3 if eager else 5)
      common = common or tree
      log = [{'k': rng.choice(['n', 'n', 'n', 'sp', 'z']),
              's': rng.randrange(1 << 24), 'e': rng.randint(-2, 2)}
             for _ in range(rng.randint(max(1, steps - 2), steps))]
      if rng.random() < 0.1:
        log[rng.randrange(len(log))]['p'] = [[rng.randrange(9),
                                              rng.randrange(9), 'nan']]
      trainers.append(dict(tree=tree, log=log, la=la))
    if threads:
      plan = []
      for _ in range(rng.choice([1, 3, 10, 30, 80])):
        gap = rng.choice([rng.randint(0, 4), rng.randint(0, 20),
                          rng.randint(10, 80)])
        plan.append([gap, rng.randrange(n)])
    else:
      plan = [rng.randrange(n) for _ in range(sum(
          len(t['log']) + 1 for t in trainers))]
    return dict(tx=tx, x64=x64, trainers=trainers, threads=threads, plan=plan,
                mode='eager' if eager else 'jit',
                solo_first=rng.random() < 0.5, sim_ms=0)

  def run(self, prog, ctx):
    for nme in zoo.names(prog['tx']):
      ctx.op('tx_' + nme)
    tree0 = prog['trainers'][0]['tree']
    make = lambda: zoo.build(prog['tx'], tree0)

    def solo():
      res = []
      for n, t in enumerate(prog['trainers']):
        tr = Trainer(n, t, t['log'], Process(make), prog['mode'])
        while tr.advance():
          pass
        res.append(tr.out)
      return res
    alone = solo() if prog['solo_first'] else None
    shared = Process(make)
    trs = [Trainer(n, t, t['log'], shared, prog['mode'])
           for n, t in enumerate(prog['trainers'])]
    if prog['threads']:
      def body(tr):
        def go(sched):
          while True:
            sched.boundary()
            if not tr.advance():
              return
        return go
      th = seam.Threads([body(t) for t in trs], prog['plan'], ctx)
      th.run()
      ctx.fault('preemption_inside_call', th.inside)
      ctx.fault('switch_between_calls', th.switches - th.inside)
    else:
      last = None
      for n in prog['plan'] + list(range(len(trs))) * 64:
        tr = trs[n % len(trs)]
        if tr.advance():
          ctx.sig(n % len(trs))
          ctx.log('advance', n % len(trs))
          if last not in (None, n):
            ctx.fault('switch_between_calls')
          last = n
    if alone is None:
      alone = solo()
    for tr, want in zip(trs, alone):
      ctx.steps += len(tr.out) - 1
      if len(tr.out) != len(want):
        raise HarnessError('trainer did not finish')
      for i, (a, b) in enumerate(zip(tr.out, want)):
        ctx.check()
        ctx.log('result', tr.n, i, trees.digest(a))
        for k, (x, y) in enumerate(zip(a, b)):
          what = 'init' if i == 0 else ('updates', 'state', 'params')[k]
          cmp.need(cmp.same_bits(x, y), 'disturbed-' + what,
                   f'trainer {tr.n} of {len(trs)}, step {i - 1}')

  def nontrivial(self, prog, ctx):
    return sum(ctx.faults.values()) >= 1 and ctx.checks >= 4

  def shrink_more(self, prog):
    for c in _chunks_removed(prog['plan']):
      yield dict(prog, plan=c)
    ts = prog['trainers']
    if len(ts) > 2:
      for i in range(len(ts)):
        yield dict(prog, trainers=ts[:i] + ts[i + 1:])
    for i, t in enumerate(ts):
      for m in (1, len(t['log']) // 2, len(t['log']) - 1):
        if 0 < m < len(t['log']):
          yield dict(prog, trainers=ts[:i] + [dict(t, log=t['log'][:m])]
                     + ts[i + 1:])
      ls = trees.leaf_specs(t['tree'])
      if len(ls) > 1:
        for l in ls:
          d = trees.drop_leaf(t['tree'], l[1])
          if d is not None:
            yield dict(prog, trainers=ts[:i] + [dict(t, tree=d)] + ts[i + 1:])
