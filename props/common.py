"""What the properties share: how a run is generated, executed and shrunk."""
import copy
import traceback

from sim.boot import set_x64, jax
from sim.base import Violation, HarnessError, Ctx, rng_for, canon
from sim import des, trees, zoo


class Prop:
  id = None
  quick = 300       # simulated runs in the quick tier
  thorough = 20000  # upper bound in the thorough tier (time limited)
  real = ['optax (all code reached, unmodified, from /repo)', 'jax, XLA:CPU']
  stubs = ['gradient workers and network (discrete-event simulation)',
           'disk (in memory, with faults)', 'clock (virtual)']
  rule = ''
  assumptions = []

  def generate(self, rng, i, tier):
    raise NotImplementedError

  def run(self, prog, ctx):
    raise NotImplementedError

  def execute(self, prog, ctx):
    set_x64(prog.get('x64', False))
    self.run(prog, ctx)

  # --------------------------------------------------------------- helpers
  def world(self, rng, prog, **knobs):
    """Adds log, ops, virtual time to the program."""
    if prog.get('mode') == 'eager' or 'eager' in knobs.get('modes', ()):
      knobs['p_host'] = 0.0  # NumPy scalars widen outside compiled code
    log, ops, ms, stats = des.simulate(rng, knobs)
    prog.update(log=log, ops=ops, sim_ms=ms, planned=stats,
                nodes=knobs.get('nodes', 1), chunk=knobs.get('chunk', 0))
    return prog

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 5 and sum(ctx.faults.values()) >= 1

  def shrink(self, prog):
    """Yields candidate simplifications, biggest first."""
    ops, log = prog.get('ops'), prog.get('log')
    if ops:
      for cand in _chunks_removed(ops):
        yield dict(prog, ops=cand)
    if log:
      n = len(log)
      for m in (n // 4, n // 2, 3 * n // 4, n - 2, n - 1):
        if 0 < m < n:
          yield dict(prog, log=log[:m])
      for cand in _chunks_removed(log):
        if cand:
          yield dict(prog, log=cand)
      for i, e in enumerate(log):
        if e.get('p') and len(e['p']) > 1:
          yield dict(prog, log=log[:i] + [dict(e, p=e['p'][:1])] + log[i+1:])
      for i, e in enumerate(log):
        s = {k: v for k, v in e.items() if k not in ('f', 't')}
        if s.get('k') != 'z' and not s.get('p'):
          yield dict(prog, log=log[:i] + [{'k': 'z'}] + log[i + 1:])
    if prog.get('tree'):
      ls = trees.leaf_specs(prog['tree'])
      if len(ls) > 1:
        for l in ls:
          t = trees.drop_leaf(prog['tree'], l[1])
          if t is not None:
            yield dict(prog, tree=t)
    if prog.get('tx'):
      for e in simpler(prog['tx']):
        yield dict(prog, tx=e)
    yield from self.shrink_more(prog)

  def shrink_more(self, prog):
    return ()


def _chunks_removed(xs):
  n = len(xs)
  size = n
  while size >= 1:
    for i in range(0, n, size):
      yield xs[:i] + xs[i + size:]
    size //= 2


def simpler(e):
  name = e[0]
  if name == 'chain':
    for x in e[1]:
      yield x
    if len(e[1]) > 1:
      for i in range(len(e[1])):
        yield ['chain', e[1][:i] + e[1][i + 1:]]
    for i, x in enumerate(e[1]):
      for y in simpler(x):
        yield ['chain', e[1][:i] + [y] + e[1][i + 1:]]
  elif name in ('masked', 'flatten', 'apply_if_finite', 'multisteps',
                'maybe_update', 'lookahead'):
    if name != 'lookahead':
      yield e[1]
    for y in simpler(e[1]):
      yield [name, y] + e[2:]
  elif name == 'inject':
    for k, v in e[2].items():
      if isinstance(v, list) and v[:1] == ['sched']:
        yield [name, e[1], dict(e[2], **{k: 0.5})] + e[3:]
  else:
    for k, v in e[1].items():
      if isinstance(v, list) and v[:1] == ['sched']:
        if k == 'step_size_fn':
          if v[1] != 'constant_schedule':
            yield [name, dict(e[1], **{k: ['sched', 'constant_schedule',
                                          {'value': 0.5}]})]
        else:
          yield [name, dict(e[1], **{k: 0.5})]


PROPS = {}


def register(cls):
  PROPS[cls.id] = cls()
  return cls


def run_once(prop, prog, trace=False):
  """Executes a program; returns (violation or None, ctx)."""
  ctx = Ctx()
  if trace:
    ctx.trace = []
  try:
    prop.execute(copy.deepcopy(prog), ctx)
  except Violation as v:
    return v, ctx
  except (TypeError, ValueError, LookupError, AttributeError, AssertionError,
          ArithmeticError) as e:
    # An oracle could not even take the result apart.
    if isinstance(e, HarnessError):
      raise
    where = traceback.extract_tb(e.__traceback__)[-1]
    return Violation('unexpected-form', f'{type(e).__name__}: {str(e)[:200]} '
                     f'({where.filename.split("/")[-1]}:{where.lineno})'), ctx
  return None, ctx


def make_program(prop, seed, tier, i):
  rng = rng_for(seed, prop.id, tier, i)
  prog = prop.generate(rng, i, tier)
  if 'adaptive_grad_clip' in repr(prog):  # defined up to rank four
    for d in [prog] + list(prog.get('trainers', ())):
      if 'tree' in d:
        d['tree'] = trees.flat_rank5(d['tree'])
  prog['prop'] = prop.id
  prog['seed'] = [seed, tier, i]
  return prog
