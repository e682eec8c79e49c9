"""Schedules under a step clock that jumps, repeats and is rolled back."""
from sim.boot import np, jnp, jax, optax
from sim.base import Violation, wchoice
from sim import zoo, schedmodel
from sim.engine import sut
from props.common import Prop, register

TOP = 2**31 - 1
FORMS = ['py', 'np32', 'np64', 'dev', 'jit', 'jitpy', 'jitnp']


def deep(fn, e):
  """Applies fn to every basic schedule of an expression."""
  if e[1] == 'join':
    for s in e[2]:
      deep(fn, s)
  elif e[1] == 'sgdr':
    pass
  else:
    fn(e)


@register
class P16(Prop):
  id = 'P16'
  quick = 480
  real = ['optax.*_schedule, join_schedules, sgdr_schedule (unmodified, from '
          '/repo)', 'jax, XLA:CPU']
  stubs = ['step clock (virtual)']
  rule = ('20 or more readings, among them a jump or a rollback, each '
          'compared with the float64 model')

  def generate(self, rng, i, tier):
    horizon = rng.choice([6, 20, 20, 60, 400, 5000, 10**6])
    if i % 9 == 4:  # beyond the integers that float32 tells apart
      horizon = rng.choice([2**25, 2**26, 2**27 + 12345])
    e = zoo.gen_sched(rng, horizon, scale=rng.choice([1.0, 1.0, 1e-3, 64.0]))
    deep(lambda x: self.twist(rng, x, horizon), e)
    edges = sorted({b + d for b in schedmodel.boundaries(e)
                    for d in (-1, 0, 1) if 0 <= b + d <= TOP})
    n = rng.randint(25, 70)
    step, saved, reads = 0, 0, []
    while len(reads) < n:
      what = wchoice(rng, [(6, 'tick'), (1.5, 'edge'), (0.7, 'skip'),
                           (0.6, 'save'), (0.6, 'rollback'), (0.4, 'repeat'),
                           (0.4, 'restart'), (0.5, 'far'), (0.3, 'zero')])
      if what == 'tick':
        step += 1
      elif what == 'edge':
        step = rng.choice(edges) if edges else step
      elif what == 'skip':
        step += rng.randint(2, max(3, horizon // 3))
      elif what == 'save':
        saved = step
      elif what == 'rollback' or what == 'restart':
        step = saved
      elif what == 'far':
        step = rng.choice([TOP, TOP - 1, 2**24 + 1, 2**30 + 7, 10**6 + 3,
                           2**16, rng.randrange(TOP)])
      elif what == 'zero':
        step = 0
      step = min(step, TOP)
      form = rng.choice(FORMS) if rng.random() < 0.5 else 'jit'
      reads.append([what, step, form])
    return dict(sched=e, reads=reads, x64=rng.random() < 0.2)

  def twist(self, rng, e, horizon):
    k = e[2]
    if e[1] in ('polynomial_schedule', 'linear_schedule'):
      if rng.random() < 0.1:
        k['transition_steps'] = rng.choice([0, -3])
      if rng.random() < 0.1:
        k['transition_begin'] = rng.choice([-1, -7])
      if rng.random() < 0.2:
        k['end_value'] = -k['end_value']
      if 'power' in k and rng.random() < 0.3:
        k['power'] = rng.choice([0.5, 0.9, 1.5, 2.5, 4])
    elif e[1] == 'exponential_decay':
      if rng.random() < 0.1:
        k['transition_steps'] = 0
      elif rng.random() < 0.1:
        k['decay_rate'] = 0.0
      elif rng.random() < 0.3:
        k['decay_rate'] = rng.choice([0.3, 0.7, 0.99, 2.0, 1.0])
      if rng.random() < 0.1:
        k['transition_begin'] = -2
    elif e[1].startswith('piecewise'):
      if rng.random() < 0.1:
        k['boundaries_and_scales'] = None
      elif rng.random() < 0.1:
        b = k['boundaries_and_scales']
        b[rng.choice(list(b))] = 0.0
      elif rng.random() < 0.1 and '0' not in k['boundaries_and_scales']:
        k['boundaries_and_scales'] = dict({'0': 0.5},
                                          **k['boundaries_and_scales'])
      if k.get('boundaries_and_scales') and rng.random() < 0.3:  # any order
        items = list(k['boundaries_and_scales'].items())
        rng.shuffle(items)
        k['boundaries_and_scales'] = dict(items)
    elif 'onecycle' in e[1]:
      if rng.random() < 0.4:
        k['pct_start'] = rng.choice([0.1, 0.25, 0.5])
        if e[1][0] == 'l':
          k['pct_final'] = rng.choice([0.7, 0.9])
        k['transition_steps'] = max(k['transition_steps'], 20)
      if rng.random() < 0.4:
        k['div_factor'] = rng.choice([4.0, 10.0])
        k['final_div_factor'] = rng.choice([16.0, 100.0])

  def run(self, prog, ctx):
    e = prog['sched']
    self.fresh(e)
    vec = prog.get('vec', True)
    seen = {}
    for what, step, form in prog['reads']:
      if what in ('skip', 'edge', 'far', 'zero'):
        ctx.fault('clock_jump')
      elif what in ('rollback', 'repeat'):
        ctx.fault('clock_' + what)
      elif what == 'restart':
        ctx.fault('process_restart')
        self.fresh(e)
      v = self.read(step, form, prog['x64'])
      self.judge(e, step, form, v, ctx)
      key = (step, form)
      if key in seen and seen[key] != v.tobytes():
        raise Violation('value-changed', f'step {step} ({form}): {v}')
      seen[key] = v.tobytes()
      ctx.sig(what, step, form)
      ctx.log(what, step, form, v.tobytes())
      ctx.op('read_' + form)
      ctx.steps += 1
    if vec and len(prog['reads']) > 3:
      steps = [r[1] for r in prog['reads']]
      vs = np.asarray(sut(jax.vmap(lambda s: jnp.asarray(self.s(s))),
                          jnp.asarray(steps, jnp.int32)))
      for s, v in zip(steps, vs):
        self.judge(e, s, 'vmap', v, ctx)
      ctx.op('read_vmap', len(steps))

  def fresh(self, e):
    self.s = sut(zoo.build_sched, e)
    self.j = jax.jit(lambda c: jnp.asarray(self.s(c)))

  def read(self, step, form, x64):
    arg = {'py': int, 'np32': np.int32, 'np64': np.int64, 'jitpy': int,
           'jitnp': np.int64,
           'dev': lambda s: jnp.asarray(s, jnp.int32),
           'jit': lambda s: jnp.asarray(s, jnp.int32)}[form](step)
    f = self.j if form.startswith('jit') else self.s
    return np.asarray(sut(f, arg))

  def judge(self, e, step, form, v, ctx):
    want = schedmodel.value(e, step)
    ctx.check()
    if v.shape != ():
      raise Violation('shape', f'step {step} ({form}): {v.shape}')
    v = float(v)
    if abs(want) > 1e37:
      return  # the documented curve leaves the range of the type
    tol = 4e-6 * schedmodel.scale_at(e, step) * schedmodel.slope_error(
        e, step) + 1e-37
    if not abs(v - want) <= tol:
      raise Violation('wrong-value', f'{e[1]} at step {step} ({form}): {v!r} '
                      f'instead of {want!r}')

  def shrink_more(self, prog):
    r = prog['reads']
    size = len(r) // 2
    while size >= 1:
      for i in range(0, len(r), size):
        yield dict(prog, reads=r[:i] + r[i + size:])
      size //= 2
    for i, (w, s, f) in enumerate(r):
      if f != 'jit':
        yield dict(prog, reads=r[:i] + [[w, s, 'jit']] + r[i + 1:])
    if prog.get('vec', True):
      yield dict(prog, vec=False)
    if prog['sched'][1] == 'join':
      for s in prog['sched'][2]:
        yield dict(prog, sched=s)

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 20 and sum(ctx.faults.values()) >= 1
